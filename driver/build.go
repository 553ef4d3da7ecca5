package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/lestrrat-go/helium"
)

// tok is one token of a tree, as treeOf lists them
type tok struct {
	K          string
	V, E       T
	S          string
	L, P, U, N T
	Ty         string
	Pi, Si     T
	NS         [][]T
	At         []struct{ N, V T }
	T, Tx      T
}

func build(toks []tok) (*helium.Document, error) {
	var doc *helium.Document
	var dtd *helium.DTD
	stack := []helium.Node{}
	top := func() helium.Node { return stack[len(stack)-1] }
	add := func(n helium.Node, err error) error {
		if err != nil {
			return err
		}
		return top().AddChild(n)
	}
	for i, t := range toks {
		var err error
		switch t.K {
		case "doc":
			s := map[string]helium.DocumentStandaloneType{"yes": helium.StandaloneExplicitYes, "no": helium.StandaloneExplicitNo,
				"": helium.StandaloneImplicitNo}[t.S]
			enc := str(t.E)
			if enc == "utf8" {
				enc = ""
			}
			doc = helium.NewDocument(str(t.V), enc, s)
			stack = append(stack, doc)
		case "/doc":
		case "dtd":
			dtd, err = doc.CreateInternalSubset(str(t.N), str(t.Pi), str(t.Si))
		case "/dtd":
		case "ent":
			ty := map[string]helium.EntityType{"": helium.InternalGeneralEntity, "par": helium.InternalParameterEntity, "gext": helium.ExternalGeneralParsedEntity,
				"gunp": helium.ExternalGeneralUnparsedEntity, "pext": helium.ExternalParameterEntity}[t.Ty]
			_, err = doc.AddEntity(str(t.N), ty, str(t.Pi), str(t.Si), str(t.T))
		case "eld":
			f := strings.Fields(strings.TrimSuffix(str(t.Tx), ">"))
			switch f[2] {
			case "EMPTY":
				_, err = dtd.AddElementDecl(f[1], helium.EmptyElementType, nil)
			case "ANY":
				_, err = dtd.AddElementDecl(f[1], helium.AnyElementType, nil)
			default:
				var c *helium.ElementContent
				if c, err = doc.CreateElementContent("", helium.ElementContentPCDATA); err == nil {
					_, err = dtd.AddElementDecl(f[1], helium.MixedElementType, c)
				}
			}
		case "el":
			var e *helium.Element
			if e, err = doc.CreateElement(str(t.L)); err != nil {
				break
			}
			for _, ns := range t.NS {
				if err = e.SetNamespace(str(ns[0]), str(ns[1])); err != nil {
					return nil, err
				}
			}
			if len(t.U) > 0 {
				if err = e.SetNamespace(str(t.P), str(t.U), true); err != nil {
					break
				}
			}
			for _, a := range t.At {
				if err = e.SetAttribute(str(a.N), str(a.V)); err != nil {
					return nil, err
				}
			}
			err = add(e, nil)
			stack = append(stack, e)
		case "/el":
			stack = stack[:len(stack)-1]
		case "tx":
			// one text in one of several ways
			lent := lend(str(t.T))
			switch s := lent.b; {
			case i%3 == 0:
				err = top().AddContent(s)
			case i%3 == 1:
				n, e := doc.CreateText(s)
				err = add(n, e)
			default:
				h := len(s) / 2
				for h > 0 && s[h]&0xC0 == 0x80 {
					h--
				}
				n, e := doc.CreateText(s[:h])
				if err = add(n, e); err == nil {
					n, e = doc.CreateText(s[h:])
					err = add(n, e)
				}
			}
			lent.reuse()
		case "co":
			lent := lend(str(t.T))
			n, e := doc.CreateComment(lent.b)
			err = add(n, e)
			lent.reuse()
		case "pi":
			n, e := doc.CreatePI(str(t.N), str(t.T))
			err = add(n, e)
		case "er":
			n, e := doc.CreateReference(str(t.N))
			err = add(n, e)
		default:
			panic("no such token: " + t.K)
		}
		if err != nil {
			return nil, fmt.Errorf("token %d: %v", i, err)
		}
	}
	return doc, nil
}

// buildCase builds a tree from its tokens and serializes it
func buildCase(raw json.RawMessage) M {
	var c struct{ Tree []tok }
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	var keep struct{ Tree json.RawMessage }
	json.Unmarshal(raw, &keep)
	res := M{"kind": "build", "tree": keep.Tree, "dump": T{}, "before": []M{}, "after": []M{}, "derr": "", "same": true, "b": T{}}
	doc, err := build(c.Tree)
	if err != nil {
		res["derr"] = "build: " + errText(err)
		return res
	}
	// what cannot be asked for is taken as it was given
	before := merge(treeOf(doc))
	for i, t := range c.Tree {
		if i < len(before) && before[i]["k"] == t.K {
			if t.Ty != "" {
				before[i]["ty"] = t.Ty
			}
			if len(t.Pi) > 0 || len(t.Si) > 0 || t.Ty != "" && t.Ty != "par" {
				before[i]["pi"], before[i]["si"] = t.Pi, t.Si
			}
		}
	}
	res["before"] = before
	plain := merge(treeOf(doc))
	s, err := dump(doc)
	if err != nil {
		res["derr"] = "dump: " + errText(err)
		return res
	}
	res["dump"] = byts([]byte(s))
	again := merge(treeOf(doc))
	res["same"] = reflect.DeepEqual(plain, again)
	// the root on its own is serialized as it is in the document
	for n := doc.FirstChild(); n != nil; n = n.NextSibling() {
		e, ok := n.(*helium.Element)
		if !ok || doc.Encoding() != "utf8" {
			continue
		}
		x, err := e.XMLString()
		var b bytes.Buffer
		if err != nil || e.XML(&b) != nil || b.String() != x || !strings.Contains(s, x) {
			res["derr"] = "dump: Element.XMLString differs"
		}
	}
	return res
}
