package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/lestrrat-go/helium"
)

// decls is a document and its document types, as in spec/Decls.tla
type decls struct {
	doc   *helium.Document
	dtds  []*helium.DTD
	nodes []helium.Node
	ids   map[helium.Node]int
	names [][]T // local name, prefix
	elems []T
}

func (d *decls) learn(n helium.Node) {
	if _, ok := d.ids[n]; !ok {
		d.nodes = append(d.nodes, n)
		d.ids[n] = len(d.nodes)
	}
}

func (d *decls) apply(o op) error {
	s, u := str(o.S), str(o.U)
	dtd := func() *helium.DTD { return d.dtds[o.A-1] }
	switch o.Name {
	case "subset":
		x, err := d.doc.CreateInternalSubset(s, "", "")
		if err != nil {
			return err
		}
		if x != d.doc.IntSubset() {
			return fmt.Errorf("not the internal subset")
		}
		d.dtds = append(d.dtds, x)
	case "dtd":
		x, err := d.doc.CreateDTD()
		if err != nil {
			return err
		}
		d.dtds = append(d.dtds, x)
	case "el":
		var c *helium.ElementContent
		var err error
		switch u {
		case "":
		case "#PCDATA":
			c, err = d.doc.CreateElementContent("", helium.ElementContentPCDATA)
		default:
			c, err = d.doc.CreateElementContent(u, helium.ElementContentElement)
		}
		if err != nil {
			return err
		}
		n, err := dtd().AddElementDecl(s, helium.ElementTypeVal(o.B), c)
		if err != nil {
			return err
		}
		d.learn(n)
	case "rm":
		dtd().RemoveElement(s, u)
	case "en":
		p, q := "", ""
		t := helium.EntityType(o.B)
		if t == helium.ExternalGeneralParsedEntity || t == helium.ExternalGeneralUnparsedEntity || t == helium.ExternalParameterEntity {
			p, q = "pub", "sys"
		}
		var n *helium.Entity
		var err error
		if o.A == 0 {
			n, err = d.doc.AddEntity(s, t, p, q, u)
		} else {
			n, err = dtd().AddEntity(s, t, p, q, u)
		}
		if err != nil {
			return err
		}
		d.learn(n)
	case "reg":
		if o.B <= len(d.nodes) {
			if n, ok := d.nodes[o.B-1].(*helium.AttributeDecl); ok {
				return dtd().RegisterAttribute(n)
			}
		}
	default:
		panic("no such operation: " + o.Name)
	}
	return nil
}

func (d *decls) see() (M, string) {
	wrong := ""
	id := func(n helium.Node, ok bool) int {
		if !ok {
			return 0
		}
		i := d.ids[n]
		if i == 0 {
			wrong = "what is found was not declared"
		}
		return i
	}
	kids := [][]int{}
	for _, x := range d.dtds {
		k := []int{}
		for n := x.FirstChild(); n != nil && len(k) <= len(d.nodes); n = n.NextSibling() {
			switch n.(type) {
			case *helium.ElementDecl, *helium.AttributeDecl, *helium.Entity:
				d.learn(n)
				k = append(k, d.ids[n])
			}
		}
		kids = append(kids, k)
	}
	nodes := []T{}
	for _, n := range d.nodes {
		nodes = append(nodes, declText(n))
	}
	found := [][]int{}
	for _, q := range d.names {
		l, p := str(q[0]), str(q[1])
		f := l
		if p != "" {
			f = p + ":" + l
		}
		r := []int{}
		for _, x := range d.dtds {
			e, ok := x.LookupElement(l, p)
			r = append(r, id(e, ok))
			e, ok = x.GetElementDesc(f)
			r = append(r, id(e, ok))
			g, ok := x.LookupEntity(f)
			r = append(r, id(g, ok))
			g, ok = x.LookupParameterEntity(f)
			r = append(r, id(g, ok))
			for _, e := range d.elems {
				a, ok := x.LookupAttribute(l, p, str(e))
				r = append(r, id(a, ok))
			}
		}
		g, ok := d.doc.GetEntity(f)
		r = append(r, id(g, ok))
		// what a reference refers to
		ref, err := d.doc.CreateReference(f)
		if err != nil {
			wrong = "CreateReference: " + err.Error()
			break
		}
		c := ref.FirstChild()
		r = append(r, id(c, !isNil(c)))
		g, ok = d.doc.GetParameterEntity(f)
		r = append(r, id(g, ok))
		mixed, err := d.doc.IsMixedElement(f)
		switch {
		case err != nil:
			r = append(r, 0)
		case mixed:
			r = append(r, 1)
		default:
			r = append(r, 2)
		}
		found = append(found, r)
	}
	return M{"nodes": nodes, "kids": kids, "found": found}, wrong
}

func (d *decls) obs(err error, look bool) M {
	if !look {
		return M{"err": err != nil}
	}
	o, wrong := d.see()
	o["err"] = err != nil
	if wrong != "" {
		o["broken"] = wrong
	}
	return o
}

// try runs an operation; a panic is its outcome
func (d *decls) try(o op, look bool) (res M) {
	defer func() {
		if e := recover(); e != nil {
			res = M{"broken": fmt.Sprint("panic: ", e), "err": true}
		}
	}()
	return d.obs(d.apply(o), look)
}

type declsIn struct {
	ID    int64
	B     []byte
	Names [][]T
	Elems []T
	Ops   []op
	More  []op
	Quiet bool
}

func newDecls(c declsIn, ops []op) (*decls, error) {
	d := &decls{doc: helium.CreateDocument(), ids: map[helium.Node]int{}, names: c.Names, elems: c.Elems}
	if len(c.B) > 0 {
		doc, err := helium.NewParser().Parse(c.B)
		if err != nil {
			return d, err
		}
		d.doc = doc
		if x := doc.IntSubset(); x != nil {
			d.dtds = append(d.dtds, x)
		}
		d.see()
	}
	for _, o := range ops {
		d.apply(o)
	}
	return d, nil
}

func declsCase(raw json.RawMessage) M {
	var c declsIn
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	var keep struct {
		Names, Elems json.RawMessage
		Ops, More    []json.RawMessage
	}
	json.Unmarshal(raw, &keep)
	if keep.Ops == nil {
		keep.Ops = []json.RawMessage{}
	}
	d, err := newDecls(c, nil)
	if err != nil && strings.Contains(err.Error(), "panic") {
		panic(err)
	}
	obs := []M{d.obs(err, err == nil)}
	for _, o := range c.Ops {
		if _, stop := obs[len(obs)-1]["broken"]; stop {
			break
		}
		obs = append(obs, d.try(o, !c.Quiet))
	}
	keep.Ops = keep.Ops[:len(obs)-1]
	more := []M{}
	for i, o := range c.More {
		e, _ := newDecls(c, c.Ops)
		more = append(more, M{"o": keep.More[i], "obs": e.try(o, true)})
	}
	return M{"b": byts(c.B), "names": keep.Names, "elems": keep.Elems, "ops": keep.Ops, "obs": obs, "more": more}
}
