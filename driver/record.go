package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"strings"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/sax"
)

// recorder is an event handler that notes every notification and passes it
// on to the tree builder (unless pure is set).
type recorder struct {
	tb   *helium.TreeBuilder
	pure bool
	ev   []M
	doc  func() *helium.Document
	all  bool         // note the notifications without content, too
	hook func() error // asked about every notification
}

func (r *recorder) at() error {
	if r.hook != nil {
		return r.hook()
	}
	return nil
}

func (r *recorder) add(e M) { r.ev = append(r.ev, e) }

func (r *recorder) text(k string, b []byte) {
	r.add(M{"k": k, "t": txt(string(b))})
}

func nslist(ns []sax.Namespace) []interface{} {
	l := []interface{}{}
	for _, n := range ns {
		l = append(l, []T{txt(n.Prefix()), txt(n.URI())})
	}
	return l
}

var typeNames = map[helium.AttributeType]string{
	helium.AttrCDATA: "CDATA", helium.AttrID: "ID", helium.AttrIDRef: "IDREF",
	helium.AttrIDRefs: "IDREFS", helium.AttrEntity: "ENTITY", helium.AttrEntities: "ENTITIES",
	helium.AttrNmtoken: "NMTOKEN", helium.AttrNmtokens: "NMTOKENS",
	helium.AttrEnumeration: "ENUM", helium.AttrNotation: "NOTATION",
}
var defNames = map[helium.AttributeDefault]string{
	helium.AttrDefaultNone: "NONE", helium.AttrDefaultRequired: "REQUIRED",
	helium.AttrDefaultImplied: "IMPLIED", helium.AttrDefaultFixed: "FIXED",
}

func (r *recorder) AttributeDecl(ctx sax.Context, elem string, fullname string, typ int, def int, defaultValue string, tree sax.Enumeration) error {
	en := []interface{}{}
	if l, ok := tree.(helium.Enumeration); ok {
		for _, s := range l {
			en = append(en, txt(s))
		}
	}
	r.add(M{"k": "atd", "e": txt(elem), "n": txt(fullname), "ty": typeNames[helium.AttributeType(typ)],
		"df": defNames[helium.AttributeDefault(def)], "v": txt(defaultValue), "en": en})
	if err := r.at(); err != nil {
		return err
	}
	if r.pure {
		return nil
	}
	return r.tb.AttributeDecl(ctx, elem, fullname, typ, def, defaultValue, tree)
}
func (r *recorder) CDataBlock(ctx sax.Context, value []byte) error {
	r.text("cd", value)
	if err := r.at(); err != nil {
		return err
	}
	if r.pure {
		return nil
	}
	return r.tb.CDataBlock(ctx, value)
}
func (r *recorder) Characters(ctx sax.Context, ch []byte) error {
	r.text("ch", ch)
	if err := r.at(); err != nil {
		return err
	}
	if r.pure {
		return nil
	}
	return r.tb.Characters(ctx, ch)
}
func (r *recorder) IgnorableWhitespace(ctx sax.Context, ch []byte) error {
	k := "ch"
	if strings.Trim(string(ch), " \t\r\n") != "" {
		k = "ignored-nonblank"
	}
	r.text(k, ch)
	if r.all {
		r.ev[len(r.ev)-1]["iw"] = true
	} else if k == "ch" {
		r.ev[len(r.ev)-1]["ig"] = true
	}
	if err := r.at(); err != nil {
		return err
	}
	if r.pure {
		return nil
	}
	return r.tb.IgnorableWhitespace(ctx, ch)
}
func (r *recorder) Comment(ctx sax.Context, value []byte) error {
	r.text("co", value)
	if err := r.at(); err != nil {
		return err
	}
	if r.pure {
		return nil
	}
	return r.tb.Comment(ctx, value)
}
func (r *recorder) ElementDecl(ctx sax.Context, name string, typ int, content sax.ElementContent) error {
	e := M{"k": "eld", "n": txt(name), "ty": typ}
	r.add(e)
	if err := r.at(); err != nil {
		return err
	}
	if r.pure {
		return nil
	}
	return r.tb.ElementDecl(ctx, name, typ, content)
}
func (r *recorder) EndDocument(ctx sax.Context) error {
	r.add(M{"k": "ed"})
	if err := r.at(); err != nil {
		return err
	}
	if r.pure {
		return nil
	}
	return r.tb.EndDocument(ctx)
}
func (r *recorder) EndElementNS(ctx sax.Context, localname string, prefix string, uri string) error {
	r.add(M{"k": "ee", "l": txt(localname), "p": txt(prefix), "u": txt(uri)})
	if err := r.at(); err != nil {
		return err
	}
	if r.pure {
		return nil
	}
	return r.tb.EndElementNS(ctx, localname, prefix, uri)
}
func (r *recorder) EntityDecl(ctx sax.Context, name string, typ int, publicID string, systemID string, content string) error {
	k := "ent"
	par := false
	switch helium.EntityType(typ) {
	case helium.InternalGeneralEntity:
	case helium.InternalParameterEntity:
		par = true
	default:
		k = "ent-other"
	}
	if publicID != "" || systemID != "" {
		k = "ent-external"
	}
	r.add(M{"k": k, "n": txt(name), "par": par, "v": txt(content)})
	if err := r.at(); err != nil {
		return err
	}
	if r.pure {
		return nil
	}
	return r.tb.EntityDecl(ctx, name, typ, publicID, systemID, content)
}
func (r *recorder) Error(ctx sax.Context, message string, args ...interface{}) error {
	return nil
}
func (r *recorder) ExternalSubset(ctx sax.Context, name string, externalID string, systemID string) error {
	if r.all {
		r.add(M{"k": "es"})
	}
	if err := r.at(); err != nil {
		return err
	}
	if r.pure {
		return nil
	}
	return r.tb.ExternalSubset(ctx, name, externalID, systemID)
}
func (r *recorder) GetEntity(ctx sax.Context, name string) (sax.Entity, error) {
	if r.pure {
		return nil, sax.ErrHandlerUnspecified
	}
	return r.tb.GetEntity(ctx, name)
}
func (r *recorder) GetParameterEntity(ctx sax.Context, name string) (sax.Entity, error) {
	if r.pure {
		return nil, sax.ErrHandlerUnspecified
	}
	return r.tb.GetParameterEntity(ctx, name)
}
func (r *recorder) HasExternalSubset(ctx sax.Context) (bool, error) {
	if r.pure {
		return false, sax.ErrHandlerUnspecified
	}
	return r.tb.HasExternalSubset(ctx)
}
func (r *recorder) HasInternalSubset(ctx sax.Context) (bool, error) {
	if r.pure {
		return false, sax.ErrHandlerUnspecified
	}
	return r.tb.HasInternalSubset(ctx)
}
func (r *recorder) InternalSubset(ctx sax.Context, name string, externalID string, systemID string) error {
	k := "is"
	if externalID != "" || systemID != "" {
		k = "is-external"
	}
	r.add(M{"k": k, "n": txt(name)})
	if err := r.at(); err != nil {
		return err
	}
	if r.pure {
		return nil
	}
	return r.tb.InternalSubset(ctx, name, externalID, systemID)
}
func (r *recorder) IsStandalone(ctx sax.Context) (bool, error) {
	if r.pure {
		return false, sax.ErrHandlerUnspecified
	}
	return r.tb.IsStandalone(ctx)
}
func (r *recorder) NotationDecl(ctx sax.Context, name string, publicID string, systemID string) error {
	r.add(M{"k": "notation", "n": txt(name)})
	if err := r.at(); err != nil {
		return err
	}
	if r.pure {
		return nil
	}
	return r.tb.NotationDecl(ctx, name, publicID, systemID)
}
func (r *recorder) ProcessingInstruction(ctx sax.Context, target string, data string) error {
	r.add(M{"k": "pi", "n": txt(target), "t": txt(data)})
	if err := r.at(); err != nil {
		return err
	}
	if r.pure {
		return nil
	}
	return r.tb.ProcessingInstruction(ctx, target, data)
}
func (r *recorder) Reference(ctx sax.Context, name string) error {
	r.add(M{"k": "rf", "n": txt(name)})
	if err := r.at(); err != nil {
		return err
	}
	if r.pure {
		return nil
	}
	return r.tb.Reference(ctx, name)
}
func (r *recorder) ResolveEntity(ctx sax.Context, publicID string, systemID string) (sax.ParseInput, error) {
	if r.pure {
		return nil, sax.ErrHandlerUnspecified
	}
	return r.tb.ResolveEntity(ctx, publicID, systemID)
}
func (r *recorder) SetDocumentLocator(ctx sax.Context, locator sax.DocumentLocator) error {
	if r.all {
		r.add(M{"k": "sl"})
	}
	if err := r.at(); err != nil {
		return err
	}
	if r.pure {
		return nil
	}
	return r.tb.SetDocumentLocator(ctx, locator)
}
func (r *recorder) StartDocument(ctx sax.Context) error {
	r.add(M{"k": "sd"})
	if err := r.at(); err != nil {
		return err
	}
	if r.pure {
		return nil
	}
	return r.tb.StartDocument(ctx)
}
func (r *recorder) StartElementNS(ctx sax.Context, localname string, prefix string, uri string, namespaces []sax.Namespace, attrs []sax.Attribute) error {
	at, df := []interface{}{}, []interface{}{}
	for _, a := range attrs {
		m := M{"p": txt(a.Prefix()), "l": txt(a.LocalName()), "v": txt(a.Value())}
		if a.IsDefault() {
			df = append(df, m)
		} else {
			at = append(at, m)
		}
		want := a.LocalName()
		if a.Prefix() != "" {
			want = a.Prefix() + ":" + want
		}
		if a.Name() != want {
			m["badname"] = txt(a.Name())
		}
	}
	r.add(M{"k": "se", "l": txt(localname), "p": txt(prefix), "u": txt(uri), "ns": nslist(namespaces), "at": at, "df": df})
	if err := r.at(); err != nil {
		return err
	}
	if r.pure {
		return nil
	}
	return r.tb.StartElementNS(ctx, localname, prefix, uri, namespaces, attrs)
}
func (r *recorder) UnparsedEntityDecl(ctx sax.Context, name string, publicID string, systemID string, notationName string) error {
	r.add(M{"k": "unparsed", "n": txt(name)})
	if err := r.at(); err != nil {
		return err
	}
	if r.pure {
		return nil
	}
	return r.tb.UnparsedEntityDecl(ctx, name, publicID, systemID, notationName)
}

// merge joins adjacent text notifications and drops empty ones
func merge(ev []M) []M {
	out := []M{}
	for _, e := range ev {
		k := e["k"]
		if k == "ch" || k == "cd" || k == "tx" {
			t := e["t"].(T)
			if len(t) == 0 {
				continue
			}
			if n := len(out); n > 0 && out[n-1]["k"] == k {
				prev := out[n-1]["t"].(T)
				out[n-1]["t"] = append(prev[:len(prev):len(prev)], t...)
				if e["ig"] == true {
					out[n-1]["ig"] = true
				}
				continue
			}
			ig := e["ig"]
			e = M{"k": k, "t": t}
			if ig == true {
				e["ig"] = true
			}
		}
		out = append(out, e)
	}
	return out
}

func standaloneName(s helium.DocumentStandaloneType) string {
	switch s {
	case helium.StandaloneExplicitYes:
		return "yes"
	case helium.StandaloneExplicitNo:
		return "no"
	case helium.StandaloneImplicitNo, helium.StandaloneNoXMLDecl:
		return ""
	}
	return "invalid"
}

// attrValue is the value of an attribute with references to entities kept
// in place, and literal ampersands written as &#38;
func attrValue(a *helium.Attribute) string {
	var sb strings.Builder
	for c := a.FirstChild(); c != nil; c = c.NextSibling() {
		switch c.Type() {
		case helium.EntityRefNode:
			sb.WriteString("&" + c.Name() + ";")
		default:
			sb.WriteString(strings.Replace(string(c.Content()), "&", "&#38;", -1))
		}
	}
	return sb.String()
}

// treeOf lists the nodes of a tree in document order, following the links of
// the nodes and noting where they disagree.
func treeOf(doc *helium.Document) []M {
	toks := []M{{"k": "doc", "v": txt(doc.Version()), "e": txt(doc.Encoding()), "s": standaloneName(doc.Standalone())}}
	toks = kids(toks, doc)
	if d := doc.IntSubset(); d != nil && d.Parent() != helium.Node(doc) {
		toks = append(toks, M{"k": "broken", "w": "internal subset is not a child of the document"})
	}
	return append(toks, M{"k": "/doc"})
}

func kids(toks []M, n helium.Node) []M {
	var prev helium.Node
	for c := n.FirstChild(); c != nil; c = c.NextSibling() {
		if c.Parent() != n {
			toks = append(toks, M{"k": "broken", "w": "parent"})
		}
		if c.PrevSibling() != prev {
			toks = append(toks, M{"k": "broken", "w": "prev"})
		}
		toks = node(toks, c)
		prev = c
		if len(toks) > 50000000 {
			return append(toks, M{"k": "broken", "w": "cycle"})
		}
	}
	if n.LastChild() != prev {
		toks = append(toks, M{"k": "broken", "w": "last"})
	}
	return toks
}

func node(toks []M, n helium.Node) []M {
	switch c := n.(type) {
	case *helium.Element:
		ns, at := []interface{}{}, []interface{}{}
		for _, x := range c.Namespaces() {
			ns = append(ns, []T{txt(x.Prefix()), txt(x.URI())})
		}
		for _, a := range c.Attributes() {
			at = append(at, M{"n": txt(a.Name()), "v": txt(attrValue(a))})
		}
		toks = append(toks, M{"k": "el", "l": txt(c.LocalName()), "p": txt(c.Prefix()), "u": txt(c.URI()), "ns": ns, "at": at})
		toks = kids(toks, c)
		return append(toks, M{"k": "/el"})
	case *helium.Text:
		return append(toks, M{"k": "tx", "t": txt(string(c.Content()))})
	case *helium.Comment:
		return append(toks, M{"k": "co", "t": txt(string(c.Content()))})
	case *helium.ProcessingInstruction:
		return append(toks, M{"k": "pi", "n": txt(c.Name()), "t": txt(string(c.Content()))})
	case *helium.EntityRef:
		return append(toks, M{"k": "er", "n": txt(c.Name()), "t": txt(string(c.Content()))})
	case *helium.DTD:
		toks = append(toks, M{"k": "dtd", "n": txt(c.Name())})
		toks = kids(toks, c)
		return append(toks, M{"k": "/dtd"})
	case *helium.ElementDecl:
		return append(toks, M{"k": "eld", "tx": declText(c)})
	case *helium.AttributeDecl:
		return append(toks, M{"k": "atd", "tx": declText(c)})
	case *helium.Entity:
		return append(toks, M{"k": "ent", "n": txt(c.Name()), "t": txt(string(c.Content()))})
	}
	return append(toks, M{"k": "unknown", "w": n.Type().String()})
}

// declText is how a declaration is serialized on its own
func declText(n helium.Node) T {
	var b bytes.Buffer
	if err := (&helium.Dumper{}).DumpNode(&b, n); err != nil {
		return txt("error: " + err.Error())
	}
	return txt(strings.TrimSpace(b.String()))
}

func str(t T) string {
	r := make([]rune, len(t))
	for i, c := range t {
		r[i] = rune(c)
	}
	return string(r)
}

func runParse(b []byte, pure bool) (*recorder, *helium.Document, error) {
	r := &recorder{tb: helium.NewTreeBuilder(), pure: pure}
	p := helium.NewParser()
	p.SetSAXHandler(r)
	doc, err := p.Parse(b)
	return r, doc, err
}

// dump serializes a document in every way there is; they must agree
func dump(doc *helium.Document) (string, error) {
	s, err := doc.XMLString()
	if err != nil {
		return "", err
	}
	var b1, b2 bytes.Buffer
	if err := doc.XML(&b1); err != nil {
		return "", errors.New("XML: " + err.Error())
	}
	if err := (&helium.Dumper{}).DumpDoc(&b2, doc); err != nil {
		return "", errors.New("DumpDoc: " + err.Error())
	}
	if b1.String() != s || b2.String() != s {
		return "", errors.New("XMLString, XML and DumpDoc differ")
	}
	return s, nil
}

type parseIn struct {
	ID   int64
	B    []byte // the document
	Want string // letters: t tree, d dump, p pure handler
}

func parseCase(raw json.RawMessage) M {
	var c parseIn
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	return parseOne(c.B, c.Want)
}

func errText(err error) string {
	s := err.Error()
	if len(s) > 200 {
		s = s[:200]
	}
	return s
}

func parseOne(b []byte, want string) M {
	r, doc, err := runParse(b, false)
	res := M{"b": byts(b), "ok": err == nil, "hasdoc": doc != nil, "tree": []M{}, "dump": T{}, "dump2": T{},
		"derr": "", "hasdump": false, "hastree": false, "haspure": false, "pure": []M{}, "pureok": false}
	if err != nil {
		res["err"] = errText(err)
	}
	ev := merge(r.ev)
	ig := []int{}
	for j, e := range ev {
		if e["ig"] == true {
			ig = append(ig, j+1)
			delete(e, "ig")
		}
	}
	res["ev"], res["ig"] = ev, ig
	doc2, err2 := helium.Parse(b)
	res["ok2"] = err2 == nil
	if err2 == nil && strings.Contains(want, "t") {
		res["tree"] = merge(treeOf(doc2))
		res["hastree"] = true
	}
	if err2 == nil && strings.Contains(want, "d") {
		res["hasdump"] = true
		s, err := dump(doc2)
		if err != nil {
			res["derr"] = "dump: " + errText(err)
		} else {
			res["dump"] = byts([]byte(s))
			doc3, err := helium.Parse([]byte(s))
			if err != nil {
				res["derr"] = "reparse: " + errText(err)
			} else if s2, err := dump(doc3); err != nil {
				res["derr"] = "dump again: " + errText(err)
			} else {
				res["dump2"] = byts([]byte(s2))
			}
		}
	}
	if strings.Contains(want, "p") {
		rp, _, err := runParse(b, true)
		res["haspure"] = true
		pure := merge(rp.ev)
		for _, e := range pure {
			delete(e, "ig")
		}
		res["pure"] = pure
		res["pureok"] = err == nil
	}
	return res
}
