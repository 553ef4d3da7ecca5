package main

// Runs of a document in which the handler answers one notification with an
// error, and runs with handlers that are left unset (property C12).

import (
	"encoding/json"
	"errors"
	"io"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/sax"
)

type faultRun struct {
	Pure  bool
	Fault int      // the notification that is answered with an error, 0: none
	Err   int      // which error
	Unset []string // handlers left unset
}

type faultIn struct {
	ID   int64
	B    []byte
	Runs []faultRun
}

type customErr struct{ s []string } // not comparable

func (customErr) Error() string { return "a failure of the handler" }

var faultErrs = []error{
	errors.New("failure"),
	io.EOF,
	helium.ErrParseError{Err: errors.New("inner")},
	customErr{},
	helium.ErrEntityNotFound,
	helium.ErrDocumentEnd,
	&customErr{},
}

func unwrapAll(err error) error {
	for {
		if pe, ok := err.(helium.ErrParseError); ok && pe.Err != nil {
			err = pe.Err
			continue
		}
		if u := errors.Unwrap(err); u != nil {
			err = u
			continue
		}
		if c, ok := err.(interface{ Cause() error }); ok && c.Cause() != nil {
			err = c.Cause()
			continue
		}
		return err
	}
}

func sameErr(a, b error) bool {
	a, b = unwrapAll(a), unwrapAll(b)
	if _, ok := b.(customErr); ok {
		_, ok = a.(customErr)
		return ok
	}
	if _, ok := a.(customErr); ok {
		return false
	}
	return a == b
}

func saxOf(r *recorder, unset []string) sax.SAX2Handler {
	s := sax.New()
	s.AttributeDeclHandler = r.AttributeDecl
	s.CDataBlockHandler = r.CDataBlock
	s.CharactersHandler = r.Characters
	s.CommentHandler = r.Comment
	s.ElementDeclHandler = r.ElementDecl
	s.EndDocumentHandler = r.EndDocument
	s.EndElementNSHandler = r.EndElementNS
	s.EntityDeclHandler = r.EntityDecl
	s.ExternalSubsetHandler = r.ExternalSubset
	s.IgnorableWhitespaceHandler = r.IgnorableWhitespace
	s.InternalSubsetHandler = r.InternalSubset
	s.NotationDeclHandler = r.NotationDecl
	s.ProcessingInstructionHandler = r.ProcessingInstruction
	s.ReferenceHandler = r.Reference
	s.SetDocumentLocatorHandler = r.SetDocumentLocator
	s.StartDocumentHandler = r.StartDocument
	s.StartElementNSHandler = r.StartElementNS
	s.UnparsedEntityDeclHandler = r.UnparsedEntityDecl
	for _, k := range unset {
		switch k {
		case "atd":
			s.AttributeDeclHandler = nil
		case "cd":
			s.CDataBlockHandler = nil
		case "ch":
			s.CharactersHandler = nil
		case "co":
			s.CommentHandler = nil
		case "eld":
			s.ElementDeclHandler = nil
		case "ed":
			s.EndDocumentHandler = nil
		case "ee":
			s.EndElementNSHandler = nil
		case "ent":
			s.EntityDeclHandler = nil
		case "es":
			s.ExternalSubsetHandler = nil
		case "iw":
			s.IgnorableWhitespaceHandler = nil
		case "is":
			s.InternalSubsetHandler = nil
		case "notation":
			s.NotationDeclHandler = nil
		case "pi":
			s.ProcessingInstructionHandler = nil
		case "rf":
			s.ReferenceHandler = nil
		case "sl":
			s.SetDocumentLocatorHandler = nil
		case "sd":
			s.StartDocumentHandler = nil
		case "se":
			s.StartElementNSHandler = nil
		case "unparsed":
			s.UnparsedEntityDeclHandler = nil
		}
	}
	return s
}

// the handler a notification went to
func handlerOf(e M) string {
	if e["iw"] == true {
		return "iw"
	}
	switch k := e["k"].(string); k {
	case "ignored-nonblank":
		return "iw"
	case "ent-other", "ent-external":
		return "ent"
	case "is-external":
		return "is"
	default:
		return k
	}
}

func faultCase(raw json.RawMessage) M {
	var c faultIn
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	ids := map[string]int{}
	num := func(e M) int {
		b, _ := json.Marshal(e)
		k := string(b)
		if ids[k] == 0 {
			ids[k] = len(ids) + 1
		}
		return ids[k]
	}
	type outcome struct {
		seen []int
		h    []string
		err  error
		doc  bool
		hit  bool
	}
	run := func(f faultRun) outcome {
		r := &recorder{tb: helium.NewTreeBuilder(), pure: f.Pure, all: true}
		n := 0
		r.hook = func() error {
			n++
			if n == f.Fault {
				return faultErrs[f.Err]
			}
			return nil
		}
		p := helium.NewParser()
		if f.Pure {
			p.SetSAXHandler(saxOf(r, f.Unset))
		} else {
			p.SetSAXHandler(r)
		}
		doc, err := p.Parse(c.B)
		o := outcome{seen: []int{}, h: []string{}, err: err, doc: doc != nil, hit: f.Fault > 0 && n >= f.Fault}
		for _, e := range r.ev {
			o.seen = append(o.seen, num(e))
			o.h = append(o.h, handlerOf(e))
		}
		return o
	}
	base := map[bool]outcome{true: run(faultRun{Pure: true}), false: run(faultRun{})}
	text := func(err error) string {
		if err == nil {
			return ""
		}
		return err.Error()
	}
	bases := []M{}
	for _, p := range []bool{false, true} {
		b := base[p]
		bases = append(bases, M{"n": b.seen, "h": b.h, "ok": b.err == nil, "doc": b.doc, "err": errText2(b.err)})
	}
	runs := []M{}
	for _, f := range c.Runs {
		o := run(f)
		out := "done"
		if o.err != nil {
			out = "other error"
			if o.hit && sameErr(o.err, faultErrs[f.Err]) {
				out = "fault"
			} else if text(o.err) == text(base[f.Pure].err) {
				out = "error"
			}
		}
		b := 1
		if f.Pure {
			b = 2
		}
		un := f.Unset
		if un == nil {
			un = []string{}
		}
		runs = append(runs, M{"b": b, "fault": f.Fault, "unset": un, "seen": o.seen, "out": out, "doc": o.doc})
	}
	return M{"base": bases, "runs": runs}
}

func errText2(err error) string {
	if err == nil {
		return ""
	}
	return errText(err)
}
