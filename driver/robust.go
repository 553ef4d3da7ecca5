package main

// Sessions with arbitrary input: parse, and serialize what was returned
// (property C03). What is recorded is whether each step ended, how, and what
// it took.

import (
	"encoding/json"
	"runtime"
	"strings"
	"sync/atomic"
	"time"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/sax"
)

type robustIn struct {
	ID    int64
	B     []byte
	Head  string // a long input: Head + Unit * N + Mid + Tail * N + End
	Unit  string
	N     int
	Mid   string
	Tail  string
	End   string
	Class string
}

// nothing is a handler which does nothing but count what it is given
type nothing struct {
	recorder
	size    int64
	lookups bool
}

// with entities looked up, its own declarations are found again
func (n *nothing) StartDocument(ctx sax.Context) error {
	if n.lookups {
		return n.tb.StartDocument(ctx)
	}
	return nil
}
func (n *nothing) InternalSubset(ctx sax.Context, name string, e string, s string) error {
	if n.lookups {
		return n.tb.InternalSubset(ctx, name, e, s)
	}
	return nil
}
func (n *nothing) GetEntity(ctx sax.Context, name string) (sax.Entity, error) {
	if n.lookups {
		return n.tb.GetEntity(ctx, name)
	}
	return nil, sax.ErrHandlerUnspecified
}
func (n *nothing) GetParameterEntity(ctx sax.Context, name string) (sax.Entity, error) {
	if n.lookups {
		return n.tb.GetParameterEntity(ctx, name)
	}
	return nil, sax.ErrHandlerUnspecified
}

func (n *nothing) Characters(ctx sax.Context, b []byte) error { n.size += int64(len(b)); return nil }
func (n *nothing) CDataBlock(ctx sax.Context, b []byte) error { n.size += int64(len(b)); return nil }
func (n *nothing) IgnorableWhitespace(ctx sax.Context, b []byte) error {
	n.size += int64(len(b))
	return nil
}
func (n *nothing) Comment(ctx sax.Context, b []byte) error { n.size += int64(len(b)); return nil }
func (n *nothing) ProcessingInstruction(ctx sax.Context, t, d string) error {
	n.size += int64(len(t) + len(d))
	return nil
}
func (n *nothing) StartElementNS(ctx sax.Context, l, p, u string, ns []sax.Namespace, at []sax.Attribute) error {
	n.size += int64(len(l))
	for _, a := range at {
		if a.IsDefault() {
			continue
		}
		n.size += int64(len(a.Value()))
	}
	return nil
}
func (n *nothing) EndElementNS(ctx sax.Context, l, p, u string) error { return nil }
func (n *nothing) Reference(ctx sax.Context, name string) error {
	n.size += int64(len(name))
	return nil
}
func (n *nothing) AttributeDecl(ctx sax.Context, elem string, fullname string, typ int, def int, defaultValue string, tree sax.Enumeration) error {
	n.size += int64(len(defaultValue))
	return nil
}
func (n *nothing) ElementDecl(ctx sax.Context, name string, typ int, content sax.ElementContent) error {
	return nil
}
func (n *nothing) EntityDecl(ctx sax.Context, name string, typ int, publicID string, systemID string, content string) error {
	n.size += int64(len(content))
	if n.lookups {
		return n.tb.EntityDecl(ctx, name, typ, publicID, systemID, content)
	}
	return nil
}

type counter struct{ n int64 }

func (c *counter) Write(p []byte) (int, error) { c.n += int64(len(p)); return len(p), nil }

func robustCase(raw json.RawMessage) M {
	var c robustIn
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	b := c.B
	if c.N > 0 {
		b = []byte(c.Head + strings.Repeat(c.Unit, c.N) + c.Mid + strings.Repeat(c.Tail, c.N) + c.End)
	}
	steps := []M{}
	step := func(k string, fn func() (string, int64)) {
		var ms runtime.MemStats
		if runtime.ReadMemStats(&ms); ms.HeapAlloc > 100<<20 {
			runtime.GC() // what earlier steps left behind does not count
		}
		atomic.StoreUint64(&peakHeap, 0)
		t := time.Now()
		out, size := fn()
		d := time.Since(t)
		steps = append(steps, M{"k": k, "out": out, "ms": int(d / time.Millisecond), "mb": int(atomic.LoadUint64(&peakHeap) >> 20), "size": int(size >> 10)})
	}
	var doc *helium.Document
	step("parse", func() (string, int64) {
		d, err := helium.Parse(b)
		doc = d
		switch {
		case err != nil && d != nil:
			return "both", 0
		case err != nil:
			_ = err.Error()
			return "error", 0
		case d == nil:
			return "neither", 0
		}
		return "document", 0
	})
	for _, k := range []string{"events", "lookups"} {
		k := k
		step(k, func() (string, int64) {
			n := &nothing{lookups: k == "lookups"}
			n.pure = true
			n.tb = helium.NewTreeBuilder()
			p := helium.NewParser()
			p.SetSAXHandler(n)
			_, err := p.Parse(b)
			if err != nil {
				return "error", n.size
			}
			return "document", n.size
		})
	}
	if doc != nil {
		step("serialize", func() (string, int64) {
			var w counter
			if err := doc.XML(&w); err != nil {
				return "error", w.n
			}
			return "text", w.n
		})
		for n := doc.FirstChild(); n != nil; n = n.NextSibling() {
			e, ok := n.(*helium.Element)
			if !ok {
				continue
			}
			step("serialize", func() (string, int64) {
				var w counter
				if err := e.XML(&w); err != nil {
					return "error", w.n
				}
				return "text", w.n
			})
		}
	}
	if c.Class == "" {
		c.Class = "any"
	}
	return M{"n": len(b), "steps": steps, "class": c.Class}
}
