package main

// Histories of parses: one after another, with parsers that are used again,
// inside of handlers, and at the same time in several goroutines (property
// C14).

import (
	"crypto/sha256"
	"encoding/json"
	"errors"
	"fmt"
	"runtime"
	"sync"

	"github.com/lestrrat-go/helium"
)

type isoOp struct {
	K  string  // "parse" or "look" (at the tree of the D-th parse of this thread)
	P  int     // -1: helium.Parse, -2: a parser of its own, 0..: parsers of all, 10..: parsers of this thread
	D  int     // document
	H  string  // "tree", "rec", "pure", "fault"
	N  int     // the notification where it fails, or where the ops of In run
	In []isoOp // parses within the handler
}

type isoIn struct {
	ID      int64
	Docs    [][]byte
	Threads [][]isoOp
}

func digest(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return fmt.Sprintf("%x", sha256.Sum256(b))[:24]
}

type isoThread struct {
	no      int
	iso     *iso
	parsers map[int]*helium.Parser
	docs    []*helium.Document
	trees   []string
}

type iso struct {
	in     *isoIn
	shared []*helium.Parser
	mu     sync.Mutex
	log    []M
}

func (i *iso) note(m M) {
	i.mu.Lock()
	i.log = append(i.log, m)
	i.mu.Unlock()
}

func treeDigest(doc *helium.Document) string {
	s, err := dump(doc)
	e := ""
	if err != nil {
		e = err.Error()
	}
	return digest([]interface{}{treeOf(doc), s, e})
}

func (t *isoThread) parser(n int) *helium.Parser {
	switch {
	case n == -2:
		return helium.NewParser()
	case n < 10:
		return t.iso.shared[n]
	}
	if t.parsers[n] == nil {
		t.parsers[n] = helium.NewParser()
	}
	return t.parsers[n]
}

func (t *isoThread) run(op isoOp) {
	if op.K == "look" {
		if op.D < len(t.docs) && t.docs[op.D] != nil {
			t.iso.note(M{"k": "look", "t": t.no, "i": op.D + 1, "d": treeDigest(t.docs[op.D])})
		}
		return
	}
	t.iso.note(M{"k": "begin", "t": t.no, "doc": op.D + 1, "h": op.H, "n": op.N})
	b := append([]byte(nil), t.iso.in.Docs[op.D]...)
	var doc *helium.Document
	var err error
	ev := []M{}
	if op.H == "tree" {
		if op.P == -1 {
			doc, err = helium.Parse(b)
		} else {
			doc, err = t.parser(op.P).Parse(b)
		}
	} else {
		r := &recorder{tb: helium.NewTreeBuilder(), pure: op.H == "pure", all: true}
		n := 0
		r.hook = func() error {
			n++
			if t.no > 0 {
				runtime.Gosched()
			}
			if n == op.N {
				for _, o := range op.In {
					t.run(o)
				}
				if op.H == "fault" {
					return errors.New("a failure")
				}
			}
			return nil
		}
		p := t.parser(op.P)
		p.SetSAXHandler(r)
		doc, err = p.Parse(b)
		ev = r.ev
	}
	for i := range b {
		b[i] = '#' // the input is the caller's again
	}
	e := ""
	if err != nil {
		e = err.Error()
	}
	tree := ""
	if doc != nil {
		tree = treeDigest(doc)
	}
	t.docs = append(t.docs, doc)
	t.trees = append(t.trees, tree)
	t.iso.note(M{"k": "end", "t": t.no, "d": digest([]interface{}{e, doc != nil, ev, tree}), "tree": tree})
}

func isolateCase(raw json.RawMessage) M {
	var c isoIn
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	i := &iso{in: &c, shared: []*helium.Parser{helium.NewParser(), helium.NewParser()}, log: []M{}}
	var wg sync.WaitGroup
	panics := make([]string, len(c.Threads))
	ts := []*isoThread{}
	for n, ops := range c.Threads {
		t := &isoThread{no: n + 1, iso: i, parsers: map[int]*helium.Parser{}}
		ts = append(ts, t)
		n, ops := n, ops
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					panics[n] = fmt.Sprint(e)
				}
			}()
			for _, o := range ops {
				t.run(o)
			}
		}()
	}
	wg.Wait()
	for _, p := range panics {
		if p != "" {
			return M{"crash": "panic: " + p}
		}
	}
	for _, t := range ts {
		for n := range t.docs {
			t.run(isoOp{K: "look", D: n})
		}
	}
	return M{"log": i.log, "nt": len(c.Threads)}
}
