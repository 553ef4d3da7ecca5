package main

// Serialization to destinations that fail (property C13).

import (
	"bytes"
	"encoding/json"
	"errors"
	"io"

	"github.com/lestrrat-go/helium"
)

type outIn struct {
	ID   int64
	B    []byte // a document
	Max  int    // runs per target
	Seed int
}

var outModes = []string{"partial", "reject", "short", "late", "once"}

var errDest = errors.New("the destination failed")

// dest is a destination that fails at byte k
type dest struct {
	mode   string
	k      int
	err    error
	got    int
	failed bool
	log    [][]int // interned chunk, bytes accepted
	intern func([]byte) int
}

func (d *dest) Write(p []byte) (int, error) {
	n, err := len(p), error(nil)
	switch {
	case d.mode == "none":
	case d.failed:
		switch d.mode {
		case "once":
		case "short":
			n = 0
		default:
			n, err = 0, d.err
		}
		if len(p) == 0 {
			n, err = 0, nil
		}
	case d.got+len(p) > d.k:
		d.failed = true
		switch d.mode {
		case "partial":
			n, err = d.k-d.got, d.err
		case "short":
			n = d.k - d.got
		case "late":
			err = d.err
		default:
			n, err = 0, d.err
		}
	}
	d.got += n
	d.log = append(d.log, []int{d.intern(p), n})
	return n, err
}

// allNodes lists the nodes of a tree
func allNodes(n helium.Node, l []helium.Node) []helium.Node {
	l = append(l, n)
	if _, ok := n.(*helium.EntityRef); ok {
		return l
	}
	for c := n.FirstChild(); c != nil; c = c.NextSibling() {
		l = allNodes(c, l)
	}
	return l
}

func outputCase(raw json.RawMessage) M {
	var c outIn
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	doc, err := helium.Parse(c.B)
	if err != nil {
		return M{"skip": true}
	}
	targets := []func(io.Writer) error{
		doc.XML,
		func(w io.Writer) error { return (&helium.Dumper{}).DumpDoc(w, doc) },
		func(w io.Writer) error { // the string, for comparison
			s, err := doc.XMLString()
			if err == nil {
				_, err = io.WriteString(w, s)
			}
			return err
		},
	}
	names := []string{"Document.XML", "DumpDoc", "XMLString"}
	same := []int{1, 1, 1}
	rnd := c.Seed
	next := func(n int) int {
		rnd = (rnd*1103515245 + 12345) & 0x7fffffff
		return (rnd >> 8) % n
	}
	nodes := allNodes(doc, nil)[1:]
	for len(nodes) > 10 {
		i := next(len(nodes))
		nodes = append(nodes[:i], nodes[i+1:]...)
	}
	for _, n := range nodes {
		n := n
		targets = append(targets, func(w io.Writer) error { return (&helium.Dumper{}).DumpNode(w, n) })
		names = append(names, "DumpNode of "+n.Type().String())
		same = append(same, len(targets))
		if e, ok := n.(*helium.Element); ok {
			same = append(same, len(targets))
			targets = append(targets, e.XML)
			names = append(names, "Element.XML")
		}
	}
	ids := map[string]int{}
	table := []T{}
	intern := func(p []byte) int {
		k := string(p)
		if ids[k] == 0 {
			table = append(table, byts(p))
			ids[k] = len(table)
		}
		return ids[k]
	}
	fulls := []T{}
	runs := []M{}
	run := func(t int, mode string, k int, e error) {
		d := &dest{mode: mode, k: k, err: e, intern: intern}
		ret := "nil"
		if err := targets[t](d); err != nil {
			ret = "other"
			if d.failed && sameErr(err, e) {
				ret = "fault"
			}
		}
		lg := d.log
		if lg == nil {
			lg = [][]int{}
		}
		runs = append(runs, M{"t": t + 1, "full": same[t], "mode": mode, "k": k, "ret": ret, "log": lg})
	}
	for t := range targets {
		var b bytes.Buffer
		err := targets[t](&b)
		fulls = append(fulls, byts(b.Bytes()))
		if err != nil {
			return M{"refused": errText(err), "w": names[t]}
		}
		if t == 2 {
			run(t, "none", 0, nil)
			continue
		}
		n := b.Len()
		run(t, "none", 0, nil)
		var ks []int
		for k := 0; k < n; k++ {
			ks = append(ks, k)
		}
		max := c.Max
		if t > 1 {
			max = c.Max/8 + 2
		}
		for len(ks) > max {
			i := next(len(ks))
			ks = append(ks[:i], ks[i+1:]...)
		}
		errs := []error{errDest, io.EOF, io.ErrShortWrite, customErr{}}
		for _, k := range ks {
			run(t, outModes[next(len(outModes))], k, errs[next(len(errs))])
		}
		run(t, "none", 0, nil)
	}
	return M{"fulls": fulls, "chunks": table, "runs": runs, "names": names}
}
