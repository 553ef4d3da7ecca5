package main

import (
	"encoding/json"
	"errors"
	"fmt"

	"github.com/lestrrat-go/helium"
)

// op is an operation of spec/Dom.tla: [name, a, b, s, u]
type op struct {
	Name string
	A, B int
	S, U T
}

func (o *op) UnmarshalJSON(b []byte) error {
	l := []interface{}{&o.Name, &o.A, &o.B, &o.S, &o.U}
	return json.Unmarshal(b, &l)
}

type dom struct {
	nodes []helium.Node
	ids   map[helium.Node]int
}

func isNil(n helium.Node) bool {
	if n == nil {
		return true
	}
	switch x := n.(type) {
	case *helium.Element:
		return x == nil
	case *helium.Text:
		return x == nil
	case *helium.Attribute:
		return x == nil
	case *helium.Document:
		return x == nil
	case *helium.EntityRef:
		return x == nil
	case *helium.Entity:
		return x == nil
	}
	return false
}

// learn gives numbers to nodes that came into being: n, what is below it and
// what follows it
func (d *dom) learn(n helium.Node) {
	for ; !isNil(n); n = n.NextSibling() {
		if _, ok := d.ids[n]; ok {
			return
		}
		d.nodes = append(d.nodes, n)
		d.ids[n] = len(d.nodes)
		d.learn(n.FirstChild())
		if len(d.nodes) > 10000 {
			return
		}
	}
}

func (d *dom) learnAll() {
	for i := 0; i < len(d.nodes); i++ {
		n := d.nodes[i]
		d.learn(n.FirstChild())
		if e, ok := n.(*helium.Element); ok {
			a := e.Attributes()
			for _, x := range a {
				d.learn(x)
			}
		}
		d.learn(n.NextSibling())
		d.learn(n.LastChild())
		d.learn(n.PrevSibling())
		d.learn(n.Parent())
	}
}

func (d *dom) id(n helium.Node) int {
	if isNil(n) {
		return 0
	}
	return d.ids[n]
}

func (d *dom) at(i int) helium.Node {
	if i == 0 {
		return nil
	}
	return d.nodes[i-1]
}

func (d *dom) doc(i int) *helium.Document {
	return d.nodes[i-1].(*helium.Document)
}

// a loan is a buffer of the caller's, which is used for something else after
// the call it was passed to
type loan struct{ b []byte }

func lend(s string) loan {
	return loan{append(make([]byte, 0, len(s)+16), s...)}
}

func (l loan) reuse() {
	all := l.b[:cap(l.b)]
	for i := range all {
		all[i] = '~'
	}
}

func (d *dom) apply(o op) (err error) {
	s, u := str(o.S), str(o.U)
	lent := lend(s)
	defer lent.reuse()
	add := func(n helium.Node, e error) error {
		if e == nil {
			d.learn(n)
		}
		return e
	}
	switch o.Name {
	case "doc":
		d.learn(helium.CreateDocument())
	case "el":
		n, e := d.doc(o.A).CreateElement(s)
		return add(n, e)
	case "tx":
		n, e := d.doc(o.A).CreateText(lent.b)
		return add(n, e)
	case "co":
		n, e := d.doc(o.A).CreateComment(lent.b)
		return add(n, e)
	case "pi":
		n, e := d.doc(o.A).CreatePI(s, u)
		return add(n, e)
	case "er":
		n, e := d.doc(o.A).CreateReference(s)
		return add(n, e)
	case "cr":
		n, e := d.doc(o.A).CreateCharRef(s)
		return add(n, e)
	case "at":
		n, e := d.doc(o.A).CreateAttribute(s, u, nil)
		return add(n, e)
	case "child":
		return d.at(o.A).AddChild(d.at(o.B))
	case "sibling":
		return d.at(o.A).AddSibling(d.at(o.B))
	case "replace":
		d.at(o.A).Replace(d.at(o.B))
	case "content":
		return d.at(o.A).AddContent(lent.b)
	case "root":
		return d.doc(o.A).SetDocumentElement(d.at(o.B))
	case "attr":
		return d.at(o.A).(*helium.Element).SetAttribute(s, u)
	case "subset":
		_, e := d.doc(o.A).CreateInternalSubset(s, "", "")
		return e
	case "entity":
		_, e := d.doc(o.A).AddEntity(s, helium.InternalGeneralEntity, "", "", u)
		return e
	case "declare":
		return d.at(o.A).(*helium.Element).SetNamespace(s, u)
	case "use":
		return d.at(o.A).(*helium.Element).SetNamespace(s, u, true)
	case "own":
		d.at(o.A).SetTreeDoc(d.doc(o.B))
	default:
		panic("no such operation: " + o.Name)
	}
	return nil
}

// broken looks for links which a walk must not follow
func (d *dom) broken() string {
	for _, n := range d.nodes {
		seen := 0
		for c := n.FirstChild(); !isNil(c); c = c.NextSibling() {
			if seen++; seen > len(d.nodes)+1 {
				return "endless siblings"
			}
		}
		seen = 0
		for p := n.Parent(); !isNil(p); p = p.Parent() {
			if seen++; seen > len(d.nodes)+1 {
				return "endless parents"
			}
		}
	}
	// is a node below itself
	state := make([]int, len(d.nodes)+1)
	var down func(n helium.Node) bool
	down = func(n helium.Node) bool {
		i := d.ids[n]
		if state[i] == 1 {
			return false
		}
		if state[i] == 2 {
			return true
		}
		state[i] = 1
		if n.Type() != helium.EntityRefNode {
			for c := n.FirstChild(); !isNil(c); c = c.NextSibling() {
				if !down(c) {
					return false
				}
			}
		}
		state[i] = 2
		return true
	}
	for _, n := range d.nodes {
		if !down(n) {
			return "a node is below itself"
		}
	}
	return ""
}

var errStop = errors.New("stop here")

func (d *dom) see() ([]interface{}, string) {
	d.learnAll()
	if w := d.broken(); w != "" {
		return nil, w
	}
	all := []interface{}{}
	for _, n := range d.nodes {
		attrs := []int{}
		ns, defs := []T{}, [][]T{}
		name := T{}
		switch x := n.(type) {
		case *helium.Element:
			for _, a := range x.Attributes() {
				attrs = append(attrs, d.id(a))
			}
			if a := x.Namespace(); a != nil {
				ns = []T{txt(a.Prefix()), txt(a.URI())}
				if a.Prefix() != x.Prefix() || a.URI() != x.URI() {
					return nil, "name space of an element"
				}
			}
			for _, a := range x.Namespaces() {
				defs = append(defs, []T{txt(a.Prefix()), txt(a.URI())})
			}
			name = txt(x.Name())
		case *helium.ProcessingInstruction, *helium.EntityRef, *helium.DTD, *helium.Entity:
			name = txt(n.Name())
		case *helium.Attribute:
			name = txt(n.Name())
			if x.Value() != string(x.Content()) {
				return nil, "value of an attribute"
			}
		}
		walk := []int{}
		if isNil(n.Parent()) {
			if err := helium.Walk(n, func(c helium.Node) error { walk = append(walk, d.id(c)); return nil }); err != nil {
				return nil, "Walk: " + err.Error()
			}
			// a walk stops at the first error
			k, stop := 0, (len(walk)+1)/2
			err := helium.Walk(n, func(c helium.Node) error {
				if k++; k == stop {
					return errStop
				}
				return nil
			})
			if err != errStop || k != stop {
				return nil, fmt.Sprintf("Walk goes on after an error: %d", k-stop)
			}
		}
		owner := 0
		if o := n.OwnerDocument(); o != nil {
			owner = d.id(o)
		}
		all = append(all, []interface{}{d.id(n.Parent()), d.id(n.FirstChild()), d.id(n.LastChild()), d.id(n.NextSibling()),
			d.id(n.PrevSibling()), attrs, txt(string(n.Content())), name, owner, ns, defs, walk})
	}
	return all, ""
}

func (d *dom) obs(err error, look bool) M {
	o := M{"err": err != nil}
	if look {
		n, broken := d.see()
		if broken != "" {
			return M{"broken": broken, "err": err != nil}
		}
		o["n"] = n
	}
	return o
}

// try runs an operation; a panic is its outcome
func (d *dom) try(o op, look bool) (res M) {
	defer func() {
		if e := recover(); e != nil {
			res = M{"broken": fmt.Sprint("panic: ", e), "err": true}
		}
	}()
	err := d.apply(o)
	return d.obs(err, look)
}

func newDom(ops ...[]op) *dom {
	d := &dom{ids: map[helium.Node]int{}}
	for _, l := range ops {
		for _, o := range l {
			d.apply(o)
			d.learnAll()
		}
	}
	return d
}

type domIn struct {
	ID    int64
	Init  []op
	Ops   []op
	More  []op
	Quiet bool // look only after the operations of More
}

func domCase(raw json.RawMessage) M {
	var c domIn
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	var keep struct{ Init, Ops, More []json.RawMessage }
	json.Unmarshal(raw, &keep)
	if keep.Init == nil {
		keep.Init = []json.RawMessage{}
	}
	if keep.Ops == nil {
		keep.Ops = []json.RawMessage{}
	}
	d := newDom(c.Init)
	obs := []M{}
	stopped := false
	for _, o := range c.Ops {
		if stopped {
			break
		}
		r := d.try(o, !c.Quiet)
		obs = append(obs, r)
		_, stopped = r["broken"]
	}
	if stopped {
		keep.Ops = keep.Ops[:len(obs)]
	}
	more := []M{}
	for i, o := range c.More {
		e := newDom(c.Init, c.Ops)
		more = append(more, M{"o": keep.More[i], "obs": e.try(o, true)})
	}
	return M{"init": keep.Init, "ops": keep.Ops, "obs": obs, "more": more}
}
