// The conformance driver of spec/Stack.tla: it runs histories of operations
// on the stacks of internal/stack.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"

	"github.com/lestrrat-go/helium/internal/stack"
	"github.com/lestrrat-go/helium/internal/stack/nsstack"
)

type item struct {
	k string
	v int
}

func (i item) Key() string { return i.k }

// op is [name, key, n]; pushed items are numbered by their place in the
// history
type op struct {
	Name string
	K    string
	N    int
}

func (o *op) UnmarshalJSON(b []byte) error {
	l := []interface{}{&o.Name, &o.K, &o.N}
	return json.Unmarshal(b, &l)
}

type M map[string]interface{}

type stk interface {
	push(o op, v int) error
	pop(n ...int)
	popLast()
	peek(n int) [][]interface{}
	lookup(k string) int
	length() int
}

type simple struct{ s stack.SimpleStack }

func (s *simple) push(o op, v int) error { s.s.Push(item{o.K, v}); return nil }
func (s *simple) pop(n ...int)           { s.s.Pop(n...) }
func (s *simple) popLast()               { s.s.PopLast() }
func (s *simple) length() int            { return s.s.Len() }
func (s *simple) lookup(k string) int    { return -1 }
func (s *simple) peek(n int) [][]interface{} {
	l := [][]interface{}{}
	for _, i := range s.s.Peek(n) {
		x, ok := i.(item)
		if !ok {
			l = append(l, []interface{}{"nothing", 0})
			continue
		}
		l = append(l, []interface{}{x.k, x.v})
	}
	return l
}

type unique struct{ s stack.UniqueStack }

func (s *unique) push(o op, v int) error { return s.s.Push(item{o.K, v}) }
func (s *unique) pop(n ...int)           { s.s.Pop(n...) }
func (s *unique) popLast()               { s.s.PopLast() }
func (s *unique) length() int            { return s.s.Len() }
func (s *unique) lookup(k string) int {
	if i, ok := s.s.Lookup(k).(item); ok {
		return i.v
	}
	return 0
}
func (s *unique) peek(n int) [][]interface{} {
	l := [][]interface{}{}
	for _, i := range s.s.Peek(n) {
		x, ok := i.(item)
		if !ok {
			l = append(l, []interface{}{"nothing", 0})
			continue
		}
		l = append(l, []interface{}{x.k, x.v})
	}
	return l
}

type names struct{ s nsstack.Stack }

func (s *names) push(o op, v int) error { s.s.Push(o.K, fmt.Sprint(v)); return nil }
func (s *names) pop(n ...int)           { s.s.Pop(n...) }
func (s *names) popLast()               { s.s.PopLast() }
func (s *names) length() int            { return s.s.Len() }
func (s *names) lookup(k string) int {
	v := 0
	fmt.Sscan(s.s.Lookup(k), &v)
	return v
}
func (s *names) peek(n int) [][]interface{} {
	l := [][]interface{}{}
	for _, i := range s.s.Peek(n) {
		x, ok := i.(nsstack.Item)
		if !ok {
			l = append(l, []interface{}{"nothing", 0})
			continue
		}
		v := 0
		fmt.Sscan(x.URI(), &v)
		l = append(l, []interface{}{x.Prefix(), v})
	}
	return l
}

func run(kind string, ops []op) (obs []M) {
	var s stk
	switch kind {
	case "simple":
		s = &simple{}
	case "unique":
		s = &unique{}
	default:
		n := &names{s: nsstack.New()}
		s = n
	}
	defer func() {
		if e := recover(); e != nil {
			obs = append(obs, M{"broken": fmt.Sprint("panic: ", e)})
		}
	}()
	for i, o := range ops {
		var err error
		peek := [][]interface{}{}
		switch o.Name {
		case "push":
			err = s.push(o, i+1)
		case "pop":
			s.pop()
		case "popn":
			s.pop(o.N)
		case "poplast":
			s.popLast()
		case "peek":
			peek = s.peek(o.N)
		}
		look := []int{}
		for _, k := range []string{"", "a", "b", "c", "d"} {
			look = append(look, s.lookup(k))
		}
		obs = append(obs, M{"err": err != nil, "len": s.length(), "peek": peek, "all": s.peek(s.length()), "look": look})
	}
	return obs
}

func main() {
	in, err := os.Open(os.Args[1])
	if err != nil {
		panic(err)
	}
	out, err := os.Create(os.Args[2])
	if err != nil {
		panic(err)
	}
	w := bufio.NewWriter(out)
	sc := bufio.NewScanner(in)
	sc.Buffer(nil, 1<<28)
	for sc.Scan() {
		var c struct {
			Kind string
			Ops  []op
		}
		var keep struct{ Ops []json.RawMessage }
		if err := json.Unmarshal(sc.Bytes(), &c); err != nil {
			panic(err)
		}
		json.Unmarshal(sc.Bytes(), &keep)
		obs := run(c.Kind, c.Ops)
		b, err := json.Marshal(M{"kind": c.Kind, "ops": keep.Ops[:len(obs)], "obs": obs})
		if err != nil {
			panic(err)
		}
		w.Write(append(b, '\n'))
	}
	w.Flush()
}
