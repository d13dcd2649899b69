package main

import (
	"strings"
	"unsafe"
)

// Maps of other value types as maps of ints, so that every check can run on them: the
// int is the first word of the value, and the rest is always one pattern (or zero where
// a new entry must be). Their kinds are named "IntMap/wide" and the like.

type wideVal struct {
	n   int
	pad [202]int
}

type refVal struct {
	n int
	p *int
	s string
	q [3]any
}

var refTarget int

func (v *wideVal) fill() {
	for i := range v.pad {
		v.pad[i] = ^i
	}
}

func (v *wideVal) intact() bool {
	for i := range v.pad {
		if v.pad[i] != ^i {
			return false
		}
	}
	return true
}

func (v *refVal) fill() { v.p, v.s, v.q = &refTarget, "pad", [3]any{"a", &refTarget, nil} }

func (v *refVal) intact() bool {
	return v.p == &refTarget && v.s == "pad" && v.q == [3]any{"a", &refTarget, nil}
}

type typedVal[V any] interface {
	*V
	fill()
	intact() bool
}

type typedBox[V comparable, P typedVal[V]] struct{ b Box[V] }

func (t *typedBox[V, P]) num(p *V, absent bool) *int {
	n := (*int)(unsafe.Pointer(p))
	if p == nil {
		return nil
	}
	if absent {
		if *p != *new(V) {
			failf("the value of an absent key is not the zero value")
		}
	} else if !P(p).intact() {
		failf("a part of the value is not what was stored")
	}
	return n
}

func (t *typedBox[V, P]) mk(n int) (v V) {
	*(*int)(unsafe.Pointer(&v)) = n
	P(&v).fill()
	return
}

func (t *typedBox[V, P]) Set(k int, n int) { t.b.Set(k, t.mk(n)) }
func (t *typedBox[V, P]) Mod(k int, f func(*int, bool)) {
	t.b.Mod(k, func(p *V, ok bool) {
		n := t.num(p, !ok)
		P(p).fill()
		f(n, ok)
	})
}
func (t *typedBox[V, P]) Del(k int) { t.b.Del(k) }
func (t *typedBox[V, P]) Get(k int) (int, bool) {
	v, ok := t.b.Get(k)
	return *t.num(&v, !ok), ok
}
func (t *typedBox[V, P]) Val(k int) int {
	v := t.b.Val(k)
	if v == *new(V) {
		return 0
	}
	return *t.num(&v, false)
}
func (t *typedBox[V, P]) Ptr(k int) *int { return t.num(t.b.Ptr(k), false) }
func (t *typedBox[V, P]) All(f func(int, *int) bool) {
	t.b.All(func(k int, p *V) bool { return f(k, t.num(p, false)) })
}
func (t *typedBox[V, P]) Len() uint                 { return t.b.Len() }
func (t *typedBox[V, P]) Dep() float64              { return t.b.Dep() }
func (t *typedBox[V, P]) Nil() bool                 { return t.b.Nil() }
func (t *typedBox[V, P]) Copy(how int) Box[int]     { return &typedBox[V, P]{t.b.Copy(how)} }
func (t *typedBox[V, P]) Zero() Box[int]            { return &typedBox[V, P]{t.b.Zero()} }
func (t *typedBox[V, P]) Snap(s *snapper) [2]uint64 { return t.b.Snap(s) }
func (t *typedBox[V, P]) Word() unsafe.Pointer      { return t.b.Word() }

// newTyped makes a container of a typed kind, or returns nil.
func newTyped(kind string, u *Universe) Box[int] {
	base, t, ok := strings.Cut(kind, "/")
	switch {
	case !ok:
	case t == "wide":
		return &typedBox[wideVal, *wideVal]{newBox[wideVal](base, u)}
	case t == "refs":
		return &typedBox[refVal, *refVal]{newBox[refVal](base, u)}
	}
	return nil
}

// typedKinds are the main map kinds with other value types.
func typedKinds(types ...string) (r []string) {
	for _, k := range mainMaps {
		for _, t := range types {
			r = append(r, k+"/"+t)
		}
	}
	return
}
