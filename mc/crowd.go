package main

import (
	"encoding/binary"
	"fmt"
	"hash/maphash"
	"strconv"
	"strings"
	"unsafe"
)

// Large containers seen as small ones: a container of kind "IntMap/300" holds, besides
// the keys the exploration plays with, 300 entries that stay put, so every check can run
// on it. They lie under root slots the hash pattern does not use. The view leaves them
// out, but checks that All visits each of them once and that they keep their values.

const bgID = 1 << 20 // GK.id of the first such key

// crowdSize splits a kind like "IntMap/300".
func crowdSize(kind string) (base string, n int) {
	if b, s, ok := strings.Cut(kind, "/"); ok {
		if n, err := strconv.Atoi(s); err == nil {
			return b, n
		}
	}
	return kind, 0
}

// crowdKinds are the kinds with n more entries.
func crowdKinds(n int, kinds ...string) (r []string) {
	for _, k := range kinds {
		r = append(r, fmt.Sprintf("%s/%d", k, n))
	}
	return
}

var bgUniverses = map[int]*Universe{}

// bgKeys is the universe of the n entries that stay put; no key of stdKeys is in it.
func bgKeys(n int) *Universe {
	if u := bgUniverses[n]; u != nil {
		return u
	}
	var strs []string
	var ints []int64
	var arrs []AK
	for i := 0; i < n; i++ {
		strs = append(strs, fmt.Sprintf("other%d", i))
		ints = append(ints, int64(uint64(i+1)*0xD1B54A32D192ED03|1))
		var a AK
		binary.LittleEndian.PutUint64(a[12:], uint64(i)*0x9E3779B97F4A7C15)
		a[0] = 'b'
		arrs = append(arrs, a)
	}
	u := makeUniverse(strs, ints, arrs)
	for i := range u.gk.ins {
		u.gk.ins[i].id, u.gk.look[i].id = bgID+i, bgID+i
	}
	u.gk.idx = func(k GK) int { return k.id - bgID }
	bgUniverses[n] = u
	return u
}

// mergeKeys are the n keys of a, followed by those of b.
func mergeKeys[K any](a, b *Keys[K], n int) Keys[K] {
	return Keys[K]{
		mk: func(i int) K {
			if i < n {
				return a.in(i)
			}
			return b.in(i - n)
		},
		mkl: func(i int) K {
			if i < n {
				return a.lk(i)
			}
			return b.lk(i - n)
		},
		idx: func(k K) int {
			if i := a.idx(k); i >= 0 && i < n {
				return i
			}
			if i := b.idx(k); i >= 0 {
				return n + i
			}
			return -1
		},
	}
}

type mergeID struct {
	u *Universe
	n int
}

var merged = map[mergeID]*Universe{}

func mergeUniverse(u *Universe, n int) *Universe {
	id := mergeID{u, n}
	if m := merged[id]; m != nil {
		return m
	}
	b := bgKeys(n)
	for i := 0; i < n; i++ {
		if u.int.idx(b.int.ins[i]) >= 0 || u.str.idx(b.str.ins[i]) >= 0 || u.arr.idx(b.arr.ins[i]) >= 0 {
			panic(harness{"keys are not distinct"})
		}
	}
	m := &Universe{
		n: u.n + n, gk: mergeKeys(&u.gk, &b.gk, u.n), str: mergeKeys(&u.str, &b.str, u.n), gstr: mergeKeys(&u.gstr, &b.gstr, u.n),
		byt: mergeKeys(&u.byt, &b.byt, u.n), gbyt: mergeKeys(&u.gbyt, &b.gbyt, u.n),
		int: mergeKeys(&u.int, &b.int, u.n), gint: mergeKeys(&u.gint, &b.gint, u.n), arr: mergeKeys(&u.arr, &b.arr, u.n),
	}
	if len(merged) > 64 { // universes made for one task each
		clear(merged)
	}
	merged[id] = m
	return m
}

// crowdTable adds hashes for the entries that stay put, under the root slots that p
// leaves free.
func crowdTable(t map[string]uint64, p *Pattern, base string, n int) {
	var used [16]bool
	for _, d := range p.Digits {
		used[d[0]] = true
	}
	var free []uint64
	for s, x := range used {
		if !x {
			free = append(free, uint64(s))
		}
	}
	if len(free) == 0 {
		panic(harness{"the pattern uses all root slots: " + p.Name})
	}
	b := bgKeys(n)
	for i := 0; i < n; i++ {
		e := b.encoding(base, i)
		t[string(e)] = maphash.VerifMix(uint64(n), e)&^15 | free[i%len(free)]
	}
}

// fits are the patterns that leave a root slot free for the other entries of kind.
func fits(kind string, ps []*Pattern) (r []*Pattern) {
	if _, n := crowdSize(kind); n == 0 {
		return ps
	}
	for _, p := range ps {
		var used [16]bool
		free := 16
		for _, d := range p.Digits {
			if !used[d[0]] {
				used[d[0]] = true
				free--
			}
		}
		if free > 0 {
			r = append(r, p)
		}
	}
	return
}

// crowdPeek: also look up one of the other entries at each scan.
var crowdPeek = true

type crowdBox[V any] struct {
	b    Box[V]
	n, m int // keys of the view, other entries
	dep  float64
	set  bool
}

func bgValue[V any](i int) (v V) {
	switch p := any(&v).(type) {
	case *int:
		*p = -1 - i
	case **[5]uint64:
		*p = newVal(uint64(i))
	case *wide:
		*p = wideOf(int64(-1 - i))
	}
	return
}

func bgGood[V any](v *V, i int) bool {
	switch p := any(v).(type) {
	case *int:
		return *p == -1-i
	case **[5]uint64:
		return goodVal(*p, uint64(i))
	case *wide:
		return *p == wideOf(int64(-1-i))
	}
	return true
}

func newCrowd[V any](kind string, u *Universe) Box[V] {
	base, m := crowdSize(kind)
	if m == 0 {
		return nil
	}
	b := newBox[V](base, mergeUniverse(u, m))
	for i := 0; i < m; i++ {
		b.Set(u.n+i, bgValue[V](i))
	}
	return &crowdBox[V]{b, u.n, m, b.Dep() * float64(b.Len()), isSet(kind)}
}

func (t *crowdBox[V]) Set(k int, v V)              { t.b.Set(k, v) }
func (t *crowdBox[V]) Mod(k int, f func(*V, bool)) { t.b.Mod(k, f) }
func (t *crowdBox[V]) Del(k int)                   { t.b.Del(k) }
func (t *crowdBox[V]) Get(k int) (V, bool)         { return t.b.Get(k) }
func (t *crowdBox[V]) Val(k int) V                 { return t.b.Val(k) }
func (t *crowdBox[V]) Ptr(k int) *V                { return t.b.Ptr(k) }
func (t *crowdBox[V]) All(f func(int, *V) bool) {
	seen := make([]uint64, t.m/64+1)
	calls, stopped := 0, false
	t.b.All(func(k int, v *V) bool {
		if stopped {
			failf("All goes on after its callback returned false")
		}
		if k < t.n {
			stopped = !f(k, v)
			return !stopped
		}
		i := k - t.n
		if seen[i/64]>>(i%64)&1 != 0 {
			failf("All visits one of %d other entries twice (number %d)", t.m, i)
		}
		seen[i/64] |= 1 << (i % 64)
		if v != nil && !bgGood(v, i) {
			failf("one of %d other entries changed (number %d)", t.m, i)
		}
		calls++
		return true
	})
	if stopped {
		return
	}
	if calls != t.m {
		failf("All visits %d of %d other entries", calls, t.m)
	}
	if !crowdPeek {
		return
	}
	i := int(t.b.Len()) % t.m
	if v, ok := t.b.Get(t.n + i); !ok || !t.set && !bgGood(&v, i) {
		failf("one of %d other entries is lost or changed (number %d)", t.m, i)
	}
}
func (t *crowdBox[V]) Len() uint {
	n := t.b.Len()
	if n < uint(t.m) {
		failf("Len is %d, but %d other entries are there", n, t.m)
	}
	return n - uint(t.m)
}
func (t *crowdBox[V]) Dep() float64 {
	n := t.b.Len()
	if n == uint(t.m) {
		if d := t.b.Dep(); !sameFloat(d*float64(n), t.dep) {
			return d // wrong
		}
		return 0
	}
	d := (t.b.Dep()*float64(n) - t.dep) / float64(n-uint(t.m))
	// sums of levels are whole numbers
	if s := d * float64(n-uint(t.m)); s-float64(int(s+0.5)) < 1e-6 && float64(int(s+0.5))-s < 1e-6 {
		d = float64(int(s+0.5)) / float64(n-uint(t.m))
	}
	return d
}
func (t *crowdBox[V]) Nil() bool { return t.b.Nil() }
func (t *crowdBox[V]) Copy(how int) Box[V] {
	c := *t
	c.b = t.b.Copy(how)
	return &c
}
func (t *crowdBox[V]) Zero() Box[V]              { return t.b.Zero() }
func (t *crowdBox[V]) Snap(s *snapper) [2]uint64 { return t.b.Snap(s) }
func (t *crowdBox[V]) Word() unsafe.Pointer      { return t.b.Word() }
