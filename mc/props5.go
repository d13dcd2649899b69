package main

import (
	"bytes"
	"fmt"
	"hash/maphash"
	"math/bits"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"unsafe"

	"github.com/wdamron/amt"
)

// C18: hash helpers and provided key types.

// helperCheck compares a hash function with its definition for all iteration counts:
// seed and one fixed encoding of the key, repeated iter+1 times.
func (c *Ctx) helperCheck(what string, iters int, f func(seed maphash.Seed, iter uint) uint64, want []byte) (enc []byte) {
	for s := 0; s < 3; s++ {
		maphash.VerifNextSeed = uint64(1 + s*41)
		seed := maphash.MakeSeed()
		num := maphash.VerifSeedNumber(seed)
		if s == 0 {
			enc = nil
			maphash.VerifRecord = func(_ uint64, b []byte) { enc = b }
			f(seed, 0)
			maphash.VerifRecord = nil
			if want != nil && !bytes.Equal(enc, want) {
				failf("%s, iteration 0, hashes the bytes %q, want %q", what, enc, want)
			}
		}
		var data []byte
		for i := 0; i <= iters; i++ {
			data = append(data, enc...)
			h := f(seed, uint(i))
			if w := maphash.VerifMix(num, data); h != w {
				failf("%s, seed %d, iteration %d, is not the hash of the key repeated %d times", what, num, i, i+1)
			}
			if h2 := f(seed, uint(i)); h2 != h {
				failf("%s, seed %d, iteration %d: two calls differ", what, num, i)
			}
			c.res.Transitions++
		}
		c.res.States++
	}
	c.res.Traces++
	return
}

func contractTasks(stage, tier string) (ts []Task) {
	thorough := tier == "thorough"
	iters := pick(thorough, 1100, 600)
	switch stage {
	case "helpers":
		ss := specialStrings(thorough)
		is := specialInts(true)
		run := func(name string, f func(c *Ctx)) {
			ts = append(ts, Task{Name: name, Run: func(c *Ctx) {
				maphash.VerifTables, maphash.VerifLimit = nil, 0
				c.note = name
				if x := catch(func() { f(c) }); x != nil {
					x.Scenario, x.Confirmed = "direct calls of the key type's methods", 1
					c.fail(x)
				}
			}})
		}
		for part := 0; part < 4; part++ {
			run(fmt.Sprintf("bytes/%d", part), func(c *Ctx) {
				for i, s := range ss {
					n := iters
					if len(s) > 300 {
						n = 300
					}
					if i%4 != part || c.late() {
						continue
					}
					buf := append([]byte(s), 1, 2, 3)
					b := buf[:len(s)]
					c.helperCheck(fmt.Sprintf("HashBytes(%.30q)", s), n, func(seed maphash.Seed, i uint) uint64 { return amt.HashBytes(b, seed, i) }, b)
					c.helperCheck(fmt.Sprintf("Bytes(%.30q).Hash", s), n, amt.Bytes(b).Hash, b)
					c.helperCheck(fmt.Sprintf("String(%.30q).Hash", s), n, amt.String(s).Hash, []byte(s))
					if string(buf) != s+"\x01\x02\x03" {
						failf("hashing wrote to the key %.30q or behind it", s)
					}
				}
				if part == 0 { // counts that do not fit in 8 or 16 bits
					for _, n := range pick(thorough, []uint{4095, 65535, 65536, 65537, 131072, 1 << 20}, []uint{4095, 65535, 65536, 65537, 131072}) {
						data := strings.Repeat("key", int(n)+1)
						maphash.VerifNextSeed = 9
						seed := maphash.MakeSeed()
						want := maphash.VerifMix(maphash.VerifSeedNumber(seed), []byte(data))
						for what, h := range map[string]uint64{"HashBytes": amt.HashBytes([]byte("key"), seed, n), "Bytes.Hash": amt.Bytes("key").Hash(seed, n), "String.Hash": amt.String("key").Hash(seed, n)} {
							if h != want {
								failf("%s of \"key\", iteration %d, is not the hash of the key repeated %d times", what, n, n+1)
							}
							c.res.Transitions++
						}
					}
				}
				c.helperCheck("HashBytes(nil)", n0(iters), func(seed maphash.Seed, i uint) uint64 { return amt.HashBytes(nil, seed, i) }, []byte{})
			})
		}
		run("equal", func(c *Ctx) {
			for _, s := range ss {
				for _, t := range ss {
					want := s == t
					if got := amt.String(strings.Clone(s)).Equal(amt.String(t)); got != want {
						failf("String(%.30q).Equal(%.30q) is %v", s, t, got)
					}
					if got := amt.Bytes(s).Equal(amt.Bytes(t)); got != want {
						failf("Bytes(%.30q).Equal(%.30q) is %v", s, t, got)
					}
					c.res.Transitions += 2
				}
			}
			if !amt.Bytes(nil).Equal(amt.Bytes{}) || !(amt.Bytes{}).Equal(nil) || amt.Bytes(nil).Equal(amt.Bytes{0}) {
				failf("Bytes.Equal treats nil and empty slices differently")
			}
			c.res.States += int64(len(ss) * len(ss))
		})
		run("int", func(c *Ctx) {
			if !intIsKey {
				failf("amt.Int is not usable as a key of generic maps and sets: it does not satisfy amt.Key[amt.Int]")
			}
			intContract(c, is, iters)
		})
	case "lockstep":
		lv := pick(thorough, append(rng(0, 18), 30, 31, 32, 33, 48), []int{0, 1, 2, 11, 12, 13, 15, 16, 17, 31, 32, 33})
		for _, pr := range lockPairs {
			ps := append(collect(2, levels40), collect(3, lv)...)
			for i, ch := range chunks(ps, 300) {
				ts = append(ts, Task{Name: fmt.Sprintf("%s/tours/%d", pr[0], i), Run: func(c *Ctx) {
					for _, p := range ch {
						if c.late() {
							return
						}
						c.lockstep(pr[0], pr[1], p, tour(p.n(), codesFor(pr[0], "SMND")))
						c.res.States += 1 << p.n()
					}
					c.sample(c.note)
				}})
			}
			ts = append(ts, Task{Name: pr[0] + "/300", Run: func(c *Ctx) {
				for _, p := range append(collect(2, []int{0, 1, 15, 16, 17, 32}), collect(3, pick(thorough, []int{0, 1, 15, 16, 17}, []int{0, 16}))...) {
					if c.late() {
						return
					}
					c.lockstep(pr[0]+"/300", pr[1]+"/300", p, tour(p.n(), codesFor(pr[0], "SMND")))
					c.res.States += 1 << p.n()
				}
				c.lockstep(pr[0]+"/5000", pr[1]+"/5000", collect(2, []int{16})[0], tour(2, codesFor(pr[0], "SMD")))
			}})
			ps4 := collect(4, pick(thorough, []int{0, 1, 2, 15, 16, 17}, []int{0, 1, 15, 16}))
			for i, ch := range chunks(ps4, 150) {
				ts = append(ts, Task{Name: fmt.Sprintf("%s/tours4/%d", pr[0], i), Run: func(c *Ctx) {
					for _, p := range ch {
						if c.late() {
							return
						}
						c.lockstep(pr[0], pr[1], p, tour(4, codesFor(pr[0], "SMD")))
						c.res.States += 16
					}
				}})
			}
			ts = append(ts, Task{Name: pr[0] + "/walks", Run: func(c *Ctx) {
				for _, p := range []*Pattern{nodePattern(12, 0), nodePattern(12, 1), pairPattern(12, 0, 2), pairPattern(12, 14, 2), chainPattern(12, 10, 1)} {
					if c.late() {
						return
					}
					c.lockstep(pr[0], pr[1], p, cubeOps(euler(12), pick(isSet(pr[0]), "S", "SM")))
					c.res.States += 1 << 12
				}
			}})
			ts = append(ts, Task{Name: pr[0] + "/mix", Run: func(c *Ctx) {
				// no chosen hashes: the well-mixed ones of the stand-in
				n := 48
				var ops []Op
				for r := 0; r < 40; r++ {
					for i := 0; i < n; i++ {
						ops = append(ops, Op{C: "SSDSD"[(i*r+r/3)%5], K: uint8((i*(2*r+1) + r*r) % n)})
					}
				}
				c.lockstep(pr[0], pr[1], nil, ops)
				c.res.States += int64(len(ops))
			}})
		}
	}
	return
}

func n0(iters int) int { return iters / 4 }

var lockPairs = [][2]string{
	{"StringMap", "Map[String]"}, {"BytesMap", "Map[Bytes]"}, {"IntMap", "Map[Int]"},
	{"StringSet", "Set[String]"}, {"BytesSet", "Set[Bytes]"}, {"IntSet", "Set[Int]"},
}

// lockstep runs ops on a specialised container and its generic counterpart with the
// same seed and hash function and compares everything observable after every step.
func (c *Ctx) lockstep(k1, k2 string, p *Pattern, ops []Op) {
	what := "well-mixed hashes"
	if p != nil {
		install(p, k1, stdU, 1) // the generic container has to hash the same bytes
		what = p.String()
	} else {
		maphash.VerifTables = nil
	}
	c.note = fmt.Sprintf("%s and %s, %s", k1, k2, what)
	set := isSet(k1)
	run := func(ops []Op) *Failure {
		c.res.Traces++
		return catch(func() {
			maphash.VerifLimit = 0
			maphash.VerifNextSeed = 1
			a := newBox[int](k1, stdU)
			maphash.VerifNextSeed = 1
			b := newBox[int](k2, stdU)
			for i, op := range ops {
				k, v := int(op.K), i+1
				maphash.VerifSums, maphash.VerifLimit = 0, 20000
				switch op.C {
				case 'S':
					a.Set(k, v)
					b.Set(k, v)
				case 'M', 'N':
					var ra, rb [2]int
					rec := func(r *[2]int) func(*int, bool) {
						return func(q *int, ok bool) {
							r[0] = *q
							if ok {
								r[1]++
							}
							if op.C == 'M' {
								*q = v
							}
						}
					}
					a.Mod(k, rec(&ra))
					b.Mod(k, rec(&rb))
					if ra != rb {
						failf("step %d: Mod callbacks of %s and %s get different arguments: %v, %v", i+1, k1, k2, ra, rb)
					}
				case 'D':
					a.Del(k)
					b.Del(k)
				}
				c.res.Transitions++
				if x, y := a.Len(), b.Len(); x != y {
					failf("step %d: Len differs: %s %d, %s %d", i+1, k1, x, k2, y)
				}
				if x, y := a.Dep(), b.Dep(); !sameFloat(x, y) {
					failf("step %d: Dep differs: %s %v, %s %v", i+1, k1, x, k2, y)
				}
				type ent struct{ k, v int }
				var ea, eb []ent
				add := func(l *[]ent) func(int, *int) bool {
					return func(k int, p *int) bool {
						e := ent{k: k}
						if p != nil {
							e.v = *p
						}
						*l = append(*l, e)
						return true
					}
				}
				a.All(add(&ea))
				b.All(add(&eb))
				if !reflect.DeepEqual(ea, eb) {
					failf("step %d: All differs: %s %v, %s %v", i+1, k1, ea, k2, eb)
				}
				lo, hi := 0, stdU.n
				if p != nil {
					hi = p.n()
				}
				if hi > 8 {
					lo, hi = k, k+1
				}
				for k := lo; k < hi; k++ {
					x, ok := a.Get(k)
					y, ok2 := b.Get(k)
					if x != y || ok != ok2 {
						failf("step %d: Get(k%d) differs: %s %d, %v, %s %d, %v", i+1, k, k1, x, ok, k2, y, ok2)
					}
					if set {
						continue
					}
					if x, y := a.Val(k), b.Val(k); x != y {
						failf("step %d: Val(k%d) differs: %s %d, %s %d", i+1, k, k1, x, k2, y)
					}
					if x, y := a.Ptr(k), b.Ptr(k); (x == nil) != (y == nil) || x != nil && *x != *y {
						failf("step %d: Ptr(k%d) differs", i+1, k)
					}
				}
			}
		})
	}
	if f := run(ops); f != nil {
		ops = append([]Op(nil), ops...)
		for size := (len(ops) + 1) / 2; size > 0; size /= 2 {
			for i := 0; i+size <= len(ops) && len(ops) > 1; {
				t := append(append([]Op(nil), ops[:i]...), ops[i+size:]...)
				if g := run(t); g != nil {
					ops, f = t, g
				} else {
					i += size
				}
			}
		}
		for i := 0; i < 3; i++ {
			if run(ops) != nil {
				f.Confirmed++
			}
		}
		q := p
		if q == nil {
			q = &Pattern{Name: "(well-mixed)"}
		}
		f.Scenario = (&Runner{kind: k1 + " and " + k2, p: q}).describe(ops)
		c.fail(f)
	}
}

// C19: value types.

type pairVal struct {
	a bool
	b int64
	c uint16
}

type valueType interface {
	tasks(stage string, thorough bool) []Task
}

// vt is a value type with a way to make distinguishable values and to compare them.
type vt[V any] struct {
	name string
	mk   func(i int) V
	eq   func(a, b V) bool
}

func cmpVT[V comparable](name string, mk func(int) V) vt[V] {
	return vt[V]{name, mk, func(a, b V) bool { return a == b }}
}

type errVal int

func (e errVal) Error() string { return fmt.Sprint(int(e)) }

func reflectEq[V any](a, b V) bool { return reflect.DeepEqual(a, b) }

func valueTasks(stage, tier string) (ts []Task) {
	vs := valueTypes()
	if stage == "gc" {
		vs = heapTypes()
	}
	for _, v := range vs {
		ts = append(ts, v.tasks(stage, tier == "thorough")...)
	}
	return
}

// ht is a value type whose values refer to the heap; good tells whether v is intact.
type ht[V any] struct {
	name string
	mk   func(i int) V
	good func(v V, i int) bool
}

// tasks run histories with a collection after every operation. Only the container
// refers to the values, and freed memory is overwritten.
func (t ht[V]) tasks(_ string, thorough bool) (ts []Task) {
	ps := []*Pattern{nodePattern(3, 0), nodePattern(3, 1), pairPattern(4, 0, 1), chainPattern(3, 15, 1)}
	if thorough {
		ps = append(ps, nodePattern(5, 0), nodePattern(5, 2), pairPattern(4, 15, 2), chainPattern(4, 0, 1), chainPattern(4, 12, 2))
	}
	for _, kind := range cat(mainMaps, provMaps) {
		ts = append(ts, Task{Name: kind + "/gc/" + t.name, Run: func(c *Ctx) {
			for _, p := range ps {
				install(p, kind, stdU, 1)
				c.note = fmt.Sprintf("%s with values of type %s, a collection after every operation, %s", kind, t.name, p)
				maphash.VerifNextSeed = 1
				b := newBox[V](kind, stdU)
				ops := tour(p.n(), "SMD")
				if f := catch(func() { t.history(c, b, p, ops) }); f != nil {
					f.Confirmed = 1
					if catch(func() {
						maphash.VerifNextSeed = 1
						t.history(c, newBox[V](kind, stdU), p, ops)
					}) != nil {
						f.Confirmed++
					}
					f.Scenario = c.note
					c.fail(f)
				}
				if c.late() {
					return
				}
			}
			c.sample(c.note)
		}})
	}
	return
}

func (t ht[V]) history(c *Ctx, b Box[V], p *Pattern, ops []Op) {
	c.res.Traces++
	made := make([]int, p.n()) // step that made the value, 0 if absent
	for i, op := range ops {
		k := int(op.K)
		maphash.VerifSums, maphash.VerifLimit = 0, 20000
		t.apply(b, op.C, k, i+1)
		if made[k] = i + 1; op.C == 'D' {
			made[k] = 0
		}
		runtime.GC()
		c.res.Points++
		c.res.Transitions++
		for k, m := range made {
			v, ok := b.Get(k)
			if ok != (m != 0) || ok && !t.good(v, m) {
				failf("step %d (%c of k%d) and a collection: Get(k%d) gives a damaged value or the wrong presence (present: %v, told %v)", i+1, op.C, op.K, k, m != 0, ok)
			}
		}
		b.All(func(k int, q *V) bool {
			if k < 0 || made[k] == 0 || !t.good(*q, made[k]) {
				failf("step %d (%c of k%d) and a collection: All passes a damaged key or value (k%d)", i+1, op.C, op.K, k)
			}
			return true
		})
	}
	c.res.States += 1 << p.n()
}

//go:noinline
func (t ht[V]) apply(b Box[V], code byte, k, i int) {
	switch code {
	case 'S':
		b.Set(k, t.mk(i))
	case 'M':
		b.Mod(k, func(q *V, _ bool) { *q = t.mk(i) })
	case 'D':
		b.Del(k)
	}
}

func (t vt[V]) tasks(stage string, thorough bool) (ts []Task) {
	big := unsafe.Sizeof(*new(V)) > 2000
	for _, kind := range cat(mainMaps, provMaps) {
		var ps []*Pattern
		switch stage {
		case "tours":
			ps = collect(2, pick(thorough, levels40, []int{0, 1, 2, 5, 12, 15, 16, 17, 31, 32}))
			if !big {
				ps = append(ps, collect(3, pick(thorough, []int{0, 1, 2, 3, 12, 15, 16, 17}, []int{0, 1, 15, 16}))...)
			}
		case "level":
			ps = []*Pattern{nodePattern(7, 0), nodePattern(7, 1), pairPattern(6, 0, 1), chainPattern(6, 12, 1)}
			if big {
				ps = ps[:1]
			}
			if thorough {
				ps = append(ps, nodePattern(9, 3), pairPattern(8, 15, 1))
			}
		}
		ts = append(ts, Task{Name: kind + "/" + t.name, Run: func(c *Ctx) {
			for _, p := range ps {
				if c.late() {
					return
				}
				ops := tour(min(p.n(), 5), "SMNDwV")
				if stage == "level" {
					ops = cubeOps(euler(p.n()), "SM")
				}
				c.res.States += 1 << p.n()
				t.history(c, kind, p, ops)
			}
			c.sample(c.note)
		}})
	}
	return
}

// history runs ops (w: write through Ptr, V: Set of the zero value).
func (t vt[V]) history(c *Ctx, kind string, p *Pattern, ops []Op) {
	install(p, kind, stdU, 1)
	c.note = fmt.Sprintf("%s with values of type %s, %s", kind, t.name, p)
	size := unsafe.Sizeof(*new(V))
	run := func(ops []Op) *Failure {
		c.res.Traces++
		return catch(func() {
			maphash.VerifNextSeed = 1
			maphash.VerifLimit = 0
			var zero V
			b := newBox[V](kind, stdU)
			n := p.n()
			vals, has := make([]V, n), make([]bool, n)
			for i, op := range ops {
				k := int(op.K)
				v := t.mk(i + 1)
				maphash.VerifSums, maphash.VerifLimit = 0, 20000
				switch op.C {
				case 'S', 'V':
					if op.C == 'V' {
						v = zero
					}
					b.Set(k, v)
					vals[k], has[k] = v, true
				case 'M', 'N':
					calls := 0
					b.Mod(k, func(q *V, ok bool) {
						calls++
						if ok != has[k] || !t.eq(*q, vals[k]) {
							failf("step %d: Mod(k%d) callback sees a wrong value (present: %v, told %v)", i+1, k, has[k], ok)
						}
						if op.C == 'M' {
							*q = v
						}
					})
					if calls != 1 {
						failf("step %d: Mod(k%d) called its callback %d times", i+1, k, calls)
					}
					if op.C == 'M' {
						vals[k] = v
					}
					has[k] = true
				case 'D':
					b.Del(k)
					vals[k], has[k] = zero, false
				case 'w':
					if q := b.Ptr(k); q != nil && has[k] {
						*q = v
						vals[k] = v
					}
				}
				c.res.Transitions++
				type span struct{ lo, hi uintptr }
				var spans []span
				cnt := 0
				for k := 0; k < n; k++ {
					v, ok := b.Get(k)
					if ok != has[k] || !t.eq(v, vals[k]) {
						failf("step %d: Get(k%d) gives a wrong value or presence (present: %v, told %v)", i+1, k, has[k], ok)
					}
					if !t.eq(b.Val(k), vals[k]) {
						failf("step %d: Val(k%d) gives a wrong value (present: %v)", i+1, k, has[k])
					}
					q := b.Ptr(k)
					if (q != nil) != has[k] || q != nil && !t.eq(*q, vals[k]) {
						failf("step %d: Ptr(k%d) gives a wrong value or presence (present: %v)", i+1, k, has[k])
					}
					if has[k] {
						cnt++
					}
					if q != nil && size > 0 {
						a := uintptr(unsafe.Pointer(q))
						if a%unsafe.Alignof(*q) != 0 {
							failf("step %d: the value of k%d is misaligned", i+1, k)
						}
						for _, s := range spans {
							if a < s.hi && s.lo < a+size {
								failf("step %d: the value of k%d overlaps that of another key", i+1, k)
							}
						}
						spans = append(spans, span{a, a + size})
					}
				}
				visits := 0
				b.All(func(k int, q *V) bool {
					visits++
					if k < 0 || k >= n || !has[k] || q == nil || !t.eq(*q, vals[k]) {
						failf("step %d: All passes a wrong key or value (k%d)", i+1, k)
					}
					if size > 0 && q != b.Ptr(k) {
						failf("step %d: All passes a pointer for k%d that is not its value's", i+1, k)
					}
					return true
				})
				if visits != cnt {
					failf("step %d: All visits %d of %d entries", i+1, visits, cnt)
				}
			}
		})
	}
	if f := run(ops); f != nil {
		ops = append([]Op(nil), ops...)
		for i := 0; i < len(ops) && len(ops) > 1; {
			tr := append(append([]Op(nil), ops[:i]...), ops[i+1:]...)
			if g := run(tr); g != nil {
				ops, f = tr, g
			} else {
				i++
			}
		}
		for i := 0; i < 3; i++ {
			if run(ops) != nil {
				f.Confirmed++
			}
		}
		f.Scenario = "values of type " + t.name + "\n" + (&Runner{kind: kind, p: p}).describe(ops)
		c.fail(f)
	}
}

// C20: what is hashed and compared.

// hashing checks the calls of key methods (or, for containers with keys that have
// none, the sequences hashed) of one history.
func (c *Ctx) hashing(kind string, p *Pattern, ops []Op) {
	install(p, kind, stdU, 1, 2, 3)
	c.note = kind + ", key method calls, " + p.String()
	generic := strings.Contains(kind, "GK")
	crowdPeek = false
	defer func() { crowdPeek = true }()
	n := p.n()
	// what a hashed byte sequence stands for
	type hk struct{ k, iter int }
	seqs := map[string]hk{}
	for k := 0; k < n; k++ {
		var data []byte
		for i := 0; i < p.rounds()+2; i++ {
			data = append(data, stdU.encoding(kind, k)...)
			seqs[string(data)] = hk{k, i}
		}
	}
	run := func(ops []Op) *Failure {
		c.res.Traces++
		defer func() { gkRecord, gkCalls, maphash.VerifRecord = false, nil, nil }()
		return catch(func() {
			maphash.VerifNextSeed = 1
			maphash.VerifLimit = 0
			b := newBox[int](kind, stdU)
			drawn := maphash.VerifNextSeed
			if drawn == 1 {
				failf("the constructor draws no seed")
			}
			seed := uint64(0)
			var mask uint64
			var calls []GKCall
			record := func(what string, own int, f func()) {
				calls = calls[:0]
				gkCalls = gkCalls[:0]
				maphash.VerifSums, maphash.VerifLimit = 0, 20000
				if generic {
					gkRecord = true
				} else {
					maphash.VerifRecord = func(s uint64, data []byte) {
						x, ok := seqs[string(data)]
						if !ok {
							x = hk{-1, 0}
						}
						calls = append(calls, GKCall{Key: x.k, Iter: uint(x.iter), Seed: s})
					}
				}
				f()
				gkRecord, maphash.VerifRecord = false, nil
				if generic {
					calls = append(calls, gkCalls...)
				}
				if maphash.VerifNextSeed != drawn {
					failf("%s draws a new seed", what)
				}
				c.res.Points += int64(len(calls))
				first := true
				other, cmp := -1, -1
				for _, x := range calls {
					if own < 0 {
						failf("%s hashes or compares keys", what)
					}
					if x.Equal {
						if x.Key != own && x.Oth != own {
							failf("%s compares k%d with k%d, neither of which is its key", what, x.Key, x.Oth)
						}
						st := x.Oth
						if x.Key != own {
							st = x.Key
						}
						if mask>>st&1 == 0 {
							failf("%s compares its key with k%d, which is not present", what, st)
						}
						if cmp >= 0 && cmp != st {
							failf("%s compares its key with two stored keys, k%d and k%d", what, cmp, st)
						}
						cmp = st
						continue
					}
					if seed == 0 {
						seed = x.Seed
					}
					if x.Seed != seed {
						failf("%s hashes with seed %d, the container used seed %d before", what, x.Seed, seed)
					}
					if x.Seed >= drawn {
						failf("%s hashes with a seed the constructor did not draw", what)
					}
					if x.Key < 0 {
						failf("%s hashes bytes that are not a key repeated", what)
					}
					if x.Key == own {
						if first && x.Iter != 0 {
							failf("%s hashes its key with iteration %d first", what, x.Iter)
						}
						first = false
						ok := x.Iter == 0
						for j := 0; j < n; j++ {
							ok = ok || j != own && mask>>j&1 != 0 && p.common(own, j) >= 16*int(x.Iter)
						}
						if !ok {
							failf("%s hashes its key with iteration %d, although no other present key shares its first %d digits", what, x.Iter, 16*x.Iter)
						}
						continue
					}
					if other >= 0 && other != x.Key {
						failf("%s hashes two other keys, k%d and k%d", what, other, x.Key)
					}
					other = x.Key
					if mask>>other&1 == 0 {
						failf("%s hashes k%d, which is not present", what, other)
					}
					if d := p.common(own, other); d == 0 || d < 16*int(x.Iter) {
						failf("%s hashes k%d with iteration %d, although the keys' hashes differ at digit %d", what, other, x.Iter, d)
					}
				}
			}
			for i, op := range ops {
				k := int(op.K)
				what := fmt.Sprintf("step %d, %s,", i+1, op)
				record(what, k, func() {
					switch op.C {
					case 'S':
						b.Set(k, i)
					case 'M':
						b.Mod(k, func(q *int, _ bool) { *q = i })
					case 'D':
						b.Del(k)
					case 'b':
						b.Get(k)
					case 'v':
						if !isSet(kind) {
							b.Val(k)
							return
						}
						b.Get(k)
					case 'p':
						if !isSet(kind) {
							b.Ptr(k)
							return
						}
						b.Get(k)
					}
				})
				switch op.C {
				case 'S', 'M':
					mask |= 1 << k
				case 'D':
					mask &^= 1 << k
				}
				record(fmt.Sprintf("after step %d, one of Len, Dep, Nil and All", i+1), -1, func() {
					b.Len()
					b.Dep()
					b.Nil()
					b.All(func(int, *int) bool { return true })
				})
				c.res.Transitions++
			}
		})
	}
	if f := run(ops); f != nil {
		ops = append([]Op(nil), ops...)
		for i := 0; i < len(ops) && len(ops) > 1; {
			t := append(append([]Op(nil), ops[:i]...), ops[i+1:]...)
			if g := run(t); g != nil {
				ops, f = t, g
			} else {
				i++
			}
		}
		for i := 0; i < 3; i++ {
			if run(ops) != nil {
				f.Confirmed++
			}
		}
		f.Scenario = (&Runner{kind: kind, p: p}).describe(ops)
		c.fail(f)
	}
}

func hashingTasks(stage, tier string) (ts []Task) {
	thorough := tier == "thorough"
	kinds := cat([]string{"Map[GK]", "Set[GK]"}, mainMaps[:4], mainSets[:4], provMaps, provSets)
	switch stage {
	case "calls3":
		ps := append(collect(2, pick(thorough, rng(0, 100), rng(0, 50))), collect(3, pick(thorough, levels40, []int{0, 1, 2, 7, 14, 15, 16, 17, 31, 32, 33, 40}))...)
		for _, k := range kinds {
			for i, ch := range chunks(ps, 250) {
				ts = append(ts, Task{Name: fmt.Sprintf("%s/%d", k, i), Run: func(c *Ctx) {
					for _, p := range ch {
						if c.late() {
							return
						}
						codes := "SMDbvp"
						if isSet(k) {
							codes = "SDb"
						}
						c.hashing(k, p, tour(p.n(), codes))
						c.res.States += 1 << p.n()
					}
					c.sample(c.note)
				}})
			}
		}
	case "calls4":
		ps := collect(4, pick(thorough, []int{0, 1, 2, 14, 15, 16, 17, 18, 31, 32, 33}, []int{0, 1, 15, 16, 17, 32}))
		for _, k := range kinds[:pick(thorough, len(kinds), 10)] {
			for i, ch := range chunks(ps, 250) {
				ts = append(ts, Task{Name: fmt.Sprintf("%s/%d", k, i), Run: func(c *Ctx) {
					for _, p := range ch {
						if c.late() {
							return
						}
						codes := "SMDb"
						if isSet(k) {
							codes = "SDb"
						}
						c.hashing(k, p, tour(p.n(), codes))
						c.res.States += 1 << p.n()
					}
				}})
			}
		}
	case "hashes":
		for _, k := range kinds {
			for i, ch := range chunks(hashPatterns(thorough), 2000) {
				ts = append(ts, Task{Name: fmt.Sprintf("%s/hashes/%d", k, i), Run: func(c *Ctx) {
					for j, p := range ch {
						if c.late() {
							return
						}
						if thorough || j%3 == 0 {
							c.hashing(k, p, tour(p.n(), pick(isSet(k), "SDb", "SMDb")))
							c.res.States += 1 << p.n()
						}
					}
				}})
			}
		}
	case "large":
		ps := append(collect(2, pick(thorough, levels40, []int{0, 1, 2, 15, 16, 17, 32})), collect(3, pick(thorough, []int{0, 1, 2, 15, 16, 17}, []int{0, 1, 16}))...)
		for _, k := range kinds {
			ts = append(ts, Task{Name: k + "/300", Run: func(c *Ctx) {
				for _, p := range ps {
					if c.late() {
						return
					}
					c.hashing(k+"/300", p, tour(p.n(), pick(isSet(k), "SDb", "SMDb")))
					c.res.States += 1 << p.n()
				}
				c.hashing(k+"/5000", collect(2, []int{16})[0], tour(2, pick(isSet(k), "SDb", "SMDb")))
			}})
		}
	case "level":
		ps := []*Pattern{nodePattern(10, 0), nodePattern(10, 1), nodePattern(10, 16), pairPattern(10, 0, 1), pairPattern(10, 14, 2), pairPattern(10, 15, 2), chainPattern(10, 0, 2), chainPattern(10, 12, 1), chainPattern(10, 1, 16)}
		for _, k := range kinds {
			ts = append(ts, Task{Name: k, Run: func(c *Ctx) {
				for _, p := range ps {
					if c.late() {
						return
					}
					c.hashing(k, p, cubeOps(euler(10), pick(isSet(k), "S", "SM")))
					c.res.States += 1 << p.n()
				}
			}})
			for i, ch := range chunks(branchPatterns(thorough), 24) {
				ts = append(ts, Task{Name: fmt.Sprintf("%s/branch/%d", k, i), Run: func(c *Ctx) {
					for _, p := range ch {
						if c.late() {
							return
						}
						o := branchTour(pick(isSet(k), "S", "SM"))(p)
						c.hashing(k, p, o)
						c.res.States += contentsOf(o)
					}
				}})
			}
		}
	case "seeds":
		// containers made in every order of two kinds, with others made in between
		ts = append(ts, Task{Name: "pairs", Run: func(c *Ctx) {
			all := cat(mainMaps, mainSets, provMaps, provSets)
			for _, k1 := range all {
				for _, k2 := range all {
					for _, start := range []uint64{1, 7, 1 << 40} {
						c.note = k1 + " and " + k2
						c.seedsDiffer(k1, k2, start)
					}
				}
			}
			c.sample("seeds of all pairs of kinds")
		}})
		ts = append(ts, Task{Name: "many", Run: func(c *Ctx) {
			all := cat(mainMaps, mainSets, provMaps, provSets)
			n := pick(thorough, 20000, 3000)
			for _, k := range all {
				c.manySeeds([]string{k}, n)
			}
			c.manySeeds(all, n)
			c.sample(fmt.Sprintf("seeds of %d containers per kind", n))
		}})
	}
	return
}

// manySeeds makes n containers of the kinds in turn and watches their seeds.
func (c *Ctx) manySeeds(kinds []string, n int) {
	c.note = fmt.Sprintf("%d containers, %s", n, strings.Join(kinds, ", "))
	maphash.VerifTables, maphash.VerifLimit = nil, 0
	for _, k := range kinds {
		stdU.encoding(k, 0)
	}
	maphash.VerifNextSeed = 1
	f := catch(func() {
		defer func() { maphash.VerifRecord = nil }()
		owner := map[uint64]int{}
		bs := make([]Box[int], n)
		for i := range bs {
			bs[i] = newBox[int](kinds[i%len(kinds)], stdU)
		}
		for round := 0; round < 2; round++ {
			for i, b := range bs {
				maphash.VerifRecord = func(s uint64, _ []byte) {
					if j, ok := owner[s]; ok && j != i {
						failf("containers number %d and %d (%s, %s) use the same seed", j, i, kinds[j%len(kinds)], kinds[i%len(kinds)])
					} else if !ok && round > 0 {
						failf("container number %d (%s) changes its seed", i, kinds[i%len(kinds)])
					}
					owner[s] = i
				}
				b.Set(1, 1)
				b.Get(2)
				c.res.Transitions += 2
			}
		}
	})
	c.res.States += int64(n)
	c.res.Traces++
	if f != nil {
		f.Scenario, f.Confirmed = c.note, 1
		c.fail(f)
	}
}

// seedsDiffer makes containers of two kinds and watches the seeds they hash with.
func (c *Ctx) seedsDiffer(k1, k2 string, start uint64) {
	maphash.VerifTables, maphash.VerifLimit = nil, 0
	stdU.encoding(k1, 0)
	stdU.encoding(k2, 0)
	f := catch(func() {
		defer func() { maphash.VerifRecord = nil }()
		maphash.VerifNextSeed = start
		var bs []Box[int]
		for i := 0; i < 3; i++ {
			bs = append(bs, newBox[int](k1, stdU), newBox[int](k2, stdU))
		}
		used := make([]map[uint64]bool, len(bs))
		for i := range bs {
			used[i] = map[uint64]bool{}
		}
		for round := 0; round < 4; round++ {
			for i, b := range bs {
				maphash.VerifRecord = func(s uint64, _ []byte) { used[i][s] = true }
				switch round {
				case 0:
					b.Set(1, 1)
					b.Set(2, 1)
				case 1:
					b.Get(1)
					b.Del(1)
				case 2:
					b.Del(2) // now empty
					b.Set(3, 1)
				case 3:
					maphash.VerifRecord = nil // making the copy hashes keys of another container
					cp := b.Copy(2)
					maphash.VerifRecord = func(s uint64, _ []byte) { used[i][s] = true }
					cp.Set(4, 1)
					cp.Get(3)
				}
				maphash.VerifRecord = nil
				c.res.Transitions++
			}
		}
		owner := map[uint64]int{}
		for i, u := range used {
			for s := range u {
				if j, ok := owner[s]; ok && j != i {
					failf("containers %d and %d (%s, %s, ...) use the same seed %d", j, i, k1, k2, s)
				}
				owner[s] = i
			}
			if len(u) != 1 {
				failf("container %d (%s, %s, ...) uses %d seeds", i, k1, k2, len(u))
			}
		}
		c.res.States += int64(len(bs))
	})
	c.res.Traces++
	if f != nil {
		f.Scenario, f.Confirmed = fmt.Sprintf("three containers each of %s and %s, made in turn; two keys added, looked up, deleted", k1, k2), 1
		c.fail(f)
	}
}

// Scale: long histories with well-mixed hashes, past 65536 entries.

var bigU *Universe

func bigKeys(n int) *Universe {
	if bigU == nil || bigU.n != n {
		bigU = stdKeys(n)
	}
	return bigU
}

// scaleTask fills a container to n keys, deletes and overwrites, and empties it.
func scaleTask(kind string, n int, orc Oracle) Task {
	return Task{Name: kind + "/scale", Run: func(c *Ctx) {
		u := bigKeys(n)
		deep := installDeep(kind, u)
		set := isSet(kind)
		c.note = fmt.Sprintf("%s with up to %d keys, well-mixed hashes but for %d keys that share long prefixes", kind, n, len(deep))
		f := catch(func() {
			maphash.VerifNextSeed = 1
			b := newBox[int](kind, u)
			vals := make([]int, n)
			ptrs := make([]*int, n)
			type old struct{ p *int }
			var stale []old
			cnt := 0
			step := 0
			hash := make([][3]uint64, n) // digits, first level in the top bits; of well-mixed keys the first 16
			for k := range hash {
				if r, ok := deep[k]; ok {
					hash[k] = [3]uint64{nibbles(r[0]), nibbles(r[1]), nibbles(r[2])}
				} else {
					hash[k][0] = nibbles(maphash.VerifMix(1, encodeOne(kind, u, k)))
				}
			}
			common := func(a, b [3]uint64) (d int) {
				for i := range a {
					if d = 16*i + bits.LeadingZeros64(a[i]^b[i])/4; a[i] != b[i] {
						break
					}
				}
				return
			}
			look := func(k int) {
				v, ok := b.Get(k)
				if ok != (vals[k] != 0) || !set && v != vals[k] {
					failf("after %d steps, with %d entries, Get(k%d) is %d, %v, want %d", step, cnt, k, v, ok, vals[k])
				}
				if orc&oPtr != 0 && !set {
					if p := b.Ptr(k); p != ptrs[k] || p != nil && *p != vals[k] {
						failf("after %d steps, with %d entries, Ptr(k%d) is not the pointer it was, or does not lead to the value", step, cnt, k)
					}
				}
			}
			var sn *snapper
			if orc&oFoot != 0 {
				sn = &snapper{known: u.knownCached()}
			}
			op := func(code byte, k int) {
				step++
				maphash.VerifSums, maphash.VerifLimit = 0, 20000
				var modp *int
				var order []int
				if orc&oSame != 0 && code == 'D' && step%4001 < 2 {
					order = scaleOrder(b)
				}
				switch code {
				case 'S':
					b.Set(k, step)
				case 'M':
					b.Mod(k, func(p *int, ok bool) {
						modp = p
						if ok != (vals[k] != 0) || *p != vals[k] {
							failf("after %d steps, with %d entries, Mod(k%d) callback gets %d, %v, want %d", step, cnt, k, *p, ok, vals[k])
						}
						*p = step
					})
					if modp == nil {
						failf("after %d steps, with %d entries, Mod(k%d) did not call its callback", step, cnt, k)
					}
					if orc&(oMod|oPtr) != 0 && (b.Ptr(k) != modp || ptrs[k] != nil && ptrs[k] != modp) {
						failf("after %d steps, with %d entries, Mod(k%d) passed a pointer that is not the value's", step, cnt, k)
					}
				case 'D':
					b.Del(k)
				}
				if orc&oPtr != 0 && !set {
					if code == 'D' && ptrs[k] != nil {
						if stale = append(stale, old{ptrs[k]}); len(stale) > 100 {
							stale = stale[1:]
						}
						*ptrs[k] = -1 // must affect nothing
						ptrs[k] = nil
					} else if code != 'D' && ptrs[k] == nil {
						ptrs[k] = b.Ptr(k)
						for _, o := range stale {
							if o.p == ptrs[k] {
								failf("after %d steps, the value of a new entry (k%d) is where that of a deleted one was", step, k)
							}
						}
					}
				}
				if order != nil {
					i := 0
					for _, j := range scaleOrder(b) {
						for i < len(order) && order[i] == k {
							i++
						}
						if i >= len(order) || order[i] != j {
							failf("after %d steps, with %d entries, Del(k%d) changed the iteration order of other entries (position %d)", step, cnt, k, i)
						}
						i++
					}
				}
				if code == 'D' {
					if vals[k] != 0 {
						cnt--
					}
					vals[k] = 0
				} else {
					if vals[k] == 0 {
						cnt++
					}
					vals[k] = step
				}
				c.res.Transitions++
				c.res.States++
				if orc&oLen != 0 {
					if got := b.Len(); got != uint(cnt) {
						failf("after %d steps, Len is %d with %d entries", step, got, cnt)
					}
				}
				if orc&oLook != 0 {
					look(k)
					look((k*31 + step*7) % n)
				}
			}
			full := func() {
				maphash.VerifSums, maphash.VerifLimit = 0, 0
				if orc&oFoot != 0 {
					size := func(b Box[int]) int { b.Snap(sn); return sn.footprint() }
					o := newBox[int](kind, u)
					root := size(o)
					o.Set(0, 1)
					entry := size(o) - root
					if got, want := size(b), root+cnt*entry+scaleLinks(hash, vals); got > want {
						failf("with %d entries, the container keeps %d bytes alive; %d would do", cnt, got, want)
					}
				}
				if orc&(oLook|oPtr) != 0 {
					for k := range vals {
						look(k)
					}
				}
				var order []int
				if orc&(oAll|oDep|oOrder) != 0 {
					seen := make([]bool, n)
					b.All(func(k int, v *int) bool {
						if k < 0 || seen[k] || vals[k] == 0 || !set && *v != vals[k] {
							failf("with %d entries, All passes a wrong or repeated entry (k%d)", cnt, k)
						}
						seen[k] = true
						order = append(order, k)
						return true
					})
					if len(order) != cnt {
						failf("All visits %d of %d entries", len(order), cnt)
					}
				}
				if orc&oStop != 0 {
					for _, stop := range []int{1, 2, 3, 16, 17, 255, 256, 257, 4096, 65535, 65536, 65537, cnt - 1, cnt} {
						if stop < 1 || stop > cnt {
							continue
						}
						i := 0
						b.All(func(k int, v *int) bool {
							if i++; i > stop || order[i-1] != k {
								failf("with %d entries, All to be stopped after %d calls makes call %d for k%d; the order was different, or it was stopped", cnt, stop, i, k)
							}
							if !set {
								*v++
							}
							return i < stop
						})
						if i != stop {
							failf("with %d entries, All makes %d calls instead of %d", cnt, i, stop)
						}
						if set {
							continue
						}
						for _, k := range order[:stop] {
							if v, ok := b.Get(k); !ok || v != vals[k]+1 {
								failf("with %d entries, a write to k%d through the pointer passed by All is lost", cnt, k)
							}
							*b.Ptr(k)--
						}
					}
				}
				if orc&oDep != 0 {
					want := 0.0
					if cnt > 0 {
						s := append([]int(nil), order...)
						sort.Slice(s, func(i, j int) bool {
							a, b := &hash[s[i]], &hash[s[j]]
							for r := range a {
								if a[r] != b[r] {
									return a[r] < b[r]
								}
							}
							return false
						})
						sum := 0
						for i := range s {
							d := 0
							if i > 0 {
								d = common(hash[s[i]], hash[s[i-1]])
							}
							if i+1 < len(s) {
								d = max(d, common(hash[s[i]], hash[s[i+1]]))
							}
							sum += d
						}
						want = float64(sum) / float64(cnt)
					}
					if got := b.Dep(); !sameFloat(got, want) {
						failf("with %d entries, Dep is %v, the mean level is %v", cnt, got, want)
					}
				}
				if orc&oOrder != 0 {
					// the same contents by another history: ascending insertion
					maphash.VerifNextSeed = 1
					o := newBox[int](kind, u)
					for k := range vals {
						if vals[k] != 0 {
							o.Set(k, 1)
						}
					}
					i := 0
					o.All(func(k int, _ *int) bool {
						if i >= len(order) || order[i] != k {
							failf("with %d entries, the iteration order depends on the history (position %d)", cnt, i)
						}
						i++
						return true
					})
					if o.Dep() != b.Dep() {
						failf("with %d entries, Dep depends on the history", cnt)
					}
				}
				c.res.Traces++
			}
			perm := func(i, mul int) int { return int(uint64(i) * uint64(mul) % uint64(n)) }
			ins := pick(set, "S", "SM")
			for i := 0; i < n; i++ {
				op(ins[i%len(ins)], perm(n-1-i, 7919))
				if i == 255 || i == 256 || i == 65535 || i == 65536 || i == n/2 {
					full()
				}
				if i&0xfff == 0 && c.late() {
					return
				}
			}
			full()
			for i := 0; i < n; i += 3 {
				op('D', perm(i, 104729))
				if i%2 == 0 {
					op(ins[i%len(ins)], perm(i, 15485863))
				}
			}
			full()
			for i := 0; i < n; i++ {
				op('D', perm(i, 32452843))
				if i == n-100 || i == n/2 {
					full()
				}
			}
			full()
		})
		if f != nil {
			f.Scenario, f.Confirmed = c.note+": insertion in a scattered order, deletions and re-insertions, deletion of everything", 1
			c.fail(f)
		}
		c.sample(c.note)
	}}
}

func scaleOrder(b Box[int]) (r []int) {
	r = make([]int, 0, b.Len())
	b.All(func(k int, _ *int) bool { r = append(r, k); return true })
	return
}

// scaleLinks is the memory the arrays of links need for the keys that have a value.
func scaleLinks(hash [][3]uint64, vals []int) int {
	var ks []int
	for k, v := range vals {
		if v != 0 {
			ks = append(ks, k)
		}
	}
	digit := func(k, level int) uint64 { return hash[k][level/16] >> (60 - 4*(level%16)) & 15 }
	sort.Slice(ks, func(i, j int) bool {
		a, b := &hash[ks[i]], &hash[ks[j]]
		for r := range a {
			if a[r] != b[r] {
				return a[r] < b[r]
			}
		}
		return false
	})
	links := 0
	var walk func(ks []int, level int)
	walk = func(ks []int, level int) {
		slots := 0
		for i := 0; i < len(ks); {
			j := i
			for j < len(ks) && digit(ks[j], level) == digit(ks[i], level) {
				j++
			}
			if j-i > 1 {
				walk(ks[i:j], level+1)
			}
			slots++
			i = j
		}
		if level > 0 {
			links += (slots + 3) / 4 * 64
		}
	}
	walk(ks, 0)
	return links
}

// installDeep fixes the hashes of 32 keys spread over the universe: 16 that share ten
// digits and fill the next level, 12 that leave a common path one by one between
// levels 4 and 15, and 4 whose first hashes coincide (of three the second ones, too).
// All other keys are left well-mixed.
func installDeep(kind string, u *Universe) map[int][3]uint64 {
	rows := map[int][3]uint64{}
	key := func(i int) int { return int((uint64(i)*40503 + 12345) % uint64(u.n)) }
	for i := 0; i < 16; i++ {
		rows[key(i)] = [3]uint64{0x3c5a99a5c3 | uint64(i)<<40}
	}
	const path = 0x7e6d5c4b3a291807
	for i := 0; i < 12; i++ {
		rows[key(16+i)] = [3]uint64{path ^ 1<<(4*(4+i))}
	}
	for i := 0; i < 4; i++ {
		r := [3]uint64{0x1122334455667788, 0x99, uint64(i+1) * 0x11}
		if i == 3 {
			r[1] = 0x4099
		}
		rows[key(28+i)] = r
	}
	table := map[string]uint64{}
	for k, r := range rows {
		e := u.encoding(kind, k)
		var data []byte
		for _, h := range r {
			data = append(data, e...)
			table[string(data)] = h
		}
	}
	maphash.VerifTables, maphash.VerifLimit = []map[string]uint64{nil, table, table}, 0
	return rows
}

// nibbles reverses the order of the 16 digits of h.
func nibbles(h uint64) (r uint64) {
	for i := 0; i < 16; i++ {
		r = r<<4 | h>>(4*i)&15
	}
	return
}

// encodeOne is encoding for large universes.
func encodeOne(kind string, u *Universe, k int) (got []byte) {
	return u.encoding(kind, k)
}

func scaleTasks(tier string, kinds []string, orc Oracle) (ts []Task) {
	n := pick(tier == "thorough", 300007, 70001)
	if orc&oFoot != 0 {
		n = pick(tier == "thorough", 70001, 20011)
	}
	for _, k := range kinds {
		ts = append(ts, scaleTask(k, n, orc))
	}
	return
}
