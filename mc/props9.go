package main

import (
	"fmt"
	"hash/maphash"
	"runtime"
	"strings"
	"unsafe"
	"weak"

	"github.com/wdamron/amt"
)

// C25: nothing but the contents is retained, and all of it goes with the container.

type holder = [64]byte

// retained lists, after ops, what the container must not keep (gone) and what it stores
// (kept): keys and values.
type retained struct {
	b          Box[*holder]
	ops        []Op
	gone, kept []ref
}

// retUniverse makes keys to insert and to look up in memory of their own.
type retUniverse struct {
	*relUniverse
	looked []weak.Pointer[holder]
}

func newRetUniverse(n int) *retUniverse {
	u := &retUniverse{relUniverse: newRelUniverse(n)}
	mk := func(i int) []byte {
		b := new(holder)
		copy(b[:], u.str.look[i])
		u.looked = append(u.looked, weak.Make(b))
		return b[:len(u.str.look[i])]
	}
	str := func(i int) string {
		b := mk(i)
		return unsafe.String(&b[0], len(b))
	}
	u.byt.mkl = mk
	u.gbyt.mkl = func(i int) amt.Bytes { return mk(i) }
	u.str.mkl = str
	u.gstr.mkl = func(i int) amt.String { return amt.String(str(i)) }
	u.gk.mkl = func(i int) GK { return GK{id: i, note: str(i)} }
	return u
}

func newHolder(k int, ws ...*weak.Pointer[holder]) *holder {
	v := new(holder)
	v[0] = byte(k)
	for _, w := range ws {
		*w = weak.Make(v)
	}
	return v
}

// retHistory runs ops. Codes: S, M, D; b: lookups; a: All; P, e: Mod and All whose
// callback panics. Every callback refers to memory of its own.
//
//go:noinline
func retHistory(c *Ctx, kind string, u *retUniverse, ops []Op) (r retained) {
	maphash.VerifNextSeed = 1
	maphash.VerifLimit = 0
	b := newBox[*holder](kind, u.Universe)
	set := isSet(kind)
	keyed := hasKeyMemory(kind)
	var zero weak.Pointer[holder]
	keys := make([]weak.Pointer[holder], u.n)
	vals := make([]weak.Pointer[holder], u.n)
	present := make([]bool, u.n)
	drop := func(w weak.Pointer[holder], what string, args ...any) {
		if w != zero {
			r.gone = append(r.gone, ref{w, fmt.Sprintf(what, args...)})
		}
	}
	for i, op := range ops {
		k := int(op.K)
		u.looked = u.looked[:0]
		var cbMem weak.Pointer[holder]
		switch op.C {
		case 'S', 'M':
			var w weak.Pointer[holder]
			if op.C == 'S' {
				b.Set(k, newHolder(k, &w))
			} else {
				cb := newHolder(k, &cbMem)
				b.Mod(k, func(p **holder, _ bool) {
					*p = newHolder(int(cb[0]), &w)
				})
			}
			if !set {
				drop(vals[k], "the value of k%d replaced in step %d", k, i+1)
				vals[k] = w
			}
			if present[k] {
				if keyed {
					drop(u.last[k], "the key passed in step %d although k%d was present", i+1, k)
				}
			} else if keyed {
				keys[k] = u.last[k]
			}
			present[k] = true
		case 'P':
			cb := newHolder(k, &cbMem)
			func() {
				defer func() { recover() }()
				b.Mod(k, func(p **holder, _ bool) {
					if cb[0] == byte(k) {
						panic(cb)
					}
				})
			}()
			if keyed {
				drop(u.last[k], "the key passed in step %d to a Mod that panicked", i+1)
			}
		case 'D':
			b.Del(k)
			drop(keys[k], "the key k%d deleted in step %d", k, i+1)
			drop(vals[k], "the value of k%d deleted in step %d", k, i+1)
			keys[k], vals[k], present[k] = zero, zero, false
		case 'b':
			b.Get(k)
			if !set {
				b.Val(k)
				b.Ptr(k)
			}
		case 'a', 'e':
			cb := newHolder(k, &cbMem)
			func() {
				defer func() { recover() }()
				b.All(func(j int, _ **holder) bool {
					if op.C == 'e' {
						panic(cb)
					}
					return cb[0] != byte(j)
				})
			}()
		}
		drop(cbMem, "what the callback of step %d referred to", i+1)
		for _, w := range u.looked {
			drop(w, "the key k%d passed to a lookup or to Del in step %d", k, i+1)
		}
		c.res.Transitions++
	}
	for k := range keys {
		if present[k] {
			for _, w := range []weak.Pointer[holder]{keys[k], vals[k]} {
				if w != zero {
					r.kept = append(r.kept, ref{w, fmt.Sprintf("the key or value of k%d", k)})
				}
			}
		}
	}
	if p := b.Word(); p != nil {
		r.kept = append(r.kept, ref{weak.Make((*holder)(p)), "the container itself"})
	}
	for k := range u.last {
		u.last[k] = zero
	}
	r.b, r.ops = b, append([]Op(nil), ops...)
	return
}

// collected runs the collector and reports what is wrong with the containers: first
// while they are in use, then after the last reference to them has been dropped.
func collected(batch []retained) (bad *retained, msg string) {
	runtime.GC()
	runtime.GC()
	for i := range batch {
		for _, g := range batch[i].gone {
			if g.p.Value() != nil {
				return &batch[i], "still reachable after two collections: " + g.what
			}
		}
		for _, g := range batch[i].kept {
			if g.p.Value() == nil {
				return &batch[i], "collected although the container is in use: " + g.what
			}
		}
		runtime.KeepAlive(batch[i].b)
	}
	// drop all containers but one, then that one
	for _, all := range []bool{false, true} {
		last := len(batch) / 2
		for i := range batch {
			if all || i != last {
				batch[i].b = nil
			}
		}
		runtime.GC()
		runtime.GC()
		for i := range batch {
			if batch[i].b != nil {
				continue
			}
			for _, g := range batch[i].kept {
				if g.p.Value() != nil {
					return &batch[i], "still reachable after the container is not: " + g.what
				}
			}
		}
	}
	return nil, ""
}

func retainTasks(stage, tier string) (ts []Task) {
	thorough := tier == "thorough"
	kinds := cat(mainMaps, mainSets, provMaps, provSets)
	var ps []*Pattern
	var gen func(kind string, p *Pattern, f func([]Op))
	switch stage {
	case "seq":
		ps = collect(2, pick(thorough, []int{0, 1, 5, 12, 15, 16, 17, 31, 32}, []int{0, 1, 12, 16}))
		ps = append(ps, collect(3, pick(thorough, []int{0, 1, 16}, []int{0, 16}))...)
		gen = func(kind string, p *Pattern, f func([]Op)) {
			codes := pick(isSet(kind), "SDbae", "SMPDbae")
			seqs(p.n(), codes, pick(thorough && p.n() == 2, 4, pick(thorough || p.n() == 2, 3, 2)), f)
		}
	case "large":
		kinds = cat(crowdKinds(300, mainMaps...), crowdKinds(300, mainSets...))
		ps = append(collect(2, []int{0, 16}), collect(3, []int{1})...)
		gen = func(kind string, p *Pattern, f func([]Op)) {
			for _, codes := range pick(isSet(kind), []string{"SDb", "Sae"}, []string{"SDb", "SPM", "SMae"}) {
				seqs(p.n(), codes, pick(thorough, 3, 2), f)
			}
		}
	case "walks":
		ps = []*Pattern{nodePattern(7, 0), nodePattern(7, 1), nodePattern(7, 16), pairPattern(6, 1, 2), chainPattern(6, 0, 1), chainPattern(6, 11, 1)}
		if thorough {
			ps = append(ps, nodePattern(9, 1), pairPattern(8, 15, 1), chainPattern(9, 12, 2))
		}
		gen = func(kind string, p *Pattern, f func([]Op)) {
			codes := pick(isSet(kind), "Sba", "SPMba")
			for mask := 0; mask < 1<<p.n(); mask++ {
				var ops []Op
				for j := 0; j < p.n(); j++ {
					if mask>>j&1 != 0 {
						ops = append(ops, Op{C: 'S', K: uint8(j)})
					}
				}
				for j := 0; j < p.n(); j++ {
					for _, o := range codes {
						if o == 'b' || mask>>j&1 != 0 || (mask+j)%4 == 0 {
							ops = append(ops, Op{C: byte(o), K: uint8(j)})
						}
					}
				}
				f(ops)
				f(append(ops, Op{C: 'D', K: uint8(mask % p.n())}))
			}
		}
	}
	for _, kind := range kinds {
		for i, ch := range chunks(ps, 3) {
			ts = append(ts, Task{Name: fmt.Sprintf("%s/%s/%d", kind, stage, i), Run: func(c *Ctx) {
				for _, p := range ch {
					u := newRetUniverse(p.n())
					install(p, kind, u.Universe, 1)
					u.looked = nil
					c.note = kind + " " + p.String()
					var batch []retained
					flush := func() {
						if bad, _ := collected(batch); bad != nil {
							c.retainFail(kind, u, p, bad.ops)
						}
						batch = batch[:0]
					}
					gen(kind, p, func(ops []Op) {
						if c.res.Capped {
							return
						}
						batch = append(batch, retHistory(c, kind, u, ops))
						c.res.Traces++
						if len(batch) == 500 {
							flush()
							c.late()
						}
					})
					flush()
					c.res.States += 1 << p.n()
				}
				c.sample(c.note)
			}})
		}
	}
	return
}

// retainFail confirms and shrinks a retention failure.
func (c *Ctx) retainFail(kind string, u *retUniverse, p *Pattern, ops []Op) {
	try := func(o []Op) string {
		_, msg := collected([]retained{retHistory(c, kind, u, o)})
		return msg
	}
	f := &Failure{}
	for i := 0; i < 5; i++ {
		if m := try(ops); m != "" {
			f.Confirmed++
			f.Msg = m
		}
	}
	if f.Confirmed == 0 {
		c.outcome("retention seen once but not confirmed")
		return
	}
	for i := 0; i < len(ops); {
		t := append(append([]Op(nil), ops[:i]...), ops[i+1:]...)
		if m := try(t); m != "" {
			ops, f.Msg = t, m
		} else {
			i++
		}
	}
	f.Scenario = (&Runner{kind: kind, p: p}).describe(ops)
	c.fail(f)
}

// C26: updates of present entries from inside callbacks.

// nest is one container with its expected contents.
type nest struct {
	c    *Ctx
	b    Box[int]
	n    int
	mask uint64
	vals []int
	sets bool
	next int
	log  []string
}

func (t *nest) logf(format string, args ...any) { t.log = append(t.log, fmt.Sprintf(format, args...)) }

func (t *nest) has(k int) bool { return t.mask>>k&1 != 0 }

// innerOps change no key set: updates of a present key, Del of an absent one, lookups.
func innerOps(set, present bool) string {
	switch {
	case set && present:
		return "S"
	case set:
		return "D"
	case present:
		return "SMwW"
	}
	return "D"
}

// inner performs one of them.
func (t *nest) inner(code byte, k int) {
	t.next++
	v := t.next
	t.logf("%c(k%d)", code, k)
	t.c.res.Transitions++
	switch code {
	case 'S':
		t.b.Set(k, v)
		t.vals[k] = v
	case 'M':
		t.b.Mod(k, func(p *int, ok bool) {
			if !ok || *p != t.vals[k] {
				failf("Mod(k%d) inside a callback is handed %d, %v instead of %d", k, *p, ok, t.vals[k])
			}
			*p = v
		})
		t.vals[k] = v
	case 'w':
		*t.b.Ptr(k) = v
		t.vals[k] = v
	case 'W': // all present entries, from an iteration
		t.b.All(func(j int, p *int) bool {
			t.next++
			*p = t.next
			t.vals[j] = t.next
			return true
		})
	case 'D':
		t.b.Del(k)
	}
	if x, ok := t.b.Get(k); ok != t.has(k) || ok && !t.set() && x != t.vals[k] {
		failf("after %c(k%d) inside a callback, Get is %d, %v instead of %d, %v", code, k, x, ok, t.vals[k], t.has(k))
	}
}

func (t *nest) set() bool { return t.sets }

// check compares everything after the outer operation.
func (t *nest) check(order []int, dep float64) {
	i := 0
	t.b.All(func(k int, p *int) bool {
		if i >= len(order) || k != order[i] {
			failf("afterwards All visits k%d at position %d, not %v", k, i, order)
		}
		if p != nil && *p != t.vals[k] {
			failf("afterwards k%d is %d instead of %d", k, *p, t.vals[k])
		}
		i++
		return true
	})
	if i != len(order) || int(t.b.Len()) != i || t.b.Dep() != dep {
		failf("afterwards All makes %d calls, Len is %d, Dep %v; %d entries, Dep %v", i, t.b.Len(), t.b.Dep(), len(order), dep)
	}
	for k := 0; k < t.n; k++ {
		if x, ok := t.b.Get(k); ok != t.has(k) || ok && !t.set() && x != t.vals[k] {
			failf("afterwards Get(k%d) is %d, %v instead of %d, %v", k, x, ok, t.val(k), t.has(k))
		}
	}
}

func (t *nest) val(k int) int {
	if t.set() || !t.has(k) {
		return 0
	}
	return t.vals[k]
}

func (t *nest) look() (order []int, dep float64) {
	t.b.All(func(k int, _ *int) bool { order = append(order, k); return true })
	return order, t.b.Dep()
}

// iterate runs All with inner called at each position, and checks the visits.
func (t *nest) iterate(order []int, inner func(pos int)) {
	i := 0
	t.b.All(func(k int, p *int) bool {
		if i >= len(order) || k != order[i] {
			failf("All with updates visits k%d at position %d, not %v", k, i, order)
		}
		if p != nil && (*p != t.vals[k] || t.b.Ptr(k) != p) {
			failf("All with updates hands out %d for k%d, whose value is %d", *p, k, t.vals[k])
		}
		i++
		inner(i - 1)
		if p != nil && *p != t.vals[k] {
			failf("inside All, the pointer for k%d shows %d after an update to %d", k, *p, t.vals[k])
		}
		return true
	})
	if i != len(order) {
		failf("All with updates makes %d calls for %d entries", i, len(order))
	}
}

// scenes runs every outer operation with every inner one in the present contents.
func (t *nest) scenes(run func(name string, f func(order []int, dep float64))) {
	each := func(f func(code byte, k int)) {
		for k := 0; k < t.n; k++ {
			for _, code := range innerOps(t.set(), t.has(k)) {
				f(byte(code), k)
			}
		}
	}
	cnt := popcount(t.mask)
	each(func(code byte, k int) {
		for pos := -1; pos < cnt; pos++ {
			if cnt == 0 {
				continue
			}
			run("All", func(order []int, dep float64) {
				t.iterate(order, func(i int) {
					if i == pos || pos < 0 {
						t.inner(code, k)
					}
				})
				t.check(order, dep)
			})
		}
	})
	if t.set() {
		return
	}
	run("All that updates every other entry", func(order []int, dep float64) {
		t.iterate(order, func(i int) {
			for j, k := range order {
				t.inner("SMw"[(i+j)%3], k)
			}
		})
		t.check(order, dep)
	})
	for o := 0; o < t.n; o++ {
		had := t.has(o)
		mod := func(first, second func()) func(order []int, dep float64) {
			return func(order []int, dep float64) {
				calls := 0
				t.next++
				v := t.next
				t.b.Mod(o, func(p *int, ok bool) {
					calls++
					if ok != had || *p != t.val(o) {
						failf("Mod(k%d) is handed %d, %v instead of %d, %v", o, *p, ok, t.val(o), had)
					}
					first()
					if had && *p != t.val(o) {
						failf("inside Mod(k%d) its pointer shows %d after an update to %d", o, *p, t.vals[o])
					}
					*p = v
					if had {
						t.vals[o] = v
					}
					second()
				})
				if calls != 1 {
					failf("Mod(k%d) calls its callback %d times", o, calls)
				}
				if !had {
					t.mask |= 1 << o
					t.vals[o] = v
					if x, ok := t.b.Get(o); !ok || x != v {
						failf("after Mod(k%d) with updates inside, Get is %d, %v instead of %d", o, x, ok, v)
					}
					if q := t.b.Len(); int(q) != cnt+1 {
						failf("after Mod(k%d) with updates inside, Len is %d instead of %d", o, q, cnt+1)
					}
					t.b.Del(o)
					t.mask &^= 1 << o
				}
				t.check(order, dep)
			}
		}
		each(func(code byte, k int) {
			if k == o && code == 'D' {
				return // Del of the key that is being inserted
			}
			run(fmt.Sprintf("Mod(k%d)", o), mod(func() { t.inner(code, k) }, func() {}))
			run(fmt.Sprintf("Mod(k%d), after its write,", o), mod(func() {}, func() { t.inner(code, k) }))
		})
	}
}

func nestTasks(stage, tier string) (ts []Task) {
	thorough := tier == "thorough"
	var ps []*Pattern
	switch stage {
	case "shapes":
		ps = collect(2, levels40)
		ps = append(ps, collect(3, pick(thorough, levels40, []int{0, 1, 2, 12, 15, 16, 17, 31, 32}))...)
		if thorough {
			ps = append(ps, collect(4, []int{0, 1, 15, 16})...)
		}
	case "level":
		ps = []*Pattern{nodePattern(7, 0), nodePattern(7, 1), nodePattern(7, 16), pairPattern(6, 1, 1), chainPattern(6, 0, 1), chainPattern(6, 12, 1)}
		if thorough {
			ps = append(ps, nodePattern(10, 0), nodePattern(10, 2), pairPattern(8, 15, 1), chainPattern(8, 1, 2))
		}
	}
	for _, kind := range cat(mainMaps, mainSets, provMaps, provSets, typedKinds("wide", "refs"), crowdKinds(300, mainMaps...), crowdKinds(300, mainSets...)) {
		ps := ps
		if strings.Contains(kind, "/") && !thorough {
			ps = pick(stage == "level", []*Pattern{nodePattern(5, 1), pairPattern(4, 0, 1), chainPattern(5, 13, 1)}, collect(3, []int{0, 1, 16}))
		}
		for i, ch := range chunks(ps, pick(stage == "level", 1, 40)) {
			ts = append(ts, Task{Name: fmt.Sprintf("%s/%s/%d", kind, stage, i), Run: func(c *Ctx) {
				for _, p := range ch {
					if c.late() {
						return
					}
					install(p, kind, stdU, 1)
					c.nestPattern(kind, p)
				}
			}})
		}
	}
	return
}

func (c *Ctx) nestPattern(kind string, p *Pattern) {
	// all scenes in every contents; the container goes through the contents in Gray order
	start := func() *nest {
		maphash.VerifNextSeed = 1
		t := &nest{c: c, b: newBox[int](kind, stdU), n: p.n(), sets: isSet(kind), vals: make([]int, p.n())}
		c.res.Traces++
		return t
	}
	t := start()
	only := -1 // the scene to run, if just one
	var failed int
	scan := func(t *nest) *Failure {
		return catch(func() {
			i := 0
			t.scenes(func(name string, f func([]int, float64)) {
				if i++; only >= 0 && i-1 != only {
					return
				}
				failed = i - 1
				maphash.VerifSums, maphash.VerifLimit = 0, 200000
				t.log = t.log[:0]
				order, dep := t.look()
				t.logf("contents %0*b: %s with", t.n, t.mask, name)
				f(order, dep)
			})
		})
	}
	toggle := func(t *nest, k int) {
		if t.has(k) {
			t.b.Del(k)
		} else {
			t.next++
			t.b.Set(k, t.next)
			t.vals[k] = t.next
		}
		t.mask ^= 1 << k
	}
	var done []uint8
	c.note = kind + " " + p.String()
	for _, g := range append(gray(p.n()), 0) {
		f := scan(t)
		if f != nil {
			// again, alone, in a fresh container
			only = failed
			for i := 0; i < 5; i++ {
				t2 := start()
				for _, d := range done {
					toggle(t2, int(d))
				}
				if g := scan(t2); g != nil {
					f.Confirmed++
				}
			}
			f.Scenario = fmt.Sprintf("%s, %s, %s", kind, p, strings.Join(t.log, " "))
			c.fail(f)
		}
		c.visit(kind+p.Name, p.n(), t.mask)
		toggle(t, int(g))
		done = append(done, g)
	}
	delete(c.seen, kind+p.Name)
	c.sample(fmt.Sprintf("%s, %s, every contents, e.g. %s", kind, p, strings.Join(t.log, " ")))
}

func init() {
	props["C25"] = &propDef{stages: stages("plain", "seq", "large", "walks"), tasks: retainTasks, text: textOf(map[string]string{
		"seq":   "every sequence of up to 3 (3 keys: 2; thorough: 4 and 3) of Set/Add, Mod, panicking Mod, Del, lookups, All and panicking All; every key passed to a lookup, to Del or for a present entry, and whatever a callback refers to, must be collected while the container lives, and everything once it does not",
		"large": "sequences of 2 (thorough 3) of these on 2 and 3 keys in a container with 300 further entries that stay put",
		"walks": "the same in every contents of up to 7 keys on one level, in pairs and in chains",
	})}
	props["C26"] = &propDef{stages: stages("plain", "shapes", "level"), tasks: nestTasks, text: textOf(map[string]string{
		"shapes": "every contents of 2 and 3 keys (2: branching levels 0..40, 3: selected; thorough: 4 too): All with every update (Set, Mod, write through Ptr, nested All that writes; for sets Add) of every present key and Del of every absent key at every one and at all positions, and Mod of every key with each of these before and after its write",
		"level":  "the same in every contents of up to 7 keys on one level, in pairs and in chains",
	})}
}
