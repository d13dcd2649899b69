package main

import (
	"fmt"
	"hash/maphash"
	"runtime"
	"strings"
	"time"
)

// Oracle selects what a Runner checks after every operation.
type Oracle uint

const (
	oLook  Oracle = 1 << iota // Get, Val, Ptr / Has of every key agree with the reference
	oLen                      // Len is the number of keys
	oDep                      // Dep is the mean level, computed from the hashes
	oOrder                    // Dep and the iteration order depend on the contents only
	oAll                      // All visits each entry exactly once, with its live value
	oStop                     // All stops when told, at every position
	oPtr                      // value pointers stay valid and live
	oStale                    // writes through pointers of deleted entries reach no entry
	oFoot                     // memory kept alive (large containers only)
	oMod                      // the Mod callback's arguments, and Mod's effect
	oSame                     // operations that change nothing change nothing at all
	oCbs                      // the container is consistent inside callbacks
	oWrite                    // writes through the pointers All gives are seen
)

// Op codes: S Set/Add, M Mod that writes, N Mod that does not write, D Del,
// w write through Ptr (if present), P Mod whose callback panics (writing first if
// present), G Mod whose callback ends its goroutine, b bare lookup.

// Runner executes histories of one container kind under one hash pattern.
type Runner struct {
	c      *Ctx
	kind   string
	set    bool
	u      *Universe
	p      *Pattern
	orc    Oracle
	full   int                // look up all keys only every so many steps (0: always)
	dep    map[uint64]float64 // mean levels by contents
	orders map[uint64][]int
	deps   map[uint64]float64
	what   string                  // about the keys, for messages
	wrap   func(Box[int]) Box[int] // if set, wraps the container
	quiet  bool                    // leave the stand-in's shared counters alone
	copies int                     // further copies of the container value to work through
}

func newRunner(c *Ctx, kind string, u *Universe, p *Pattern, orc Oracle) *Runner {
	r := &Runner{c: c, kind: kind, set: isSet(kind), u: u, p: p, orc: orc}
	install(p, kind, u, 1)
	if orc&oDep != 0 {
		r.dep = map[uint64]float64{}
	}
	if orc&oOrder != 0 {
		r.orders, r.deps = map[uint64][]int{}, map[uint64]float64{}
	}
	return r
}

// live is one execution.
type live struct {
	r      *Runner
	b      Box[int]
	mask   uint64
	vals   []int
	ptrs   []*int
	old    [][]*int
	step   int
	ops    []Op
	modPtr *int
	hs     []Box[int] // copies of the container, if several are used
}

func (r *Runner) fresh() *live {
	maphash.VerifNextSeed = 1
	n := r.p.n()
	l := &live{r: r, b: newBox[int](r.kind, r.u), vals: make([]int, n)}
	if r.wrap != nil {
		l.b = r.wrap(l.b)
	}
	if r.orc&(oPtr|oStale) != 0 && !r.set {
		l.ptrs = make([]*int, n)
		l.old = make([][]*int, n)
	}
	if r.copies > 0 {
		l.hs = []Box[int]{l.b}
		for i := 1; i <= r.copies; i++ {
			l.hs = append(l.hs, l.b.Copy(i))
		}
	}
	return l
}

const poison = -777777

// do executes op and checks, through every copy.
func (l *live) do(op Op) {
	if l.hs == nil {
		l.do1(op)
		return
	}
	h := int(op.H) % len(l.hs)
	l.b = l.hs[h]
	l.do1(op)
	l.hs[len(l.hs)-1] = l.b.Copy(l.step) // one copy is always made afresh
	for i, b := range l.hs {
		if i != h {
			l.b = b
			l.check(false)
		}
	}
	l.b = l.hs[h]
}

func (l *live) do1(op Op) {
	r, k := l.r, int(op.K)
	if !r.quiet {
		maphash.VerifSums, maphash.VerifLimit = 0, 20000
	}
	l.step++
	v := int(op.V)
	if v == 0 {
		v = 1000 + l.step
	}
	if v == zeroValue {
		v = 0
	}
	had := l.mask>>k&1 != 0
	noop := false
	var order []int
	var dep float64
	if r.orc&oSame != 0 {
		order, dep = l.order(), l.b.Dep()
	}
	before := l.mask
	switch op.C {
	case 'S':
		l.b.Set(k, v)
		noop = had && r.set
		l.mask |= 1 << k
		l.vals[k] = v
	case 'M', 'N', 'P', 'G':
		calls := 0
		wrote := false
		l.insideMod(op.C, k, func(p *int, ok bool) {
			calls++
			if r.orc&(oMod|oCbs) != 0 {
				if calls > 1 {
					failf("Mod(k%d) called its callback %d times", k, calls)
				}
				if ok != had {
					failf("Mod(k%d) callback was told ok=%v, key present: %v", k, ok, had)
				}
				if p == nil {
					failf("Mod(k%d) callback got a nil pointer", k)
				}
				want := 0
				if had {
					want = l.vals[k]
				}
				if *p != want {
					failf("Mod(k%d) callback sees value %d, want %d (present: %v)", k, *p, want, had)
				}
				if had && r.orc&oMod != 0 {
					if q := l.b.Ptr(k); q != p {
						failf("Mod(k%d) callback got a pointer that is not the one Ptr returns", k)
					}
				}
			}
			if r.orc&oCbs != 0 {
				l.check(true)
			}
			if op.C == 'M' || (op.C != 'N' && had) {
				*p = v
				wrote = true
			}
			if op.C == 'M' && r.orc&oCbs != 0 && had {
				l.vals[k] = v
				l.check(true)
			}
			if op.C == 'M' || op.C == 'N' {
				if l.ptrs != nil {
					l.ptrs[k] = p
				}
			} else if !had {
				*p = poison
			}
			if r.orc&oMod != 0 && (op.C == 'M' || op.C == 'N') {
				l.modPtr = p
			}
			switch op.C {
			case 'P':
				panic(cbPanic{})
			case 'G':
				runtime.Goexit()
			}
		})
		if calls != 1 && r.orc&(oMod|oCbs) != 0 {
			failf("Mod(k%d) called its callback %d times", k, calls)
		}
		switch op.C {
		case 'M', 'N':
			l.mask |= 1 << k
			if wrote {
				l.vals[k] = v
			} else if !had {
				l.vals[k] = 0
			}
			if r.orc&oMod != 0 {
				if q := l.b.Ptr(k); q == nil || q != l.modPtr {
					failf("after Mod(k%d), Ptr returns %s, not the pointer the callback got", k, nilOr(q))
				}
			}
		default:
			if had {
				l.vals[k] = v
			} else {
				noop = true
			}
		}
	case 'D':
		l.b.Del(k)
		noop = !had
		l.mask &^= 1 << k
	case 'w':
		if p := l.b.Ptr(k); p != nil {
			if !had {
				failf("Ptr(k%d) of an absent key is not nil", k)
			}
			*p = v
			l.vals[k] = v
		} else if had {
			failf("Ptr(k%d) of a present key is nil", k)
		}
	case 'b':
		l.b.Get(k)
		noop = true
	case 'a', 'e', 'n':
		l.allOp(op.C, k)
		noop = true
	default:
		panic(harness{"unknown operation " + string(op.C)})
	}
	if l.ptrs != nil {
		l.trackPtr(op, k, before)
	}
	if r.orc&oSame != 0 {
		l.checkSame(op, k, order, dep, noop, before)
	}
	l.check(false)
	r.c.res.Transitions++
}

type cbPanic struct{}

// allOp runs All with a callback that, at its (pos+1)-th call, panics (a), ends its
// goroutine (e), or (n) reads everything, writes the value and runs a nested All that
// stops after pos calls. The container is checked inside every call.
func (l *live) allOp(code byte, pos int) {
	calls := 0
	cb := func(k int, v *int) bool {
		calls++
		l.check(true)
		if calls != pos+1 {
			return true
		}
		if v != nil {
			*v ^= 0x5a5a
			l.vals[k] = *v
			l.check(true)
			*v ^= 0x5a5a
			l.vals[k] = *v
		}
		switch code {
		case 'a':
			panic(cbPanic{})
		case 'e':
			runtime.Goexit()
		}
		inner := 0
		l.b.All(func(int, *int) bool {
			inner++
			if inner == pos {
				l.check(true)
				return false
			}
			return true
		})
		return true
	}
	switch code {
	case 'a':
		func() {
			defer func() {
				if x := recover(); x != nil {
					if _, ok := x.(cbPanic); !ok {
						panic(x)
					}
				}
			}()
			l.b.All(cb)
			if calls > pos {
				failf("All swallowed its callback's panic")
			}
		}()
	case 'e':
		onGoroutine(func() { l.b.All(cb) })
	default:
		l.b.All(cb)
		if n := popcount(l.mask); calls != n {
			failf("All with nested All made %d calls for %d entries", calls, n)
		}
	}
}

// insideMod calls Mod, containing panics and goroutine ends of the callback.
func (l *live) insideMod(code byte, k int, f func(*int, bool)) {
	switch code {
	case 'P':
		func() {
			defer func() {
				if x := recover(); x != nil {
					if _, ok := x.(cbPanic); !ok {
						panic(x)
					}
				}
			}()
			l.b.Mod(k, f)
			failf("Mod(k%d) swallowed its callback's panic", k)
		}()
	case 'G':
		onGoroutine(func() { l.b.Mod(k, f) })
	default:
		l.b.Mod(k, f)
	}
}

// onGoroutine runs f on a goroutine of its own; f may end by panic or Goexit. Panics
// are passed on.
func onGoroutine(f func()) {
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	if x := <-done; x != nil {
		panic(x)
	}
}

func nilOr(p *int) string {
	if p == nil {
		return "nil"
	}
	return "another pointer"
}

func (l *live) order() (r []int) {
	l.b.All(func(k int, _ *int) bool { r = append(r, k); return true })
	return
}

func (l *live) trackPtr(op Op, k int, before uint64) {
	r := l.r
	had := before>>k&1 != 0
	switch {
	case had && l.mask>>k&1 == 0: // deleted
		if p := l.ptrs[k]; p != nil {
			l.old[k] = append(l.old[k], p)
			if len(l.old[k]) > 6 {
				l.old[k] = l.old[k][1:]
			}
		}
		l.ptrs[k] = nil
	case l.mask>>k&1 != 0 && (!had || l.ptrs[k] == nil):
		p := l.b.Ptr(k)
		if p == nil {
			failf("Ptr(k%d) of a present key is nil", k)
		}
		if l.ptrs[k] != nil && l.ptrs[k] != p {
			failf("the pointer Mod(k%d) passed is not the one Ptr returns afterwards", k)
		}
		l.ptrs[k] = p
	}
	if r.orc&oStale != 0 {
		for _, ps := range l.old {
			for _, p := range ps {
				*p = poison
			}
		}
	}
}

func (l *live) checkSame(op Op, k int, order []int, dep float64, noop bool, before uint64) {
	now := l.order()
	switch {
	case noop:
		if !equalInts(now, order) {
			failf("%s changes nothing, but the iteration order went from %v to %v", op, order, now)
		}
		if d := l.b.Dep(); d != dep {
			failf("%s changes nothing, but Dep went from %v to %v", op, dep, d)
		}
	case op.C == 'D':
		want := make([]int, 0, len(order))
		for _, x := range order {
			if x != k {
				want = append(want, x)
			}
		}
		if !equalInts(now, want) {
			failf("%s: the iteration order went from %v to %v", op, order, now)
		}
	}
}

func equalInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// check compares the container with the reference.
func (l *live) check(inside bool) {
	r, b, n := l.r, l.b, l.r.p.n()
	orc := r.orc
	if inside {
		orc = oLook | oLen | oDep&orc | oAll | oOrder&orc
	}
	if orc&oLook != 0 && (r.full == 0 || l.step%r.full == 0) {
		for k := 0; k < n; k++ {
			l.look(k)
		}
	} else if orc&oLook != 0 && len(l.ops) > 0 {
		l.look(int(l.ops[len(l.ops)-1].K))
	}
	cnt := uint(popcount(l.mask))
	if orc&oLen != 0 {
		if got := b.Len(); got != cnt {
			failf("Len is %d with %d keys present", got, cnt)
		}
	}
	if orc&oDep != 0 {
		want, ok := r.dep[l.mask]
		if !ok {
			want = r.p.meanDepth(l.mask)
			if len(r.dep) < 1<<18 {
				r.dep[l.mask] = want
			}
		}
		if got := b.Dep(); !sameFloat(got, want) {
			failf("Dep is %v, the mean level of the entries is %v", got, want)
		}
	}
	if orc&oAll != 0 {
		var seen uint64
		total := 0
		b.All(func(k int, v *int) bool {
			if k < 0 || k >= n {
				failf("All visits a key that was never inserted")
			}
			if total++; seen>>k&1 != 0 {
				failf("All visits k%d twice", k)
			}
			seen |= 1 << k
			if l.mask>>k&1 == 0 {
				failf("All visits k%d, which is not present", k)
			}
			if !r.set {
				if v == nil || *v != l.vals[k] {
					failf("All passes a wrong value for k%d: %s, want %d", k, deref(v), l.vals[k])
				}
			}
			return true
		})
		if seen != l.mask {
			failf("All visits %d of %d entries", popcount(seen), cnt)
		}
	}
	if orc&oWrite != 0 && !r.set && !inside {
		b.All(func(k int, v *int) bool {
			l.vals[k] = -1 - l.vals[k]
			*v = l.vals[k]
			return true
		})
		for k := 0; k < n; k++ {
			l.look(k)
		}
		b.All(func(k int, v *int) bool {
			if *v != l.vals[k] {
				failf("a write through the pointer All passed for k%d is not seen by All", k)
			}
			l.vals[k] = -1 - l.vals[k]
			*v = l.vals[k]
			return true
		})
	}
	if orc&oStop != 0 && !inside {
		for stop := 1; stop <= int(cnt); stop++ {
			calls := 0
			b.All(func(int, *int) bool {
				calls++
				return calls < stop
			})
			if calls != stop {
				failf("All made %d calls although call %d returned false", calls, stop)
			}
		}
	}
	if orc&oOrder != 0 {
		o := l.order()
		d := b.Dep()
		if first, ok := r.orders[l.mask]; !ok {
			r.orders[l.mask], r.deps[l.mask] = o, d
		} else if !equalInts(first, o) {
			failf("iteration order %v, but an earlier history with the same contents gave %v", o, first)
		} else if d != r.deps[l.mask] {
			failf("Dep %v, but an earlier history with the same contents gave %v", d, r.deps[l.mask])
		}
	}
	if orc&oPtr != 0 && l.ptrs != nil {
		for k, p := range l.ptrs {
			if l.mask>>k&1 == 0 {
				continue
			}
			if q := b.Ptr(k); q != p {
				failf("the value pointer of k%d changed while the key stayed", k)
			}
			if *p != l.vals[k] {
				failf("the value pointer of k%d shows %d, want %d", k, *p, l.vals[k])
			}
			if !inside {
				*p = poison - k
				if v, _ := b.Get(k); v != poison-k {
					failf("a write through the value pointer of k%d is not seen", k)
				}
				*p = l.vals[k]
			}
		}
	}
	if orc&oPtr != 0 && l.ptrs != nil {
		b.All(func(k int, p *int) bool {
			if k >= 0 && k < n && p != l.ptrs[k] {
				failf("All passes a pointer for k%d that is not the one Ptr returned", k)
			}
			return true
		})
	}
	if orc&oStale != 0 && l.ptrs != nil {
		for k := 0; k < n; k++ {
			if l.mask>>k&1 != 0 {
				if v, ok := b.Get(k); !ok || v != l.vals[k] {
					failf("after writes through pointers of deleted entries, Get(k%d) is %d, %v, want %d", k, v, ok, l.vals[k])
				}
			}
		}
	}
}

func deref(p *int) string {
	if p == nil {
		return "nil"
	}
	return fmt.Sprint(*p)
}

func (l *live) look(k int) {
	b, had := l.b, l.mask>>k&1 != 0
	v, ok := b.Get(k)
	if l.r.set {
		if ok != had {
			failf("Has(k%d) is %v, key present: %v", k, ok, had)
		}
		return
	}
	want := 0
	if had {
		want = l.vals[k]
	}
	if ok != had || v != want {
		failf("Get(k%d) is %d, %v, want %d, %v", k, v, ok, want, had)
	}
	if v := b.Val(k); v != want {
		failf("Val(k%d) is %d, want %d", k, v, want)
	}
	if p := b.Ptr(k); (p != nil) != had || p != nil && *p != want {
		failf("Ptr(k%d) is %s, want %d (present: %v)", k, deref(p), want, had)
	}
}

func popcount(m uint64) (c int) {
	for ; m != 0; m &= m - 1 {
		c++
	}
	return
}

func (o Op) String() string {
	name := map[byte]string{'S': "Set", 'M': "Mod(write)", 'N': "Mod(no write)", 'D': "Del", 'w': "write via Ptr",
		'P': "Mod(panic)", 'G': "Mod(Goexit)", 'b': "Get",
		'a': "All(panic in call)", 'e': "All(Goexit in call)", 'n': "All(nested)"}[o.C]
	s := fmt.Sprintf("%s k%d", name, o.K)
	if o.V != 0 {
		v := int(o.V)
		if v == zeroValue {
			v = 0
		}
		s += fmt.Sprintf("=%d", v)
	}
	if o.H != 0 {
		s += fmt.Sprintf(" (through copy %d)", o.H)
	}
	return s
}

func (r *Runner) describe(ops []Op) string {
	var sb strings.Builder
	if r.what != "" {
		fmt.Fprintf(&sb, "%s\n", r.what)
	}
	fmt.Fprintf(&sb, "kind %s; hash digits (level 0 first) %s\n", r.kind, r.p)
	for i, o := range ops {
		if len(ops) > 60 && i == 30 {
			fmt.Fprintf(&sb, "  ... %d more ...\n", len(ops)-60)
		}
		if len(ops) > 60 && i >= 30 && i < len(ops)-30 {
			continue
		}
		fmt.Fprintf(&sb, "  %d: %s\n", i+1, o)
	}
	return sb.String()
}

// exec runs ops from an empty container and returns the failure, if any.
func (r *Runner) exec(ops []Op) (f *Failure) {
	l := r.fresh()
	r.trace(ops)
	f = catch(func() {
		for i := range ops {
			l.ops = ops[:i+1]
			l.do(ops[i])
		}
	})
	r.c.res.Traces++
	if f != nil {
		return f
	}
	return nil
}

// trace notes the scenario on file when a crashed task is being rerun.
func (r *Runner) trace(ops []Op) {
	if tf := r.c.TraceFile; tf != nil {
		tf.Truncate(0)
		tf.WriteAt([]byte(r.describe(ops)), 0)
	}
}

// report shrinks a failing history and ends the task with it.
func (r *Runner) report(ops []Op, f *Failure) {
	fails := func(o []Op) *Failure {
		q := *r
		q.full = 0
		if r.orders != nil {
			q.orders, q.deps = map[uint64][]int{}, map[uint64]float64{}
			for k, v := range r.orders {
				q.orders[k], q.deps[k] = v, r.deps[k]
			}
		}
		return q.exec(o)
	}
	start := time.Now()
	ops = append([]Op(nil), ops...)
	if len(ops) > 300 { // try: the contents before the last few operations, inserted afresh
		for tail := 1; tail < 4; tail++ {
			t := r.rebuild(ops[:len(ops)-tail])
			t = append(t, ops[len(ops)-tail:]...)
			if fails(t) != nil {
				ops = t
				break
			}
		}
	}
	for i := range ops {
		ops[i].V = firstNonZero(ops[i].V, int32(1001+i))
	}
	if g := fails(ops); g != nil {
		f = g
		for size := (len(ops) + 1) / 2; size > 0; {
			cut := false
			for i := 0; i+size <= len(ops) && len(ops) > 1; {
				if time.Since(start) > 20*time.Second {
					size = 0
					break
				}
				t := append(append([]Op(nil), ops[:i]...), ops[i+size:]...)
				if g := fails(t); g != nil {
					ops, f, cut = t, g, true
				} else {
					i += size
				}
			}
			if !cut || size > len(ops) {
				size /= 2
			}
		}
		for i := 0; i < 5; i++ {
			if fails(ops) != nil {
				f.Confirmed++
			}
		}
	}
	f.Scenario = r.describe(ops)
	r.c.fail(f)
}

// rebuild returns insertions that lead to the same contents as ops.
func (r *Runner) rebuild(ops []Op) (t []Op) {
	var mask uint64
	for _, o := range ops {
		switch o.C {
		case 'S', 'M', 'N':
			mask |= 1 << o.K
		case 'D':
			mask &^= 1 << o.K
		}
	}
	for k := 0; k < 64; k++ {
		if mask>>k&1 != 0 {
			t = append(t, Op{C: 'S', K: uint8(k)})
		}
	}
	return
}

func firstNonZero(a, b int32) int32 {
	if a != 0 {
		return a
	}
	return b
}
