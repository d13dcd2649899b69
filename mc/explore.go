package main

import (
	"fmt"
)

// closure explores every implementation state reachable with the alphabet: starting
// from the empty container it applies every operation in every distinct state (as told
// by snapshots) until no state is left with an untried operation. The histories are
// the paths of one walk over the state graph, on the real container. It returns whether
// the state space was exhausted within limit states.
func (r *Runner) closure(alpha []Op, limit int) (states int, complete bool) {
	if !snapOK {
		panic(harness{"snapshots do not work with this toolchain"})
	}
	sn := &snapper{known: r.u.knownCached()}
	type state struct {
		next []int32 // successor per operation, -1 untried
		left int
	}
	var sts []state
	type key struct {
		snap [2]uint64
		ref  string
	}
	ids := map[key]int{}
	l := r.fresh()
	r.trace(nil)
	r.c.res.Traces++
	var hist []Op
	refOf := func() string { // the reference state: contents
		b := make([]byte, 0, 64)
		for k := range l.vals {
			if l.mask>>k&1 != 0 {
				b = append(b, 1, byte(l.vals[k]), byte(l.vals[k]>>8))
			} else {
				b = append(b, 0)
			}
		}
		return string(b)
	}
	ident := func() int {
		k := key{l.b.Snap(sn), refOf()}
		id, ok := ids[k]
		if !ok {
			id = len(sts)
			ids[k] = id
			nx := make([]int32, len(alpha))
			for i := range nx {
				nx[i] = -1
			}
			sts = append(sts, state{nx, len(alpha)})
			r.c.res.States++
		}
		return id
	}
	doOp := func(a int) {
		hist = append(hist, alpha[a])
		l.ops = hist
		if f := catch(func() { l.do(alpha[a]) }); f != nil {
			r.report(hist, f)
		}
	}
	cur := ident()
	open := 1
	restarts := 0
	for open > 0 {
		if len(sts) > limit {
			return len(sts), false
		}
		st := &sts[cur]
		if st.left > 0 {
			a := 0
			for st.next[a] >= 0 {
				a++
			}
			doOp(a)
			n := len(sts)
			to := ident()
			if len(sts) > n {
				open++
			}
			st = &sts[cur]
			st.next[a] = int32(to)
			if st.left--; st.left == 0 {
				open--
			}
			cur = to
			continue
		}
		// walk to the nearest state with an untried operation
		path := pathTo(len(sts), cur, func(s int) bool { return sts[s].left > 0 }, func(s int) []int32 { return sts[s].next })
		if path == nil { // not reachable from here: start over
			if restarts++; restarts > 100 {
				return len(sts), false
			}
			l = r.fresh()
			r.c.res.Traces++
			hist = nil
			cur = ident()
			if cur != 0 {
				return len(sts), false
			}
			if sts[cur].left > 0 {
				continue
			}
			if path = pathTo(len(sts), cur, func(s int) bool { return sts[s].left > 0 }, func(s int) []int32 { return sts[s].next }); path == nil {
				return len(sts), false
			}
		}
		for _, a := range path {
			want := int(sts[cur].next[a])
			doOp(a)
			n := len(sts)
			to := ident()
			if len(sts) > n {
				open++
			}
			if to != want { // not a function of the snapshot: follow what happened
				r.c.outcome("nondeterministic successor")
				if restarts++; restarts > 1000 {
					return len(sts), false
				}
				cur = to
				break
			}
			cur = to
		}
	}
	return len(sts), true
}

func pathTo(n, from int, goal func(int) bool, next func(int) []int32) []int {
	prev := make([]int32, n)
	via := make([]int32, n)
	for i := range prev {
		prev[i] = -1
	}
	prev[from] = int32(from)
	q := []int{from}
	for i := 0; i < len(q); i++ {
		s := q[i]
		if goal(s) {
			var p []int
			for s != from {
				p = append(p, int(via[s]))
				s = int(prev[s])
			}
			for a, b := 0, len(p)-1; a < b; a, b = a+1, b-1 {
				p[a], p[b] = p[b], p[a]
			}
			return p
		}
		for a, t := range next(s) {
			if t >= 0 && prev[t] < 0 {
				prev[t], via[t] = int32(s), int32(a)
				q = append(q, int(t))
			}
		}
	}
	return nil
}

// alphabet returns the operations codes x keys; with two values per writing operation
// if two is set.
func alphabet(n int, codes string, two bool) (r []Op) {
	for k := 0; k < n; k++ {
		for i := 0; i < len(codes); i++ {
			switch codes[i] {
			case 'S', 'M', 'w', 'P', 'G':
				r = append(r, Op{C: codes[i], K: uint8(k), V: int32(10*k + 11)})
				if two {
					r = append(r, Op{C: codes[i], K: uint8(k), V: zeroValue})
				}
			default:
				r = append(r, Op{C: codes[i], K: uint8(k)})
			}
		}
	}
	return
}

// codesFor drops the operations sets do not have.
func codesFor(kind, codes string) string {
	if !isSet(kind) {
		return codes
	}
	out := ""
	for _, c := range codes {
		if c == 'S' || c == 'D' || c == 'b' || c == 'a' || c == 'e' || c == 'n' {
			out += string(c)
		}
	}
	return out
}

var stdU = stdKeys(48)

func (u *Universe) knownCached() map[uintptr]uint64 {
	if u.kn == nil {
		u.kn = u.known()
	}
	return u.kn
}

// closureTask explores the state closure of kind under each pattern.
func closureTask(name, kind string, ps []*Pattern, codes string, two bool, orc Oracle) Task {
	return Task{Name: name, Run: func(c *Ctx) {
		cs := codesFor(kind, codes)
		for i, p := range ps {
			if c.late() {
				return
			}
			r := newRunner(c, kind, stdU, p, orc)
			c.note = kind + " " + p.String()
			alpha := alphabet(p.n(), cs, two && !isSet(kind))
			contents := 1 << p.n()
			if two && !isSet(kind) || hasCode(cs, 'N') {
				contents = 1
				for range p.Digits {
					contents *= 3
				}
			}
			st, ok := r.closure(alpha, 8*contents)
			if !ok {
				c.res.Capped = true
				c.outcome("closure capped")
			} else if st == contents || st < contents {
				c.outcome("one state per contents")
			} else {
				c.outcome("several states per contents")
			}
			if i == 0 {
				c.sample(fmt.Sprintf("closure of %s, %s, %d ops: %d states", kind, p, len(alpha), st))
			}
		}
	}}
}

func hasCode(s string, c byte) bool {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return true
		}
	}
	return false
}

// historyTask runs one long history per pattern.
func historyTask(name, kind string, ps []*Pattern, ops func(p *Pattern) []Op, full int, orc Oracle) Task {
	return Task{Name: name, Run: func(c *Ctx) {
		for i, p := range ps {
			if c.late() {
				return
			}
			r := newRunner(c, kind, stdU, p, orc)
			r.full = full
			o := ops(p)
			c.note = kind + " " + p.String()
			l := r.fresh()
			r.trace(nil)
			c.res.Traces++
			c.visit(kind+p.Name, p.n(), 0)
			for j := range o {
				if j&0xfff == 0xfff && c.late() {
					return
				}
				l.ops = o[:j+1]
				if f := catch(func() { l.do(o[j]) }); f != nil {
					r.report(o[:j+1], f)
				}
				c.visit(kind+p.Name, p.n(), l.mask)
			}
			delete(c.seen, kind+p.Name)
			if i == 0 {
				c.sample(fmt.Sprintf("%s, %s, history of %d operations", kind, p, len(o)))
			}
		}
	}}
}

// seqTask runs every operation sequence up to depth.
func seqTask(name, kind string, ps []*Pattern, codes string, depth int, orc Oracle) Task {
	return Task{Name: name, Run: func(c *Ctx) {
		cs := codesFor(kind, codes)
		for _, p := range ps {
			r := newRunner(c, kind, stdU, p, orc)
			c.note = kind + " " + p.String()
			seqs(p.n(), cs, depth, func(ops []Op) {
				if c.res.Capped {
					return
				}
				l := r.fresh()
				c.res.Traces++
				if c.res.Traces&0xff == 0 && c.late() {
					return
				}
				for i := range ops {
					l.ops = ops[:i+1]
					if f := catch(func() { l.do(ops[i]) }); f != nil {
						r.report(ops[:i+1], f)
					}
				}
				c.visit(kind+p.Name, p.n(), l.mask)
			})
		}
	}}
}

func chunks[T any](xs []T, n int) (r [][]T) {
	for len(xs) > n {
		r = append(r, xs[:n])
		xs = xs[n:]
	}
	if len(xs) > 0 {
		r = append(r, xs)
	}
	return
}

func collect(n int, levels []int) (r []*Pattern) {
	shapes(n, levels, func(p *Pattern) { r = append(r, p) })
	return
}
