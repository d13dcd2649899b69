package main

import (
	"fmt"
	"hash/maphash"
	"runtime"
)

// C23: the work an operation does.

// The work of an operation is counted in statements of the package executed. Limits
// are several times what the operations need; what matters is that they depend on the
// level of the key only.
const (
	workBase  = 250 // per operation: hashing, one level's slots moved, ...
	workLevel = 100 // per level
	workEntry = 40  // All: per entry or branch
)

type meter struct {
	b Box[int]
	n int
}

func (m *meter) count(f func()) int {
	m.n = 0
	setPoint(func() { m.n++ })
	defer setPoint(nil)
	f()
	setPoint(nil)
	return m.n
}

// workTask runs histories, counting the statements of each operation.
func workTask(name, kind string, ps []*Pattern, ops func(*Pattern) []Op) Task {
	return Task{Name: name, Run: func(c *Ctx) {
		if !instrumented {
			panic(harness{"counting statements needs the instrumented build"})
		}
		defer setPoint(nil)
		for i, p := range ps {
			if c.late() {
				return
			}
			r := newRunner(c, kind, stdU, p, 0)
			c.note = kind + ", work, " + p.String()
			set := isSet(kind)
			levels := func(k int, mask uint64) (d int) { // the deepest level k's digits lead to
				for j := 0; j < p.n(); j++ {
					if j != k && mask>>j&1 != 0 {
						d = max(d, p.common(k, j))
					}
				}
				return
			}
			o := ops(p)
			l := r.fresh()
			c.res.Traces++
			m := &meter{}
			f := catch(func() {
				for j, op := range o {
					k := int(op.K)
					l.ops = o[:j+1]
					d := levels(k, l.mask)
					limit := workBase + workLevel*(d+1)
					got := m.count(func() { l.do(op) })
					if got > limit {
						failf("after step %d: %s executes %d statements; the key's level is %d of %d entries", j+1, op, got, d, popcount(l.mask))
					}
					reads := []func(){func() { l.b.Get(k) }}
					if !set {
						reads = append(reads, func() { l.b.Val(k) }, func() { l.b.Ptr(k) })
					}
					for _, f := range reads {
						if got := m.count(f); got > limit {
							failf("after step %d: looking up k%d executes %d statements; the key's level is %d of %d entries", j+1, k, got, d, popcount(l.mask))
						}
					}
					if got := m.count(func() { l.b.Len(); l.b.Dep(); l.b.Nil() }); got > 100 {
						failf("after step %d: Len, Dep and Nil execute %d statements, with %d entries", j+1, got, popcount(l.mask))
					}
					nodes := p.linkBytes(l.mask)/64 + popcount(l.mask)
					if got := m.count(func() { l.b.All(func(int, *int) bool { return true }) }); got > 100+workEntry*nodes {
						failf("after step %d: All executes %d statements for %d entries and branches", j+1, got, nodes)
					}
					c.visit(kind+p.Name, min(p.n(), 24), l.mask)
				}
			})
			if f != nil {
				f.Scenario, f.Confirmed = r.describe(l.ops), 1
				c.fail(f)
			}
			delete(c.seen, kind+p.Name)
			if i == 0 {
				c.sample(fmt.Sprintf("%s, %s, history of %d operations, statements counted", kind, p, len(o)))
			}
		}
	}}
}

// allocated is the number of bytes f allocates.
func allocated(f func()) uint64 {
	var s runtime.MemStats
	runtime.ReadMemStats(&s)
	n := s.TotalAlloc
	f()
	runtime.ReadMemStats(&s)
	return s.TotalAlloc - n
}

// workScaleTask fills a container with well-mixed keys and empties it.
func workScaleTask(kind string, n int) Task {
	return Task{Name: kind + "/scale", Run: func(c *Ctx) {
		if !instrumented {
			panic(harness{"counting statements needs the instrumented build"})
		}
		defer setPoint(nil)
		u := bigKeys(n)
		u.encoding(kind, 0)
		deep := installDeep(kind, u)
		maphash.VerifNextSeed = 1
		b := newBox[int](kind, u)
		m := &meter{}
		c.note = fmt.Sprintf("%s with up to %d keys, well-mixed hashes but for %d keys that share long prefixes", kind, n, len(deep))
		limit := workBase + 12*workLevel
		perm := func(i, mul int) int { return int(uint64(i) * uint64(mul) % uint64(n)) }
		check := func(what string, k int, f func()) {
			c.res.Transitions++
			limit := limit
			if _, ok := deep[k]; ok {
				limit += 32 * workLevel
			}
			if c.res.Transitions%61 == 0 {
				// what library functions do is not counted; at least bound the memory they allocate
				bytes := allocated(func() {
					if got := m.count(f); got > limit {
						failf("%s k%d executes %d statements, with %d entries", what, k, got, b.Len())
					}
				})
				if bytes > uint64(4096+8*limit) {
					failf("%s k%d allocates %d bytes, with %d entries", what, k, bytes, b.Len())
				}
				return
			}
			if got := m.count(f); got > limit {
				failf("%s k%d executes %d statements, with %d entries", what, k, got, b.Len())
			}
		}
		f := catch(func() {
			for i := 0; i < n; i++ {
				k := perm(i, 7919)
				if i%2 == 0 || isSet(kind) {
					check("Set", k, func() { b.Set(k, 1) })
				} else {
					check("Mod", k, func() { b.Mod(k, func(q *int, _ bool) { *q = 1 }) })
				}
				check("Get", k, func() { b.Get(k) })
				check("Len, Dep, Nil after Set", k, func() { b.Len(); b.Dep(); b.Nil() })
				check("overwriting", perm(i/2, 7919), func() { b.Set(perm(i/2, 7919), 2) })
				if i&0xfff == 0 && c.late() {
					return
				}
			}
			if got := m.count(func() { b.All(func(int, *int) bool { return true }) }); got > 100+2*workEntry*n {
				failf("All executes %d statements for %d entries", got, n)
			}
			if got := m.count(func() { b.All(func(int, *int) bool { return false }) }); got > limit {
				failf("All stopped at once executes %d statements, with %d entries", got, n)
			}
			if got := allocated(func() { b.All(func(int, *int) bool { return false }) }); got > uint64(4096+8*limit) {
				failf("All stopped at once allocates %d bytes, with %d entries", got, n)
			}
			if got := allocated(func() { b.All(func(int, *int) bool { return true }) }); got > uint64(4096+256*n) {
				failf("All allocates %d bytes, with %d entries", got, n)
			}
			for i := 0; i < n; i++ {
				k := perm(i, 104729)
				check("Get", k, func() { b.Get(k) })
				check("Del", k, func() { b.Del(k) })
				check("Get of a missing key", k, func() { b.Get(k) })
				check("Del of a missing key", k, func() { b.Del(k) })
			}
		})
		c.res.Traces++
		c.res.States += int64(2 * n)
		if f != nil {
			f.Scenario, f.Confirmed = c.note, 1
			c.fail(f)
		}
		c.sample(c.note + ", statements counted")
	}}
}

func workTasks(stage, tier string) (ts []Task) {
	thorough := tier == "thorough"
	kinds := cat(mainMaps, mainSets)
	switch stage {
	case "tours":
		ps := collect(2, append(rng(0, 40), 47, 48, 63, 64, 79, 80, 100, 127, 128, 160, 192, 200, 239))
		ps = append(ps, collect(3, pick(thorough, levels40, []int{0, 1, 2, 11, 12, 15, 16, 17, 31, 32, 33, 40}))...)
		if thorough {
			ps = append(ps, collect(4, []int{0, 1, 15, 16, 17, 32})...)
		}
		for _, k := range kinds {
			for i, ch := range chunks(ps, 200) {
				ts = append(ts, workTask(fmt.Sprintf("%s/tours/%d", k, i), k, ch, func(p *Pattern) []Op { return tour(p.n(), codesFor(k, "SMD")) }))
			}
		}
	case "level":
		ps := []*Pattern{nodePattern(10, 0), nodePattern(10, 1), nodePattern(10, 17), pairPattern(10, 0, 1), pairPattern(10, 14, 3), chainPattern(10, 0, 1), chainPattern(10, 12, 1)}
		var fs []*Pattern
		for _, l := range []int{0, 1, 2, 12, 15, 16, 33} {
			fs = append(fs, nodePattern(16, l), mixedPattern(l, 1), mixedPattern(l, 2))
		}
		for _, k := range kinds {
			in := pick(isSet(k), "S", "SM")
			ts = append(ts, workTask(k+"/euler", k, ps, func(p *Pattern) []Op { return cubeOps(euler(p.n()), in) }),
				workTask(k+"/fill", k, fs, func(p *Pattern) []Op { return fillOps(p.n(), in) }))
			for i, ch := range chunks(branchPatterns(thorough), 48) {
				ts = append(ts, workTask(fmt.Sprintf("%s/branch/%d", k, i), k, ch, branchTour(in)))
			}
		}
	case "scale":
		for _, k := range kinds {
			ts = append(ts, workScaleTask(k, pick(thorough, 200003, 20011)))
		}
	}
	return
}

func init() {
	props["C23"] = &propDef{stages: stages("instr", "tours", "level", "scale"), tasks: workTasks, text: textOf(map[string]string{
		"tours": "every operation in every contents of 2 and 3 keys in many trie shapes (levels up to 239), statements of the package counted",
		"level": "every insertion and deletion in every contents of 10 keys on one level, in pairs and in chains; trie levels filled and emptied at every rank; " + branchText,
		"scale": "one long history per kind with well-mixed hashes: 20011 (thorough 200003) entries, then deletion of all; the bytes every 61st operation allocates are bounded likewise",
	}), assume: []string{"work is counted in statements of package amt; a call of a library function counts as one"}}
}
