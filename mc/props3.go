package main

import (
	"fmt"
	"hash/maphash"
	"runtime"
	"strings"
	"sync"
)

// C12: concurrent readers.

type reading [6]int64

type readOp struct {
	name string
	run  func(b Box[int]) reading
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

// readMenu lists read-only operations over the keys ks.
func readMenu(set bool, ks []int) (r []readOp) {
	for _, k := range ks {
		k := k
		r = append(r, readOp{fmt.Sprintf("Get/Has k%d", k), func(b Box[int]) reading {
			v, ok := b.Get(k)
			return reading{int64(v), b2i(ok)}
		}})
		if !set {
			r = append(r, readOp{fmt.Sprintf("Ptr k%d", k), func(b Box[int]) reading {
				if p := b.Ptr(k); p != nil {
					return reading{int64(*p), 1}
				}
				return reading{}
			}})
		}
	}
	if !set {
		k := ks[0]
		r = append(r, readOp{fmt.Sprintf("Val k%d", k), func(b Box[int]) reading { return reading{int64(b.Val(k))} }})
	}
	r = append(r,
		readOp{"Len, Dep, Nil", func(b Box[int]) reading {
			return reading{int64(b.Len()), int64(b.Dep() * 1e9), b2i(b.Nil())}
		}},
		readOp{"All", func(b Box[int]) reading {
			x := reading{1}
			b.All(func(k int, v *int) bool {
				x[0] = x[0]*31 + int64(k)
				if v != nil {
					x[1] = x[1]*31 + int64(*v)
				}
				x[2]++
				return true
			})
			return x
		}},
		readOp{"All, stopped after 2", func(b Box[int]) reading {
			x := reading{1}
			b.All(func(k int, v *int) bool {
				x[0] = x[0]*31 + int64(k)
				x[2]++
				return x[2] < 2
			})
			return x
		}},
		readOp{"All with Get inside", func(b Box[int]) reading {
			x := reading{1}
			b.All(func(k int, v *int) bool {
				w, ok := b.Get(k)
				x[0] = x[0]*31 + int64(k)
				x[1] = x[1]*31 + int64(w)
				x[2] += b2i(ok)
				return true
			})
			return x
		}})
	return
}

// readerScene is a container with entries at several depths: k0 and k1 share 3 digits,
// k2 is alone, k3 (absent) shares a digit with k2, k4 (absent) shares none; deep:
// k0 and k1 share a whole hash.
func readerScene(deep bool) *Pattern {
	n := pick(deep, 17, 3)
	ds := make([][]byte, 5)
	for k := range ds {
		if k < 2 {
			for i := 0; i < n; i++ {
				ds[k] = append(ds[k], 4)
			}
			ds[k] = append(ds[k], byte(7+k))
		} else {
			ds[k] = []byte{[]byte{0, 0, 9, 9, 15}[k], byte(k)}
		}
	}
	return finish(pick(deep, "readers-deep", "readers"), ds)
}

func fill(kind string, u *Universe, mask uint64) Box[int] {
	b := newBox[int](kind, u)
	for k := 0; k < 64; k++ {
		if mask>>k&1 != 0 {
			b.Set(k, 100+k)
		}
	}
	return b
}

func readersTasks(stage, tier string) (ts []Task) {
	thorough := tier == "thorough"
	for _, kind := range cat(mainMaps, mainSets, typedKinds("wide", "refs"), crowdKinds(300, mainMaps...), crowdKinds(300, mainSets...), crowdKinds(5000, mainMaps...), crowdKinds(5000, mainSets...)) {
		set, typed := isSet(kind), strings.Contains(kind, "/")
		if typed && stage == "schedules" {
			continue
		}
		menu := readMenu(set, []int{0, 2, 3, 4})
		const mask = 0b111
		setup := func(p *Pattern) func() Box[int] {
			install(p, kind, stdU, 1)
			return func() Box[int] {
				maphash.VerifLimit = 0
				maphash.VerifNextSeed = 1
				return fill(kind, stdU, mask)
			}
		}
		switch stage {
		case "pure":
			// readers leave the implementation's state exactly as it was
			ts = append(ts, Task{Name: kind + "/pure", Run: func(c *Ctx) {
				sn := &snapper{known: stdU.knownCached()}
				ps := collect(3, pick(thorough, levels40, pick(typed, []int{0, 15, 16}, []int{0, 1, 2, 11, 12, 15, 16, 17, 31, 32})))
				if strings.HasSuffix(kind, "/5000") {
					ps = collect(2, []int{16})
				}
				if !typed {
					ps = append(ps, nodePattern(8, 0), nodePattern(8, 1), chainPattern(8, 0, 1), pairPattern(8, 15, 1))
				}
				for _, p := range ps {
					install(p, kind, stdU, 1)
					ks := make([]int, p.n())
					for i := range ks {
						ks[i] = i
					}
					m := readMenu(set, ks)
					for mask := uint64(0); mask < 1<<p.n(); mask++ {
						maphash.VerifNextSeed = 1
						b := fill(kind, stdU, mask)
						c.res.Traces++
						c.res.States++
						before := b.Snap(sn)
						for _, o := range m {
							a := o.run(b)
							if b.Snap(sn) != before {
								failf("%s on %s (keys present %b, %s) modifies the container", o.name, kind, mask, p)
							}
							if z := o.run(b); z != a {
								failf("%s on %s (keys present %b, %s) gives a different answer the second time", o.name, kind, mask, p)
							}
							c.res.Transitions += 2
						}
					}
					if c.late() {
						return
					}
				}
			}})
		case "schedules":
			for di, deep := range []bool{false, true} {
				p := readerScene(deep)
				ts = append(ts, Task{Name: fmt.Sprintf("%s/pairs%d", kind, di), Run: func(c *Ctx) {
					mk := setup(p)
					for i, a := range menu {
						for _, b := range menu[i:] {
							c.readers(fmt.Sprintf("%s, %s: %s || %s", kind, p, a.name, b.name), pick(thorough, 3, 2), mk, a, b)
						}
					}
				}})
			}
			ts = append(ts, Task{Name: kind + "/triples", Run: func(c *Ctx) {
				p := readerScene(false)
				mk := setup(p)
				for i, a := range menu {
					b, d := menu[(i+1)%len(menu)], menu[(i+3)%len(menu)]
					c.readers(fmt.Sprintf("%s, %s: %s || %s || %s", kind, p, a.name, b.name, d.name), pick(thorough, 2, 1), mk, a, b, d)
				}
			}})
		case "race":
			ts = append(ts, Task{Name: kind + "/contents", Run: func(c *Ctx) {
				c.note = kind + ": free-running readers under the race detector"
				ps := collect(3, pick(thorough, levels40, pick(typed, []int{0, 16}, []int{0, 1, 2, 12, 15, 16, 17})))
				if strings.HasSuffix(kind, "/5000") {
					ps = collect(2, []int{16})
				}
				if !typed {
					ps = append(ps, nodePattern(8, 0), nodePattern(6, 1), chainPattern(6, 0, 1), chainPattern(6, 10, 2), pairPattern(6, 15, 1))
				}
				for _, p := range ps {
					install(p, kind, stdU, 1)
					ks := make([]int, p.n())
					for i := range ks {
						ks[i] = i
					}
					m := readMenu(set, ks)
					for mask := uint64(0); mask < 1<<p.n(); mask++ {
						maphash.VerifNextSeed, maphash.VerifLimit = 1, 0
						b := fill(kind, stdU, mask)
						c.res.States++
						parallel(2, func(g int) {
							for i := range m {
								m[(i*[]int{1, len(m) - 1}[g]+g*3)%len(m)].run(b)
							}
						})
						c.res.Transitions += int64(2 * len(m))
						c.res.Traces++
					}
					if c.late() {
						return
					}
				}
				c.sample(c.note)
			}})
			for di, deep := range []bool{false, true} {
				p := readerScene(deep)
				ts = append(ts, Task{Name: fmt.Sprintf("%s/race%d", kind, di), Run: func(c *Ctx) {
					mk := setup(p)
					c.note = kind + ": free-running readers under the race detector"
					for round := 0; round < pick(thorough, 200, 20); round++ {
						b := mk()
						var want []reading
						for _, o := range menu {
							want = append(want, o.run(b))
						}
						b = mk()
						parallel(4, func(g int) {
							for i := range menu {
								j := (i*[]int{1, len(menu) - 1, 1, len(menu) - 1}[g] + g*3) % len(menu)
								if got := menu[j].run(b); got != want[j] {
									failf("%s: %v beside other readers, %v alone", menu[j].name, got, want[j])
								}
							}
						})
						c.res.Transitions += int64(4 * len(menu))
						c.res.Traces++
					}
					c.res.States++
				}})
			}
		}
	}
	return
}

// parallel runs n free-running goroutines.
func parallel(n int, f func(g int)) {
	var wg sync.WaitGroup
	fails := make([]*Failure, n)
	start := make(chan struct{})
	for g := 0; g < n; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			fails[g] = catch(func() { f(g) })
		}()
	}
	close(start)
	wg.Wait()
	for _, f := range fails {
		if f != nil {
			failf("%s\n%s", f.Msg, f.Stack)
		}
	}
}

func (c *Ctx) readers(name string, bound int, mk func() Box[int], ops ...readOp) {
	if c.res.Capped {
		return
	}
	var want []reading
	for _, o := range ops {
		want = append(want, o.run(mk()))
	}
	sn := &snapper{known: stdU.knownCached()}
	c.exploreSchedules(name, bound, pick(c.Tier == "thorough", 1e6, 6000.0), func() Harness {
		b := mk()
		var before [2]uint64
		snap := c.res.Traces%16 == 1
		if snap {
			before = b.Snap(sn)
		}
		var h Harness
		for i, o := range ops {
			h.Bodies = append(h.Bodies, func() {
				if got := o.run(b); got != want[i] {
					failf("%s gives %v beside other readers, %v alone", o.name, got, want[i])
				}
			})
		}
		h.After = func() {
			if snap && b.Snap(sn) != before {
				failf("readers modified the container")
			}
			for i, o := range ops {
				if got := o.run(b); got != want[i] {
					failf("after concurrent readers, %s gives %v, not %v", o.name, got, want[i])
				}
			}
		}
		return h
	})
}

// C13: distinct containers.

// script is a sequence of operations on one container with its expected outcome.
func runScript(l *live, ops []Op) {
	for i := range ops {
		l.ops = ops[:i+1]
		l.do(ops[i])
	}
}

// schedRunner is a Runner that leaves the shared stub state alone.
func quietRunner(c *Ctx, kind string, u *Universe, p *Pattern, orc Oracle) *Runner {
	r := &Runner{c: c, kind: kind, set: isSet(kind), u: u, p: p, orc: orc, quiet: true}
	r.dep = map[uint64]float64{} // complete, as it may be shared
	for m := uint64(0); m < 1<<p.n(); m++ {
		r.dep[m] = p.meanDepth(m)
	}
	return r
}

var duoOps = []string{"SSDS", "SMDD", "MSbD"}

func duoScript(set bool, v int) (ops []Op) {
	for i, c := range duoOps[v%len(duoOps)] {
		if set && c == 'M' {
			c = 'S'
		}
		ops = append(ops, Op{C: byte(c), K: uint8([]int{0, 1, 0, 1}[i])})
	}
	return
}

func independenceTasks(stage, tier string) (ts []Task) {
	thorough := tier == "thorough"
	kinds := cat(mainMaps, mainSets)
	orc := oLook | oLen | oDep | oAll
	p2 := collect(2, []int{1})[0]
	p16 := collect(2, []int{16})[0]
	seed := func(kind1, kind2 string, p *Pattern) {
		maphash.VerifTables = nil
		addTable(p, kind1, stdU, 1)
		addTable(p, kind2, stdU, 2)
	}
	switch stage {
	case "alternate":
		// every interleaving of operations on two containers in one goroutine
		for _, k1 := range kinds {
			for _, k2 := range kinds {
				k1, k2 := k1, k2
				ts = append(ts, Task{Name: k1 + "+" + k2, Run: func(c *Ctx) {
					for _, p := range []*Pattern{p2, p16} {
						seed(k1, k2, p)
						r1, r2 := quietRunner(c, k1, stdU, p, orc), quietRunner(c, k2, stdU, p, orc)
						a1, a2 := alphabet(2, codesFor(k1, "SMD"), false), alphabet(2, codesFor(k2, "SMD"), false)
						snA, snB := &snapper{known: stdU.knownCached()}, &snapper{known: stdU.knownCached()}
						d := pick(thorough, 5, 3)
						idxSeqs(len(a1)+len(a2), d, func(idx []int) {
							if c.res.Traces&0xff == 0 && c.late() || c.res.Capped {
								return
							}
							maphash.VerifNextSeed = 1
							la, lb := r1.freshQuiet(), r2.freshQuiet()
							c.res.Traces++
							c.note = k1 + " (A) and " + k2 + " (B), " + p.String() + ":"
							for _, a := range idx {
								l, o, other, sn, n := la, Op{}, lb, snB, "A"
								if a < len(a1) {
									o = a1[a]
								} else {
									l, o, other, sn, n = lb, a2[a-len(a1)], la, snA, "B"
								}
								c.note += fmt.Sprintf(" %s.%s", n, o)
								before := other.b.Snap(sn)
								l.do(o)
								if other.b.Snap(sn) != before {
									failf("an operation on one container changed the memory of the other")
								}
								other.check(false)
								c.res.States++
							}
						})
					}
					c.sample(c.note)
				}})
			}
		}
	case "many":
		for _, k := range cat(kinds, []string{"all kinds"}) {
			ts = append(ts, Task{Name: k, Run: func(c *Ctx) {
				c.crowdOfContainers(pick(k == "all kinds", kinds, []string{k}), pick(thorough, 1500, 300))
			}})
		}
	case "nested":
		// operations on one container inside the callbacks of another
		for _, k1 := range kinds {
			for _, k2 := range kinds {
				k1, k2 := k1, k2
				ts = append(ts, Task{Name: k1 + ">" + k2, Run: func(c *Ctx) {
					for _, p := range []*Pattern{p2, p16} {
						seed(k1, k2, p)
						r1, r2 := quietRunner(c, k1, stdU, p, orc), quietRunner(c, k2, stdU, p, orc)
						a2 := alphabet(2, codesFor(k2, "SMD"), false)
						for m1 := uint64(0); m1 < 4; m1++ {
							for m2 := uint64(0); m2 < 4; m2++ {
								idxSeqs(len(a2), 2, func(idx []int) {
									for outer := 0; outer < 3; outer++ {
										maphash.VerifNextSeed = 1
										la, lb := r1.freshQuiet(), r2.freshQuiet()
										la.fill(m1)
										lb.fill(m2)
										c.res.Traces++
										c.note = fmt.Sprintf("%s with contents %b, %s with contents %b, outer %d, inner %s, %s", k1, m1, k2, m2, outer, a2[idx[0]], a2[idx[1]])
										inner := func() {
											for _, a := range idx {
												lb.do(a2[a])
											}
										}
										if outer == 2 {
											n := 0
											la.b.All(func(int, *int) bool {
												if n++; n == 1 {
													inner()
												}
												return true
											})
											if n != popcount(m1) {
												failf("All made %d calls for %d entries while another container changed", n, popcount(m1))
											}
										} else if !r1.set {
											la.b.Mod(outer, func(v *int, ok bool) {
												if ok != (m1>>outer&1 != 0) {
													failf("Mod callback told %v", ok)
												}
												inner()
												*v = 4242
											})
											la.mask |= 1 << outer
											la.vals[outer] = 4242
										}
										la.check(false)
										lb.check(false)
										c.res.Transitions += 3
										c.res.States++
									}
								})
								if c.late() {
									return
								}
							}
						}
					}
					c.sample(c.note)
				}})
			}
		}
	case "schedules":
		for i, k1 := range kinds {
			for j, k2 := range kinds {
				if j < i {
					continue
				}
				k1, k2 := k1, k2
				same := i == j
				ts = append(ts, Task{Name: k1 + "||" + k2, Run: func(c *Ctx) {
					for v := 0; v < len(duoOps); v++ {
						p := p2
						if v == 1 {
							p = p16
						}
						if !thorough && !same && v > 0 {
							break
						}
						bound := 1
						if same && v == 0 || thorough {
							bound = 2
						}
						seed(k1, k2, p)
						r1, r2 := quietRunner(c, k1, stdU, p, 0), quietRunner(c, k2, stdU, p, 0)
						s1, s2 := duoScript(r1.set, v), duoScript(r2.set, v)
						if thorough && p == p16 || bound == 2 {
							s1, s2 = s1[:3], s2[:3]
						}
						c.exploreSchedules(fmt.Sprintf("%s: %v || %s: %v (separate containers, %s)", k1, s1, k2, s2, p), bound, pick(thorough, 3e5, 4e4), func() Harness {
							maphash.VerifNextSeed = 1
							la, lb := r1.freshQuiet(), r2.freshQuiet()
							return Harness{
								Bodies: []func(){func() { runScript(la, s1) }, func() { runScript(lb, s2) }},
								After: func() {
									for _, l := range []*live{la, lb} {
										q := *l.r
										q.orc = orc
										l.r = &q
										l.check(false)
									}
								},
							}
						})
					}
				}})
			}
		}
	case "race":
		for _, k1 := range cat(kinds, typedKinds("wide", "refs"), crowdKinds(300, kinds...)) {
			ts = append(ts, Task{Name: k1 + "/race", Run: func(c *Ctx) {
				c.note = k1 + " beside every kind, free-running under the race detector"
				for _, k2 := range pick(strings.Contains(k1, "/"), []string{k1}, kinds) {
					p := p2
					maphash.VerifTables = nil
					for s := 1; s <= 4; s++ {
						addTable(p, pick(s%2 == 1, k1, k2), stdU, s)
					}
					maphash.VerifLimit = 0
					for round := 0; round < pick(thorough, 40, 6); round++ {
						maphash.VerifNextSeed = 1
						var ls []*live
						cs := make([]Ctx, 4)
						for g := 0; g < 4; g++ {
							ls = append(ls, quietRunner(&cs[g], pick(g%2 == 0, k1, k2), stdU, p, orc).freshQuiet())
						}
						parallel(4, func(g int) {
							for v := range duoOps {
								runScript(ls[g], duoScript(ls[g].r.set, v+g))
							}
							// a container made, used and dropped beside the others
							b := newBox[int](ls[g].r.kind, stdU)
							b.Set(3, 1)
							b.Get(3)
							b.Del(3)
						})
						for g := range cs {
							c.res.Transitions += cs[g].res.Transitions
						}
						c.res.Traces += 4
					}
					c.res.States++
				}
				runtime.Gosched()
			}})
		}
	}
	return
}

// crowdOfContainers goes through the contents of n containers of the kinds, all in
// step, each a little different; after an operation on one, all are checked now and
// then, and its neighbours always.
func (c *Ctx) crowdOfContainers(kinds []string, n int) {
	c.note = fmt.Sprintf("%d containers, %s", n, strings.Join(kinds, ", "))
	for _, p := range collect(3, []int{0, 1, 16}) {
		if c.late() {
			return
		}
		maphash.VerifTables, maphash.VerifLimit = nil, 0
		rs := make([]*Runner, len(kinds))
		for i, k := range kinds {
			install(p, k, stdU)
			rs[i] = quietRunner(c, k, stdU, p, oLook|oLen|oAll)
		}
		maphash.VerifNextSeed = 1
		for i := 0; i < n; i++ {
			addTable(p, kinds[i%len(kinds)], stdU, i+1)
		}
		f := catch(func() {
			ls := make([]*live, n)
			for i := range ls {
				ls[i] = rs[i%len(kinds)].freshQuiet()
			}
			c.res.Traces++
			for step, o := range tour(p.n(), "SD") {
				for i, l := range ls {
					op := o
					if step%3 == 0 && i%3 != 0 {
						op.K = uint8((int(o.K) + i) % p.n())
						op.C = "SD"[i/3%2]
					}
					l.do(op)
					for j := max(0, i-2); j < min(n, i+3); j++ {
						ls[j].check(false)
					}
					c.res.States++
				}
				for _, l := range ls {
					l.check(false)
				}
			}
		})
		if f != nil {
			f.Scenario, f.Confirmed = c.note+", "+p.String(), 1
			c.fail(f)
		}
	}
	c.sample(c.note)
}

// freshQuiet is fresh without touching the stub's shared counters.
func (r *Runner) freshQuiet() *live {
	n := r.p.n()
	return &live{r: r, b: newBox[int](r.kind, r.u), vals: make([]int, n)}
}

func (l *live) fill(mask uint64) {
	for k := 0; k < l.r.p.n(); k++ {
		if mask>>k&1 != 0 {
			l.b.Set(k, 300+k)
			l.vals[k] = 300 + k
		}
	}
	l.mask = mask
}
