package main

import (
	"fmt"
	"hash/maphash"
	"strings"
)

// C24: concurrent updates through the value pointers of different keys.

type wide [3]int64

func wideOf(x int64) wide { return wide{x, ^x, x * 3} }

func (w *wide) good() bool { return *w == wideOf(w[0]) }

// point is a scheduling point of the checker's own code.
func point() {
	if s := current; s != nil {
		s.point()
	}
}

// put writes x word by word, with scheduling points in between.
func (w *wide) put(x int64) {
	for i, v := range wideOf(x) {
		w[i] = v
		point()
	}
}

// writerOps are things a thread may do with the value of its own key k: no operation
// looks at the value of another key that some thread writes.
type updateOp struct {
	name string
	run  func(b Box[wide], k int, held *wide, x int64) int64
}

var updateOps = []updateOp{
	{"write through a held pointer", func(b Box[wide], k int, held *wide, x int64) int64 {
		held.put(x)
		v, ok := b.Get(k)
		if !ok || v != wideOf(x) {
			failf("k%d is %v, %v after a write of %d by the only thread that uses it", k, v, ok, x)
		}
		return v[0]
	}},
	{"write through Ptr", func(b Box[wide], k int, held *wide, x int64) int64 {
		p := b.Ptr(k)
		if p != held {
			failf("Ptr(k%d) changed", k)
		}
		p.put(x)
		if !p.good() || p[0] != x {
			failf("k%d is %v after a write of %d by the only thread that uses it", k, *p, x)
		}
		return p[0]
	}},
	{"write inside All", func(b Box[wide], k int, held *wide, x int64) int64 {
		b.All(func(j int, p *wide) bool {
			if j == k {
				p.put(x)
			}
			return true
		})
		return b.Val(k)[0]
	}},
	{"write inside Mod", func(b Box[wide], k int, held *wide, x int64) int64 {
		calls := 0
		b.Mod(k, func(p *wide, ok bool) {
			calls++
			if p != held || !ok {
				failf("Mod(k%d) does not hand out the pointer of the present value", k)
			}
			p.put(x)
		})
		if v := *held; calls != 1 || v != wideOf(x) {
			failf("k%d is %v after one Mod to %d (%d calls) by the only thread that uses it", k, v, x, calls)
		}
		return x
	}},
	{"Set", func(b Box[wide], k int, held *wide, x int64) int64 {
		b.Set(k, wideOf(x))
		v, ok := b.Get(k)
		if !ok || v != wideOf(x) || *held != v || b.Ptr(k) != held {
			failf("k%d is %v, %v after a Set to %d by the only thread that uses it (or its pointer changed)", k, v, ok, x)
		}
		return v[0]
	}},
	{"read", func(b Box[wide], k int, held *wide, x int64) int64 {
		v, ok := b.Get(k)
		if w := b.Val(k); !ok || w != v || *b.Ptr(k) != v || b.Len() == 0 {
			failf("k%d is %v, %v, %v", k, v, ok, w)
		}
		return v[0]
	}},
}

const onlyRead = 5 // "read" in updateOps

func updateTasks(stage, tier string) (ts []Task) {
	thorough := tier == "thorough"
	for _, kind := range cat(mainMaps, crowdKinds(300, mainMaps...)) {
		prepare := func(p *Pattern, mask uint64) (Box[wide], []*wide) {
			maphash.VerifLimit = 0
			maphash.VerifNextSeed = 1
			b := newBox[wide](kind, stdU)
			held := make([]*wide, p.n())
			for k := range held {
				if mask>>k&1 != 0 {
					b.Set(k, wideOf(int64(100+k)))
				}
			}
			for k := range held {
				if mask>>k&1 != 0 {
					held[k] = b.Ptr(k)
				}
			}
			return b, held
		}
		final := func(b Box[wide], p *Pattern, mask uint64, want map[int]int64) {
			n := 0
			b.All(func(k int, v *wide) bool {
				n++
				x, ok := want[k]
				if !ok {
					x = int64(100 + k)
				}
				if *v != wideOf(x) {
					failf("afterwards k%d is %v, not %v", k, *v, wideOf(x))
				}
				return true
			})
			if n != popcount(mask) || int(b.Len()) != n {
				failf("afterwards %d entries, Len %d, not %d", n, b.Len(), popcount(mask))
			}
		}
		switch stage {
		case "schedules":
			if strings.Contains(kind, "/") {
				continue
			}
			ps := []*Pattern{collect(3, []int{0})[0], readerScene(true)}
			ps = append(ps, collect(3, []int{1})...)
			if thorough {
				ps = append(ps, collect(3, []int{2, 15, 16})...)
			}
			for pi, p := range ps {
				ts = append(ts, Task{Name: fmt.Sprintf("%s/sched%d", kind, pi), Run: func(c *Ctx) {
					install(p, kind, stdU, 1)
					for i, a := range updateOps {
						for j, o := range updateOps {
							if i == onlyRead && j == onlyRead {
								continue
							}
							name := fmt.Sprintf("%s, %s: %s of k0 || %s of k1", kind, p, a.name, o.name)
							c.exploreSchedules(name, pick(thorough, 3, 2), pick(thorough, 1e6, 3000.0), func() Harness {
								b, held := prepare(p, 0b111)
								return Harness{Bodies: []func(){
									func() { a.run(b, 0, held[0], 7) },
									func() { o.run(b, 1, held[1], 8) },
								}, After: func() {
									want := map[int]int64{0: 7, 1: 8}
									if i == onlyRead {
										delete(want, 0)
									}
									if j == onlyRead {
										delete(want, 1)
									}
									final(b, p, 0b111, want)
								}}
							})
							if c.late() {
								return
							}
						}
					}
				}})
			}
		case "race":
			ps := collect(3, pick(thorough, levels40, []int{0, 1, 2, 11, 12, 15, 16, 17}))
			ps = append(ps, nodePattern(8, 0), nodePattern(8, 1), chainPattern(6, 0, 1), pairPattern(8, 15, 1))
			if strings.Contains(kind, "/") {
				ps = append(collect(3, []int{0, 1, 16}), nodePattern(8, 0))
			}
			ts = append(ts, Task{Name: kind + "/race", Run: func(c *Ctx) {
				c.note = kind + ": free-running updates of different keys under the race detector"
				for _, p := range ps {
					install(p, kind, stdU, 1)
					full := uint64(1)<<p.n() - 1
					for v := range updateOps {
						if c.late() {
							return
						}
						b, held := prepare(p, full)
						parallel(min(p.n(), 4), func(g int) {
							for i := range updateOps {
								updateOps[(i+v*g)%len(updateOps)].run(b, g, held[g], int64(g*10+i))
							}
						})
						final(b, p, full, finalRace(p, v))
						c.res.Transitions += int64(len(updateOps) * min(p.n(), 4))
						c.res.Traces++
					}
					c.res.States++
				}
				c.sample(c.note)
			}})
		}
	}
	return
}

// finalRace is what the race stage leaves: per goroutine its last write.
func finalRace(p *Pattern, v int) map[int]int64 {
	want := map[int]int64{}
	for g := 0; g < min(p.n(), 4); g++ {
		for i := range updateOps {
			if (i+v*g)%len(updateOps) != onlyRead {
				want[g] = int64(g*10 + i)
			}
		}
	}
	return want
}

func init() {
	props["C24"] = &propDef{stages: func(string) []Stage {
		return []Stage{{Name: "schedules", Bin: "instr"},
			{Name: "race", Bin: "race", Par: 3, Env: []string{"GOMAXPROCS=4", "GORACE=halt_on_error=1"}}}
	}, tasks: updateTasks, text: textOf(map[string]string{
		"schedules": "two threads that update and read the values of two different keys through held pointers, Ptr, Mod, All and Set, three entries in several trie shapes, every schedule with at most 2 (thorough: 3) preemptions before any statement of the package or between the words of a value",
		"race":      "the same on up to 4 free-running goroutines under the race detector, in many trie shapes, and beside 300 further entries",
	})}
}
