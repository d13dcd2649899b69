package main

import (
	"fmt"
	"hash/maphash"
	"runtime"
)

// onFreshStack runs f on a goroutine of its own, which starts with a small stack.
func onFreshStack(f func()) {
	ch := make(chan any, 1)
	go func() {
		defer func() { ch <- recover() }()
		f()
	}()
	if r := <-ch; r != nil {
		panic(r)
	}
}

// growStack uses some 18 KB of stack; on a fresh goroutine (2 KB) the stack moves, and the
// memory of the old one is overwritten (build.sh switches the runtime's stackPoisonCopy on).
//
//go:noinline
func growStack(n int) byte {
	var b [1024]byte
	b[n] = byte(n)
	if n > 0 {
		b[n+1] = growStack(n - 1)
	}
	return b[n] + b[n+1]
}

// stackTask runs histories in the instrumented build; the stack of the goroutine moves
// at a single event of every operation, an event being a statement of the package, a
// call of a key method or of a callback; the whole history is repeated for each event.
func stackTask(name, kind string, ps []*Pattern, ops func(*Pattern) []Op) Task {
	return Task{Name: name, Run: func(c *Ctx) {
		if !instrumented {
			panic(harness{"stack moves need the instrumented build"})
		}
		defer func() {
			setPoint(nil)
			gkHook = nil
		}()
		for _, p := range ps {
			u := freshKeys(p.n())
			install(p, kind, u, 1)
			o := ops(p)
			most := 1
			events := map[[2]int]int{} // of a call: step, number
			for at := 0; at < most; at++ {
				if c.late() {
					return
				}
				maphash.VerifNextSeed = 1
				b := newBox[*[5]uint64](kind, u)
				want := make([]uint64, p.n())
				event := 0
				move := func() {
					if event == at {
						c.res.Points++
						growStack(17)
					}
					event++
				}
				for i, op := range o {
					k := int(op.K)
					c.note = fmt.Sprintf("%s, %s, the stack moves at event %d of step %d (%s)", kind, p, at, i, op)
					maphash.VerifSums, maphash.VerifLimit = 0, 20000
					v := uint64(i + 1)
					call := [2]int{i, 0}
					run := func(f func()) {
						call[1]++
						event = 0
						if at > 0 && events[call] <= at {
							f()
							return
						}
						onFreshStack(func() {
							setPoint(move)
							gkHook = move
							f()
							setPoint(nil)
							gkHook = nil
						})
						events[call] = event
						most = max(most, event)
						c.res.Transitions++
					}
					run(func() {
						switch op.C {
						case 'S':
							b.Set(k, newVal(v))
							want[k] = v
						case 'M':
							b.Mod(k, func(q **[5]uint64, ok bool) {
								move()
								if ok != (want[k] != 0) || ok && !goodVal(*q, want[k]) {
									failf("step %d, Mod(k%d) callback sees a wrong value", i, k)
								}
								*q = newVal(v)
							})
							want[k] = v
						case 'D':
							b.Del(k)
							want[k] = 0
						}
					})
					n := 0
					for k := range want {
						if want[k] != 0 {
							n++
						}
					}
					if b.Len() != uint(n) {
						failf("after step %d (%s), Len is %d, not %d", i, op, b.Len(), n)
					}
					seen := 0
					run(func() {
						b.All(func(k int, q **[5]uint64) bool {
							move()
							if k < 0 {
								failf("after step %d, a stored key is damaged", i)
							}
							if q != nil && !goodVal(*q, want[k]) {
								failf("after step %d, All: the value of k%d is damaged", i, k)
							}
							if want[k] == 0 {
								failf("after step %d, All: k%d is present", i, k)
							}
							seen++
							return true
						})
					})
					if seen != n {
						failf("after step %d (%s), All visits %d of %d entries", i, op, seen, n)
					}
					get := func() {
						q, ok := b.Get(k)
						if ok != (want[k] != 0) || ok && !isSet(kind) && !goodVal(q, want[k]) {
							failf("after step %d (%s), Get(k%d) is wrong: %v", i, op, k, ok)
						}
						if !isSet(kind) {
							r := b.Ptr(k)
							if (r != nil) != (want[k] != 0) || r != nil && !goodVal(*r, want[k]) {
								failf("after step %d (%s), Ptr(k%d) is wrong", i, op, k)
							}
							if w := b.Val(k); (w != nil) != (want[k] != 0) || w != nil && !goodVal(w, want[k]) {
								failf("after step %d (%s), Val(k%d) is wrong", i, op, k)
							}
						}
					}
					kk := k
					run(get)
					for k = range want { // without moves
						get()
					}
					k = kk
				}
				c.res.Traces++
				c.res.States += int64(len(o))
				runtime.KeepAlive(b)
			}
		}
		c.sample(c.note)
	}}
}

func stackTasks(thorough bool) (ts []Task) {
	ps := append(collect(2, pick(thorough, rng(0, 40), []int{0, 1, 16})), collect(3, pick(thorough, []int{0, 1, 2, 15, 16, 17}, []int{0, 16}))...)
	for _, k := range cat(mainMaps, mainSets, provMaps, provSets) {
		for i, ch := range chunks(ps, pick(thorough, 12, 4)) {
			ts = append(ts, stackTask(fmt.Sprintf("%s/stack/%d", k, i), k, ch, func(p *Pattern) []Op { return tour(p.n(), codesFor(k, "SMD")) }))
		}
		ts = append(ts, stackTask(k+"/stacklevel", k, []*Pattern{nodePattern(5, 1)}, func(p *Pattern) []Op { return cubeOps(euler(5), pick(isSet(k), "S", "SM")) }))
	}
	return
}
