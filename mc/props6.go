package main

import (
	"fmt"
	"hash/maphash"
	"runtime"
)

// C21: memory footprint.

// linkBytes is the memory the trie levels below the root need for the keys of mask:
// 16 bytes per slot, in arrays of 4, 8, 12 or 16.
func (p *Pattern) linkBytes(mask uint64) (sum int) {
	ks := p.sorted(mask)
	var walk func(ks []int, level int)
	walk = func(ks []int, level int) {
		slots := 0
		for i := 0; i < len(ks); {
			j := i
			for j < len(ks) && p.Digits[ks[j]][level] == p.Digits[ks[i]][level] {
				j++
			}
			if j-i > 1 {
				walk(ks[i:j], level+1)
			}
			slots++
			i = j
		}
		if level > 0 {
			sum += (slots + 3) / 4 * 64
		}
	}
	walk(ks, 0)
	return
}

// footprintTask runs histories and compares the memory reachable from the container
// after every operation with what its contents need.
func footprintTask(name, kind string, ps []*Pattern, ops func(*Pattern) []Op) Task {
	return Task{Name: name, Run: func(c *Ctx) {
		if !snapOK {
			panic(harness{"snapshots do not work with this toolchain"})
		}
		sn := &snapper{known: stdU.knownCached()}
		size := func(b Box[int]) int {
			b.Snap(sn)
			return sn.footprint()
		}
		for i, p := range ps {
			if c.late() {
				return
			}
			r := newRunner(c, kind, stdU, p, 0)
			c.note = kind + ", memory, " + p.String()
			memo := map[uint64]int{}
			need := func(mask uint64) int {
				n, ok := memo[mask]
				if !ok {
					n = p.linkBytes(mask)
					memo[mask] = n
				}
				return n
			}
			// what an empty container and an entry take
			l := r.fresh()
			root := size(l.b)
			if root > 512 {
				failf("a new container takes %d bytes", root)
			}
			entry := 0
			run := func(ops []Op) *Failure {
				l := r.fresh()
				c.res.Traces++
				return catch(func() {
					for j := range ops {
						l.ops = ops[:j+1]
						l.do(ops[j])
						got := size(l.b)
						n := popcount(l.mask)
						if n == 1 && entry == 0 {
							entry = max(got-root, 1)
							if entry > 64 {
								failf("a single entry takes %d bytes", entry)
							}
						}
						if n > 0 && entry == 0 {
							continue
						}
						if want := root + n*entry + need(l.mask); got > want {
							failf("after step %d the container keeps %d bytes alive; for its %d entries %d would do", j+1, got, n, want)
						}
						c.visit(kind+p.Name, min(p.n(), 24), l.mask)
					}
				})
			}
			o := ops(p)
			if f := run(o); f != nil {
				f = catch(func() { failf("%s", f.Msg) })
				o = append([]Op(nil), o[:min(len(o), firstFail(f, len(o)))]...)
				for i := 0; i < len(o) && len(o) > 1 && len(o) < 3000; {
					t := append(append([]Op(nil), o[:i]...), o[i+1:]...)
					if g := run(t); g != nil {
						o, f = t, g
					} else {
						i++
					}
				}
				for i := 0; i < 3; i++ {
					if run(o) != nil {
						f.Confirmed++
					}
				}
				f.Scenario = r.describe(o)
				c.fail(f)
			}
			delete(c.seen, kind+p.Name)
			if i == 0 {
				c.sample(fmt.Sprintf("%s, %s, history of %d operations, footprint after each", kind, p, len(o)))
			}
		}
	}}
}

// firstFail reads the step number off a failure message.
func firstFail(f *Failure, n int) int {
	var s int
	if _, err := fmt.Sscanf(f.Msg, "after step %d", &s); err == nil {
		return s
	}
	return n
}

func footprintTasks(stage, tier string) (ts []Task) {
	thorough := tier == "thorough"
	kinds := cat(mainMaps, mainSets, provMaps, provSets)
	switch stage {
	case "scale":
		return scaleTasks(tier, cat(mainMaps, mainSets), oFoot)
	case "process":
		ps := []*Pattern{nodePattern(8, 0), nodePattern(8, 15), pairPattern(8, 0, 2), chainPattern(8, 9, 1)}
		if thorough {
			ps = append(ps, nodePattern(8, 1), nodePattern(10, 16), pairPattern(8, 14, 3), chainPattern(8, 0, 1), chainPattern(8, 0, 17))
		}
		for _, k := range kinds {
			ts = append(ts, processTask(k, ps), largeHeapTask(k, pick(thorough, 300007, 70001)))
		}
		return
	case "tours":
		ps := collect(2, rng(0, pick(thorough, 120, 60)))
		ps = append(ps, collect(3, pick(thorough, levels40, []int{0, 1, 2, 3, 10, 11, 12, 13, 15, 16, 17, 31, 32, 33, 40}))...)
		ps = append(ps, collect(4, pick(thorough, []int{0, 1, 2, 12, 15, 16, 17, 31, 32}, []int{0, 1, 15, 16}))...)
		for _, k := range kinds {
			for i, ch := range chunks(ps, 300) {
				ts = append(ts, footprintTask(fmt.Sprintf("%s/tours/%d", k, i), k, ch, func(p *Pattern) []Op { return tour(p.n(), codesFor(k, "SMD")) }))
			}
		}
	case "level":
		ps := []*Pattern{nodePattern(10, 0), nodePattern(10, 1), nodePattern(10, 12), pairPattern(10, 0, 1), pairPattern(10, 0, 3), pairPattern(10, 11, 2), chainPattern(10, 0, 1), chainPattern(10, 9, 1), chainPattern(10, 1, 5)}
		for _, k := range kinds {
			in := pick(isSet(k), "S", "SM")
			for i, p := range ps {
				ts = append(ts, footprintTask(fmt.Sprintf("%s/euler/%d", k, i), k, []*Pattern{p}, func(*Pattern) []Op { return cubeOps(euler(10), in) }))
			}
			var fs []*Pattern
			for _, l := range pick(thorough, rng(0, 60), []int{0, 1, 2, 7, 11, 12, 13, 15, 16, 17, 32}) {
				fs = append(fs, nodePattern(16, l), mixedPattern(l, 1), mixedPattern(l, 2))
			}
			for i, ch := range chunks(branchPatterns(thorough), 24) {
				ts = append(ts, footprintTask(fmt.Sprintf("%s/branch/%d", k, i), k, ch, branchTour(in)))
			}
			ts = append(ts, footprintTask(k+"/fill", k, fs, func(p *Pattern) []Op { return fillOps(p.n(), in) }))
			if thorough {
				ts = append(ts, footprintTask(k+"/gray16", k, []*Pattern{nodePattern(16, 0), nodePattern(16, 1)}, func(*Pattern) []Op { return cubeOps(gray(16), in) }))
			}
		}
	}
	return
}

// C22: key methods that fail.

type keyFault struct{}

// faultTask takes every transition of the content graph; before each operation takes
// effect it is tried with its first, second, ... call of a key method panicking or
// ending the goroutine. The container must be unchanged after each.
func faultTask(name, kind string, ps []*Pattern, ops func(*Pattern) []Op, orc Oracle) Task {
	return Task{Name: name, Run: func(c *Ctx) {
		defer func() { gkHook = nil }()
		for i, p := range ps {
			if c.late() {
				return
			}
			r := newRunner(c, kind, stdU, p, orc)
			c.note = kind + ", failing key methods, " + p.String()
			run := func(ops []Op) *Failure {
				l := r.fresh()
				c.res.Traces++
				f := catch(func() {
					for j := range ops {
						l.ops = ops[:j+1]
						l.faulty(ops[j], j)
						l.do(ops[j])
					}
				})
				gkHook = nil
				return f
			}
			o := ops(p)
			if f := run(o); f != nil {
				for size := (len(o) + 1) / 2; size > 0; size /= 2 {
					for i := 0; i+size <= len(o) && len(o) > 1; {
						t := append(append([]Op(nil), o[:i]...), o[i+size:]...)
						if g := run(t); g != nil {
							o, f = t, g
						} else {
							i += size
						}
					}
				}
				for i := 0; i < 3; i++ {
					if run(o) != nil {
						f.Confirmed++
					}
				}
				f.Scenario = r.describe(o) + "  (each operation is tried with every one of its key method calls failing before it is let through)\n"
				c.fail(f)
			}
			c.res.States += contentsOf(ops(p))
			if i == 0 {
				c.sample(fmt.Sprintf("%s, %s, %d operations, each with every key method call failing", kind, p, len(o)))
			}
		}
	}}
}

// faulty tries op with its n-th key method call failing, for every n.
func (l *live) faulty(op Op, step int) {
	k := int(op.K)
	had := l.mask>>k&1 != 0
	var order []int
	if l.r.orc&oSame != 0 {
		order = l.order()
	}
	for n := 1; ; n++ {
		if n > 200 {
			failf("%s calls key methods without end", op)
		}
		for _, exit := range []bool{false, true} {
			if exit && (n+step)%3 != 0 { // goroutine ends are slower; a third of the points
				continue
			}
			left := n
			reached, modified := false, false
			gkHook = func() {
				if left--; left == 0 {
					reached = true
					gkHook = nil
					if exit {
						runtime.Goexit()
					}
					panic(keyFault{})
				}
			}
			maphash.VerifSums, maphash.VerifLimit = 0, 20000
			returned := false
			body := func() {
				defer func() {
					if x := recover(); x != nil {
						if _, ok := x.(keyFault); !ok {
							panic(x)
						}
					}
				}()
				switch op.C {
				case 'S':
					// not the value written afterwards
					l.b.Set(k, poison)
				case 'M', 'N':
					l.b.Mod(k, func(q *int, ok bool) {
						if ok && had {
							modified = true
						}
						if !ok {
							*q = poison
						}
					})
				case 'D':
					l.b.Del(k)
				default:
					l.b.Get(k)
				}
				returned = true
			}
			if exit {
				onGoroutine(body)
			} else {
				body()
			}
			gkHook = nil
			if !reached {
				// the operation took place: bring the reference up to date
				switch op.C {
				case 'S', 'M', 'N':
					if op.C == 'S' || !had {
						l.vals[k] = poison
					}
					l.mask |= 1 << k
				case 'D':
					l.mask &^= 1 << k
				}
				l.undo(op, had, k)
				return
			}
			_ = modified
			if returned {
				failf("%s returned although its key method call %d failed", op, n)
			}
			l.r.c.res.Points++
			if f := catch(func() {
				l.check(false)
				if l.r.orc&oSame != 0 {
					if now := l.order(); !equalInts(now, order) {
						failf("the iteration order went from %v to %v", order, now)
					}
				}
			}); f != nil {
				failf("after %s was aborted by a failing key method (call %d): %s", op, n, f.Msg)
			}
		}
	}
}

// undo restores the contents before op, so that the tour goes on as planned.
func (l *live) undo(op Op, had bool, k int) {
	if now := l.mask>>k&1 != 0; now != had {
		if had {
			l.b.Set(k, poison)
			l.vals[k] = poison
			l.mask |= 1 << k
		} else {
			l.b.Del(k)
			l.mask &^= 1 << k
		}
	}
	l.check(false)
}

func faultTasks(stage, tier string) (ts []Task) {
	thorough := tier == "thorough"
	kinds := []string{"Map[GK]", "Set[GK]", "ArrMap", "ArrSet", "Map[GK]/wide", "ArrMap/refs", "Map[GK]/300", "Set[GK]/300", "ArrMap/300", "ArrSet/300"}
	orc := oLook | oLen | oDep | oAll | oSame
	switch stage {
	case "tours":
		ps := collect(2, rng(0, pick(thorough, 120, 70)))
		ps = append(ps, collect(3, pick(thorough, levels40, []int{0, 1, 2, 11, 12, 14, 15, 16, 17, 30, 31, 32, 33, 40}))...)
		ps = append(ps, collect(4, pick(thorough, []int{0, 1, 2, 15, 16, 17, 31, 32, 33}, []int{0, 1, 15, 16, 32}))...)
		for _, k := range kinds {
			for i, ch := range chunks(ps, 60) {
				ts = append(ts, faultTask(fmt.Sprintf("%s/tours/%d", k, i), k, ch, func(p *Pattern) []Op { return tour(p.n(), codesFor(k, "SMDb")) }, orc))
			}
		}
	case "level":
		ps := []*Pattern{nodePattern(9, 0), nodePattern(9, 1), nodePattern(9, 16), pairPattern(10, 0, 1), pairPattern(10, 14, 3), pairPattern(10, 1, 16), chainPattern(9, 0, 1), chainPattern(9, 12, 1), chainPattern(9, 1, 16)}
		for _, k := range kinds {
			for i, p := range ps {
				ts = append(ts, faultTask(fmt.Sprintf("%s/euler/%d", k, i), k, []*Pattern{p}, func(p *Pattern) []Op { return cubeOps(euler(p.n()), pick(isSet(k), "S", "SM")) }, orc))
			}
			for i, ch := range chunks(fits(k, branchPatterns(thorough)), 24) {
				ts = append(ts, faultTask(fmt.Sprintf("%s/branch/%d", k, i), k, ch, branchTour(pick(isSet(k), "S", "SM")), orc))
			}
		}
	}
	return
}

func init() {
	props["C21"] = &propDef{stages: stages("plain", "tours", "level", "process", "scale"), tasks: footprintTasks, text: textOf(map[string]string{
		"tours":   "every operation in every contents of 2 (branching levels 0..60), 3 and 4 keys (selected levels); the bytes of heap memory reachable from the container are compared with the bound after every operation",
		"level":   "every insertion and deletion in every contents of 10 keys on one level, in pairs and in chains; trie levels filled and emptied at every rank; " + branchText,
		"process": "the size of the live heap (and the number of goroutines) between repetitions of: every insertion and deletion in every contents of 8 keys; overwrites; re-insertions; reads and copies; callbacks that panic; containers made and dropped; uses of uninitialized containers; and before and after the life of a container of 70001 (thorough 300007) entries, emptied or dropped",
		"scale":   "one long history per kind with well-mixed hashes, but for 32 keys that share long prefixes: 20011 (thorough 70001) entries, then deletion of all; memory compared at several moments",
	}), assume: []string{"heap objects and their sizes are read from the runtime's own span descriptors; the memory of keys and values kept elsewhere is not counted"}}
	props["C22"] = &propDef{stages: stages("plain", "tours", "level"), tasks: faultTasks, text: textOf(map[string]string{
		"tours": "every operation in every contents of 2 (branching levels 0..70), 3 and 4 keys (selected levels), tried with each of its calls of Hash, Equal or KeyBytes panicking, and ending the goroutine",
		"level": "the same for every insertion and deletion in every contents of 9 or 10 keys on one level, in pairs and in chains; " + branchText,
	})}
}
