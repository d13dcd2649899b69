package main

import (
	"fmt"
	"hash/maphash"
	"runtime"
	"strings"

	"github.com/wdamron/amt"
)

// C04: deep collisions.

const maxLevel = 239 // 15 hashes of 16 digits

func deepTasks(stage, tier string) (ts []Task) {
	thorough := tier == "thorough"
	kinds := cat(mainMaps, mainSets)
	all := cat(kinds, provMaps, provSets)
	orc := oLook | oLen | oDep | oAll | oPtr | oMod
	switch stage {
	case "pairs":
		ps := collect(2, rng(0, maxLevel))
		for _, k := range cat(all, typedKinds("wide", "refs")) {
			for i, ch := range chunks(ps, 60) {
				ts = append(ts, closureTask(fmt.Sprintf("%s/pairs/%d", k, i), k, ch, "SMND", !strings.Contains(k, "/"), orc))
			}
		}
	case "triples":
		lv := []int{0, 1}
		for l := 15; l < maxLevel; l += 16 {
			lv = append(lv, l, l+1)
		}
		if thorough {
			lv = nil
			for l := 0; l <= maxLevel; l++ {
				if m := l % 16; l < 40 || m == 15 || m < 2 || m == 8 {
					lv = append(lv, l)
				}
			}
		}
		ps := collect(3, lv)
		for _, k := range kinds {
			for i, ch := range chunks(ps, 60) {
				ts = append(ts, closureTask(fmt.Sprintf("%s/triples/%d", k, i), k, ch, "SMD", false, orc))
			}
		}
	case "quads":
		lv := []int{0, 16, 31, 64, 128, 200}
		if thorough {
			lv = []int{0, 1, 15, 16, 31, 32, 48, 63, 64, 127, 128, 191, 192, 223, 239}
		}
		ps := collect(4, lv)
		for _, k := range kinds {
			for i, ch := range chunks(ps, 60) {
				ts = append(ts, closureTask(fmt.Sprintf("%s/quads/%d", k, i), k, ch, "SMD", false, orc))
			}
		}
	case "large":
		ps := collect(2, append(rng(0, 40), 63, 64, 127, 128, 200, 223, 224, 238, 239))
		for _, k := range kinds {
			ts = append(ts, closureTask(k+"/300", k+"/300", ps, "SMND", false, orc))
			ts = append(ts, historyTask(k+"/5000", k+"/5000", collect(2, []int{47, 128, 239}), func(p *Pattern) []Op { return tour(p.n(), codesFor(k, "SMD")) }, 4, orc))
		}
	case "hashes":
		for _, k := range all {
			ts = append(ts, hashTasks(k, "SMND", orc, thorough)...)
		}
	case "crowd":
		// 12 keys that all agree on many digits, and chains of them
		var ps []*Pattern
		for _, lv := range []int{16, 47, 64, 100} {
			ps = append(ps, nodePattern(12, lv), chainPattern(10, lv, 1), chainPattern(10, lv, 13))
		}
		n := 10
		if !thorough {
			ps = ps[:6]
		}
		for _, k := range kinds {
			for i, ch := range chunks(ps, 2) {
				ts = append(ts, historyTask(fmt.Sprintf("%s/crowd/%d", k, i), k, ch, func(p *Pattern) []Op {
					return cubeOps(euler(n), pick(isSet(k), "S", "SM"))
				}, 8, orc))
			}
		}
	}
	return
}

// C10: copies.

func copyTasks(stage, tier string) (ts []Task) {
	kinds := cat(mainMaps, mainSets, provMaps, provSets, typedKinds("wide", "refs"))
	orc := oLook | oLen | oDep | oAll | oOrder
	thorough := tier == "thorough"
	switch stage {
	case "closure":
		ps := append(collect(2, []int{0, 1, 2, 16}), collect(3, pick(thorough, levels40, []int{0, 1, 2, 15, 16, 17, 32}))...)
		for _, k := range cat(kinds, crowdKinds(300, mainMaps...), crowdKinds(300, mainSets...)) {
			ps := ps
			if _, m := crowdSize(k); m > 0 {
				ps = collect(2, pick(thorough, levels40, []int{0, 1, 16}))
			}
			for i, ch := range chunks(ps, 60) {
				k := k
				ts = append(ts, Task{Name: fmt.Sprintf("%s/copies/%d", k, i), Run: func(c *Ctx) {
					for _, p := range ch {
						if c.late() {
							return
						}
						r := newRunner(c, k, stdU, p, orc)
						r.copies = copyWays + 1
						var alpha []Op
						for h := 0; h <= r.copies; h++ {
							for _, o := range alphabet(p.n(), codesFor(k, "SMD"), false) {
								o.H = uint8(h)
								alpha = append(alpha, o)
							}
						}
						c.note = k + " " + p.String()
						st, ok := r.closure(alpha, 300)
						if !ok {
							c.res.Capped = true
						}
						c.sample(fmt.Sprintf("%s, %s, %d copies, %d operations, %d states", k, p, r.copies, len(alpha), st))
					}
				}})
			}
		}
	case "seq":
		ps := collect(2, []int{0, 1, 16})
		d := pick(thorough, 6, 4)
		for _, k := range kinds {
			k := k
			ts = append(ts, Task{Name: k + "/copyseq", Run: func(c *Ctx) {
				for _, p := range ps {
					r := newRunner(c, k, stdU, p, orc)
					r.copies = 2
					alpha := alphabet(2, "SD", false)
					var all []Op
					for h := 0; h < 3; h++ {
						for _, o := range alpha {
							o.H = uint8(h)
							all = append(all, o)
						}
					}
					idxSeqs(len(all), d, func(idx []int) {
						if c.res.Traces&0xff == 0 && c.late() || c.res.Capped {
							return
						}
						ops := make([]Op, len(idx))
						for i, a := range idx {
							ops[i] = all[a]
						}
						if f := r.exec(ops); f != nil {
							r.report(ops, f)
						}
					})
				}
			}})
		}
	case "node16":
		for _, k := range cat(mainMaps, mainSets) {
			k := k
			ts = append(ts, Task{Name: k + "/copies16", Run: func(c *Ctx) {
				n := pick(thorough, 16, 12)
				r := newRunner(c, k, stdU, nodePattern(n, 1), oLen|oDep|oAll)
				r.copies = 3
				ops := cubeOps(euler(n), pick(isSet(k), "S", "SM"))
				l := r.fresh()
				c.res.Traces++
				for i := range ops {
					ops[i].H = uint8((i + i/4) % 4)
					l.ops = ops[:i+1]
					if f := catch(func() { l.do(ops[i]) }); f != nil {
						r.report(ops[:i+1], f)
					}
					c.visit(k, n, l.mask)
					if i&0xfff == 0 && c.late() {
						return
					}
				}
			}})
		}
	}
	return
}

// idxSeqs calls f with every sequence over 0..a-1 of length exactly d.
func idxSeqs(a, d int, f func([]int)) {
	idx := make([]int, d)
	for {
		f(idx)
		i := d - 1
		for ; i >= 0; i-- {
			if idx[i]++; idx[i] < a {
				break
			}
			idx[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

// C11: uninitialized containers.

type method struct {
	name string
	run  func(b Box[int], k int) string // "" or what is wrong; panics where documented
	ok   bool                           // documented not to panic
}

func zeroMethods(set bool) []method {
	must := func(c bool, s string) string {
		if !c {
			return s
		}
		return ""
	}
	ms := []method{
		{"Nil", func(b Box[int], _ int) string { return must(b.Nil(), "Nil is false") }, true},
		{"Len", func(b Box[int], _ int) string { return must(b.Len() == 0, "Len is not 0") }, true},
		{"Dep", func(b Box[int], _ int) string { return must(b.Dep() == 0, "Dep is not 0") }, true},
		{"Set/Add", func(b Box[int], k int) string { b.Set(k, 5); return "returned" }, false},
		{"Del", func(b Box[int], k int) string { b.Del(k); return "returned" }, false},
		{"Get/Has", func(b Box[int], k int) string { b.Get(k); return "returned" }, false},
		{"All", func(b Box[int], _ int) string {
			b.All(func(int, *int) bool { failf("All of an uninitialized container calls its callback"); return true })
			return "returned"
		}, false},
	}
	if !set {
		ms = append(ms,
			method{"Val", func(b Box[int], k int) string { return must(b.Val(k) == 0, "Val is not zero") }, true},
			method{"Ptr", func(b Box[int], k int) string { b.Ptr(k); return "returned" }, false},
			method{"Mod", func(b Box[int], k int) string {
				b.Mod(k, func(*int, bool) { failf("Mod of an uninitialized map calls its callback") })
				return "returned"
			}, false})
	}
	return ms
}

func callZero(m method, b Box[int], k int) {
	maphash.VerifSums, maphash.VerifLimit = 0, 20000
	msg, panicked := "", false
	func() {
		defer func() {
			if x := recover(); x != nil {
				switch x.(type) {
				case failure, maphash.Livelock:
					panic(x)
				}
				panicked = true
			}
		}()
		msg = m.run(b, k)
	}()
	switch {
	case m.ok && panicked:
		failf("%s of an uninitialized container panics", m.name)
	case m.ok && msg != "":
		failf("uninitialized container: %s", msg)
	case !m.ok && !panicked:
		failf("%s of an uninitialized container returns instead of panicking", m.name)
	}
	if !b.Nil() {
		failf("after %s, the uninitialized container reports Nil false", m.name)
	}
	if b.Len() != 0 || b.Dep() != 0 {
		failf("after %s, the uninitialized container has Len %d, Dep %v", m.name, b.Len(), b.Dep())
	}
}

func zeroTasks(_, tier string) (ts []Task) {
	depth := pick(tier == "thorough", 5, 4)
	for _, k := range cat(mainMaps, mainSets, provMaps, provSets) {
		k := k
		ts = append(ts, Task{Name: k + "/zero", Run: func(c *Ctx) {
			ms := zeroMethods(isSet(k))
			idxSeqs(len(ms), depth, func(idx []int) {
				// a zero value, next to an initialized container of the same kind
				live := newBox[int](k, stdU)
				live.Set(1, 77)
				z := live.Zero()
				c.note = k + " uninitialized:"
				for _, m := range idx {
					c.note += " " + ms[m].name
				}
				c.res.Traces++
				for i, m := range idx {
					for key := 0; key < 2; key++ { // an absent and a present key of the other container
						callZero(ms[m], z, key)
						callZero(ms[m], z.Copy(0), key)
						c.res.Transitions += 2
					}
					if i == 0 {
						onGoroutine(func() { callZero(ms[m], z, 0) })
					}
				}
				if v, ok := live.Get(1); !ok || live.Len() != 1 || live.Nil() || !isSet(k) && v != 77 {
					failf("calls on an uninitialized container changed another one")
				}
				c.visit(k, len(ms), 1<<idx[len(idx)-1])
			})
			c.sample(c.note)
		}})
		ts = append(ts, Task{Name: k + "/new", Run: func(c *Ctx) {
			// what a constructor returns is initialized, empty and usable, whatever
			// was done with other containers before
			r := newRunner(c, k, stdU, nodePattern(2, 0), oLook|oLen|oDep|oAll)
			for i := 0; i < 50; i++ {
				b := newBox[int](k, stdU)
				if b.Nil() || b.Len() != 0 || b.Dep() != 0 {
					failf("a new container has Nil %v, Len %d, Dep %v", b.Nil(), b.Len(), b.Dep())
				}
				b.All(func(int, *int) bool { failf("a new container has an entry"); return true })
				for key := 0; key < 2; key++ {
					if _, ok := b.Get(key); ok {
						failf("a new container has an entry")
					}
					b.Del(key)
				}
				if b.Nil() || b.Len() != 0 || b.Dep() != 0 {
					failf("an empty container has Nil %v, Len %d, Dep %v after Del", b.Nil(), b.Len(), b.Dep())
				}
				b.Set(0, 1)
				b.Del(0)
				if b.Nil() || b.Len() != 0 || b.Dep() != 0 {
					failf("an emptied container has Nil %v, Len %d, Dep %v", b.Nil(), b.Len(), b.Dep())
				}
				b.Set(0, 1)
				if _, ok := b.Get(0); !ok || b.Len() != 1 {
					failf("a new container is not usable")
				}
				c.res.Transitions += 8
			}
			seqs(2, codesFor(k, "SMD"), 4, func(ops []Op) {
				if f := r.exec(ops); f != nil {
					r.report(ops, f)
				}
			})
		}})
	}
	// uninitialized maps of other value types
	ts = append(ts, Task{Name: "Val of uninitialized maps", Run: func(c *Ctx) {
		var a amt.StringMap[string]
		var b amt.BytesMap[[]int]
		var d amt.IntMap[struct{}]
		var e amt.ArrMap[AK, error]
		var f amt.Map[GK, [100]int]
		var g amt.Map[amt.String, amt.StringMap[int]]
		if a.Val("x") != "" || b.Val(nil) != nil || d.Val(-1) != struct{}{} || e.Val(AK{}) != nil || f.Val(GK{}) != [100]int{} || !g.Val("").Nil() {
			failf("Val of an uninitialized map is not zero")
		}
		if a.Len()+b.Len()+d.Len()+e.Len()+f.Len()+g.Len() != 0 || a.Dep()+b.Dep()+d.Dep()+e.Dep()+f.Dep()+g.Dep() != 0 {
			failf("Len or Dep of an uninitialized map is not 0")
		}
		c.res.Transitions += 18
		c.res.Traces++
		runtime.Gosched()
	}})
	return
}

// C14: callbacks.

func callbackTasks(stage, tier string) (ts []Task) {
	thorough := tier == "thorough"
	orc := oLook | oLen | oDep | oAll | oOrder | oCbs | oPtr
	kinds := cat(mainMaps, mainSets)
	switch stage {
	case "closure3":
		ps := collect(3, pick(thorough, levels40, []int{0, 1, 2, 11, 12, 15, 16, 17, 31, 32}))
		ps = append(ps, collect(2, levels40)...)
		for _, k := range cat(typedKinds("wide", "refs"), crowdKinds(300, kinds...)) {
			ts = append(ts, closureTask(k, k, append(collect(2, []int{0, 1, 15, 16}), collect(3, pick(thorough, []int{0, 1, 15, 16}, []int{0, 16}))...), "SMNPGDaen", false, orc))
		}
		for _, k := range kinds {
			for i, ch := range chunks(ps, 30) {
				ts = append(ts, closureTask(fmt.Sprintf("%s/%d", k, i), k, ch, "SMNPGDaen", false, orc))
			}
		}
	case "closure4":
		ps := collect(4, pick(thorough, levels4q, []int{0, 1, 15, 16}))
		for _, k := range kinds {
			for i, ch := range chunks(ps, 20) {
				ts = append(ts, closureTask(fmt.Sprintf("%s/%d", k, i), k, ch, "SMPDan", false, orc))
			}
		}
	case "node16":
		for _, k := range kinds {
			for _, lv := range []int{0, 1, 16} {
				k := k
				n := pick(thorough, 16, 10)
				ts = append(ts, historyTask(fmt.Sprintf("%s/cb16@%d", k, lv), k, []*Pattern{nodePattern(n, lv)}, func(*Pattern) (ops []Op) {
					for i, o := range cubeOps(gray(n), pick(isSet(k), "S", "M")) {
						// callbacks aborted at varying places before each change
						if !isSet(k) {
							ops = append(ops, Op{C: 'P', K: o.K}, Op{C: "PG"[i%2], K: uint8(i % n)})
						}
						ops = append(ops, Op{C: "ae"[i/3%2], K: uint8(i % n)}, o)
						if i%8 == 0 {
							ops = append(ops, Op{C: 'n', K: uint8(i / 8 % n)})
						}
					}
					return
				}, 0, oLook|oLen|oDep|oAll|oCbs))
			}
		}
	}
	return
}
