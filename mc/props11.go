package main

import (
	"fmt"
	"hash/maphash"
)

// C28: key methods that use containers.

// atCall runs f with the n-th call of a key method doing g first (n = 0: all of them),
// and tells how many calls there were. Key methods called by g do nothing special.
func atCall(n int, f, g func()) (calls int) {
	var hook func()
	hook = func() {
		calls++
		if calls > 300 {
			failf("key methods are called without end")
		}
		if n == 0 || calls == n {
			gkHook = nil
			g()
			gkHook = hook
		}
	}
	gkHook = hook
	defer func() { gkHook = nil }()
	f()
	return
}

// reenter does op with the container read in full inside every key method call.
func (l *live) reenter(op Op) {
	k, v := int(op.K), 1000+l.step
	l.step++
	maphash.VerifSums, maphash.VerifLimit = 0, 200000
	had := l.mask>>k&1 != 0
	look := func() {
		if f := catch(func() { l.check(false) }); f != nil {
			failf("inside a key method called by %s: %s", op, f.Msg)
		}
	}
	n := atCall(0, func() {
		switch op.C {
		case 'S':
			l.b.Set(k, v)
		case 'M':
			l.b.Mod(k, func(p *int, ok bool) {
				if ok != had || had && *p != l.vals[k] || !had && *p != 0 {
					failf("Mod(k%d) callback is told %v, %d", k, ok, *p)
				}
				*p = v
				if had {
					l.vals[k] = v
				}
			})
		case 'D':
			l.b.Del(k)
		default:
			if x, ok := l.b.Get(k); ok != had || had && !l.r.set && x != l.vals[k] {
				failf("Get(k%d), whose key methods read the map, gives %d, %v", k, x, ok)
			}
		}
	}, look)
	l.r.c.res.Points += int64(n)
	switch op.C {
	case 'S', 'M':
		l.mask |= 1 << k
		l.vals[k] = v
	case 'D':
		l.mask &^= 1 << k
	}
	l.check(false)
	l.r.c.res.Transitions++
}

func reenterTask(name, kind string, ps []*Pattern, ops func(*Pattern) []Op, orc Oracle) Task {
	return Task{Name: name, Run: func(c *Ctx) {
		defer func() { gkHook = nil }()
		for i, p := range ps {
			if c.late() {
				return
			}
			r := newRunner(c, kind, stdU, p, orc)
			c.note = kind + ", read inside key methods, " + p.String()
			l := r.fresh()
			c.res.Traces++
			o := ops(p)
			for j := range o {
				l.ops = o[:j+1]
				f := catch(func() { l.reenter(o[j]) })
				gkHook = nil
				if f != nil {
					for t := 0; t < 3; t++ {
						l := r.fresh()
						if catch(func() {
							for _, op := range o[:j+1] {
								l.reenter(op)
							}
						}) != nil {
							f.Confirmed++
						}
						gkHook = nil
					}
					f.Scenario = r.describe(o[:j+1]) + "  (the container is read inside every key method call)\n"
					c.fail(f)
				}
				c.visit(kind+p.Name, p.n(), l.mask)
			}
			delete(c.seen, kind+p.Name)
			if i == 0 {
				c.sample(fmt.Sprintf("%s, %s, %d operations, the container read inside every key method call", kind, p, len(o)))
			}
		}
	}}
}

// innerTask: operations on container B inside every single key method call of every
// operation on container A, for all contents of both.
func innerTask(k1, k2 string, ps []*Pattern) Task {
	return Task{Name: k1 + ">" + k2, Run: func(c *Ctx) {
		defer func() { gkHook = nil }()
		orc := oLook | oLen | oDep | oAll
		for _, p := range ps {
			maphash.VerifTables = nil
			addTable(p, k1, stdU, 1)
			addTable(p, k2, stdU, 2)
			r1, r2 := quietRunner(c, k1, stdU, p, orc), quietRunner(c, k2, stdU, p, orc)
			a1, a2 := alphabet(p.n(), codesFor(k1, "SMDb"), false), alphabet(p.n(), codesFor(k2, "SMDb"), false)
			for m1 := uint64(0); m1 < 1<<p.n(); m1++ {
				for m2 := uint64(0); m2 < 1<<p.n(); m2++ {
					for _, o := range a1 {
						for _, in := range a2 {
							for n, calls := 1, 1; n <= calls; n++ {
								maphash.VerifNextSeed, maphash.VerifSums, maphash.VerifLimit = 1, 0, 200000
								la, lb := r1.freshQuiet(), r2.freshQuiet()
								la.fill(m1)
								lb.fill(m2)
								c.note = fmt.Sprintf("%s, contents %b: %s; %s, contents %b: %s inside its key method call %d; %s", k1, m1, o, k2, m2, in, n, p)
								calls = atCall(n, func() { la.do(o) }, func() { lb.do(in) })
								gkHook = nil
								la.check(false)
								lb.check(false)
								c.res.Traces++
								c.res.States++
							}
						}
					}
					if c.late() {
						return
					}
				}
			}
		}
		c.sample(c.note)
	}}
}

func keyMethodTasks(stage, tier string) (ts []Task) {
	thorough := tier == "thorough"
	kinds := []string{"Map[GK]", "Set[GK]", "ArrMap", "ArrSet"}
	orc := oLook | oLen | oDep | oAll | oOrder
	switch stage {
	case "tours":
		ps := collect(2, rng(0, pick(thorough, 120, 70)))
		ps = append(ps, collect(3, pick(thorough, levels40, []int{0, 1, 2, 11, 12, 14, 15, 16, 17, 31, 32, 33}))...)
		ps = append(ps, collect(4, pick(thorough, []int{0, 1, 2, 15, 16, 17, 31, 32, 33}, []int{0, 15, 16}))...)
		for _, k := range cat(kinds, []string{"Map[GK]/wide", "ArrMap/refs"}, crowdKinds(300, kinds...)) {
			ps := ps
			if _, m := crowdSize(k); m > 0 {
				ps = append(collect(2, []int{0, 1, 15, 16, 17}), collect(3, []int{0, 16})...)
			}
			for i, ch := range chunks(ps, 100) {
				ts = append(ts, reenterTask(fmt.Sprintf("%s/tours/%d", k, i), k, ch, func(p *Pattern) []Op { return tour(p.n(), codesFor(k, "SMDb")) }, orc))
			}
		}
	case "level":
		ps := []*Pattern{nodePattern(9, 0), nodePattern(9, 1), nodePattern(9, 16), pairPattern(10, 0, 1), pairPattern(10, 14, 3), chainPattern(9, 0, 1), chainPattern(9, 12, 1), chainPattern(9, 1, 16)}
		for _, k := range kinds {
			for i, p := range ps {
				ts = append(ts, reenterTask(fmt.Sprintf("%s/euler/%d", k, i), k, []*Pattern{p}, func(p *Pattern) []Op { return cubeOps(euler(p.n()), pick(isSet(k), "S", "SM")) }, orc))
			}
			for i, ch := range chunks(branchPatterns(thorough), 24) {
				ts = append(ts, reenterTask(fmt.Sprintf("%s/branch/%d", k, i), k, ch, branchTour(pick(isSet(k), "S", "SM")), oLook|oLen|oDep|oAll))
			}
		}
	case "other":
		ps := append(collect(2, pick(thorough, rng(0, 36), []int{0, 1, 12, 16, 32})), collect(3, pick(thorough, []int{0, 16}, nil))...)
		for _, k1 := range kinds {
			for _, k2 := range cat(mainMaps, mainSets) {
				ts = append(ts, innerTask(k1, k2, ps))
			}
		}
	}
	return
}

func init() {
	props["C28"] = &propDef{stages: stages("plain", "tours", "level", "other"), tasks: keyMethodTasks, text: textOf(map[string]string{
		"tours": "every operation in every contents of 2 (branching levels 0..70), 3 and 4 keys (selected levels): inside each of its calls of Hash, Equal or KeyBytes the container is read in full and must show the state before the operation",
		"level": "the same for every insertion and deletion in every contents of 9 or 10 keys on one level, in pairs and in chains; " + branchText,
		"other": "every operation in every contents of 2 keys of a generic or array container, with every operation in every contents of 2 keys of another container (of every kind) inside each of its key method calls",
	})}
}
