package main

import (
	"fmt"
	"hash/maphash"
	"runtime"
)

// C27: key types.

type keyKind struct {
	name string
	n    int // number of keys
	mk   func() Box[int]
}

func keyTypeTasks(stage, tier string) (ts []Task) {
	thorough := tier == "thorough"
	orc := oLook | oLen | oDep | oAll | oOrder | oPtr | oMod
	if stage == "kept" {
		return []Task{{Name: "kept", Run: func(c *Ctx) {
			ps := append(collect(2, levels40), collect(3, pick(thorough, levels40, []int{0, 1, 2, 15, 16, 17}))...)
			for _, p := range ps {
				c.note = p.String()
				keptKeys(c, p)
				if c.late() {
					return
				}
			}
			c.sample(c.note)
		}}}
	}
	for _, kk := range keyKinds() {
		ts = append(ts, Task{Name: kk.name + "/" + stage, Run: func(c *Ctx) {
			var ps []*Pattern
			switch stage {
			case "tours":
				ps = collect(2, pick(thorough, levels40, []int{0, 1, 2, 15, 16, 17, 31, 32}))
				ps = append(ps, collect(3, pick(thorough, []int{0, 1, 2, 3, 15, 16, 17}, []int{0, 1, 15, 16}))...)
			case "level":
				ps = []*Pattern{nodePattern(7, 0), nodePattern(7, 1), pairPattern(6, 0, 1), chainPattern(6, 12, 1)}
				if thorough {
					ps = append(ps, nodePattern(9, 3), pairPattern(8, 15, 1), chainPattern(8, 0, 2))
				}
			case "gc":
				ps = []*Pattern{nodePattern(3, 0), nodePattern(4, 1), pairPattern(4, 0, 1), chainPattern(3, 15, 1)}
			}
			if kk.n == 1 {
				ps = []*Pattern{nodePattern(1, 0)}
			}
			u := &Universe{n: kk.n, boxes: map[string]func() Box[int]{kk.name: kk.mk}}
			for _, p := range ps {
				if c.late() {
					return
				}
				r := newRunner(c, kk.name, u, p, orc)
				c.note = kk.name + " " + p.String()
				maphash.VerifLimit = 0
				if stage == "gc" {
					// keys are referred to by the container only, memory that is freed is
					// overwritten
					l := r.fresh()
					c.res.Traces++
					ops := tour(p.n(), codesFor(kk.name, "SMD"))
					for i, op := range ops {
						l.ops = ops[:i+1]
						if f := catch(func() {
							l.do(op)
							runtime.GC()
							l.check(false)
						}); f != nil {
							f.Msg += " (with a collection after every operation)"
							r.report(ops[:i+1], f)
						}
						c.visit(kk.name+p.Name, p.n(), l.mask)
					}
					continue
				}
				ops := tour(min(p.n(), 5), codesFor(kk.name, "SMND"))
				if stage == "level" {
					ops = cubeOps(euler(p.n()), pick(isSet(kk.name), "S", "SM"))
				}
				l := r.fresh()
				c.res.Traces++
				for i, op := range ops {
					l.ops = ops[:i+1]
					if f := catch(func() { l.do(op) }); f != nil {
						r.report(ops[:i+1], f)
					}
					c.visit(kk.name+p.Name, p.n(), l.mask)
				}
			}
			c.sample(fmt.Sprintf("%s, %d trie shapes, e.g. %s", kk.name, len(ps), c.note))
		}})
	}
	return
}

func init() {
	props["C27"] = &propDef{stages: func(string) []Stage {
		return []Stage{{Name: "tours", Bin: "plain"}, {Name: "level", Bin: "plain"}, {Name: "kept", Bin: "plain"},
			{Name: "gc", Bin: "plain", Env: []string{"GODEBUG=clobberfree=1"}}}
	}, tasks: keyTypeTasks, text: textOf(map[string]string{
		"tours": "11 key types of generic and 8 of array containers (size 0 to 9001 bytes, pointers, interfaces, slices, functions, maps, containers, NaN): every operation in every contents of 2 and 3 keys in many trie shapes; contents, order, Dep, pointers, Mod, and every byte of the keys All and the key methods see",
		"level": "the same types: every insertion and deletion in every contents of up to 7 keys on one level, in pairs and in a chain",
		"kept":  "keys that are equal but distinguishable: every operation in every contents of 2 and 3 keys; All reports the key each entry was inserted with",
		"gc":    "the same types, a collection after every operation, freed memory overwritten: every operation in every contents of 3 and 4 keys in four shapes",
	})}
}
