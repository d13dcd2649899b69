package main

import (
	"fmt"
	"strings"
)

// levels used for exhaustive shape enumeration.
var (
	levels40 = rng(0, 40)
	levels4q = []int{0, 1, 14, 15, 16, 17, 31, 32}
	levels4t = append(rng(0, 18), 30, 31, 32, 33, 47, 48)
)

// structure returns the stages every state-space property runs: the closure of the
// implementation's state space over small key sets in every trie shape, and walks
// over all contents of a full trie level and of several nested levels.
func structureStages(bin string) []Stage {
	return []Stage{
		{Name: "closure3", Bin: bin}, {Name: "closure4", Bin: bin}, {Name: "closure5", Bin: bin}, {Name: "node16", Bin: bin},
		{Name: "nested", Bin: bin}, {Name: "slots", Bin: bin}, {Name: "branch", Bin: bin},
		{Name: "hashes", Bin: bin}, {Name: "large", Bin: bin}, {Name: "levels", Bin: bin}, {Name: "seq", Bin: bin},
	}
}

func structureText(stage string, thorough bool) string {
	switch stage {
	case "closure3":
		return "state closure of the implementation (every operation in every reachable heap state, so histories of any length) for 1, 2 and 3 keys in every trie shape with branching levels 0..40 (three rehashes)"
	case "closure4":
		return fmt.Sprintf("state closure for 4 keys in every trie shape with branching levels in %v", pick(thorough, levels4t, levels4q))
	case "closure5":
		return fmt.Sprintf("state closure for 5 keys in every trie shape with branching levels in %v, and for 6 keys with levels in %v", pick(thorough, []int{0, 1, 2, 15, 16, 17}, []int{0, 1, 16}), pick(thorough, []int{0, 1, 16}, []int{0, 1}))
	case "node16":
		return "one trie level with all 16 slots in use: every insertion into and deletion from every one of the 65536 contents (Euler circuit), and every contents at further levels (Gray code)"
	case "nested":
		return "12 keys in six pairs, or leaving a common path one by one: every insertion into and deletion from every one of the 4096 contents"
	case "slots":
		return fmt.Sprintf("two keys in every pair of slots of a level below every slot of the level above (levels %s), three keys in every three slots of a level, two keys below every slot with a third beside that slot: every operation in every contents", pick(thorough, "1 to 33", "1, 2, 15, 16, 17"))
	case "branch":
		return branchText + "; " + pick(thorough, "for every slot", "for three slots") + ", every change of the branch in each of the 32768 contents of the other slots"
	case "large":
		return "with 300 (and 5000) further entries that stay put: state closure for 2 and 3 keys in every trie shape over levels around a rehash, every change to every contents of 8 keys on one level and in pairs; the other entries stay intact"
	case "hashes":
		return fmt.Sprintf("%d special hash values (0, all ones, powers of two, halves empty or full, ...): every pair of them as first hashes of two keys, and %s of them as second or third hashes below equal special ones, with a third key: every operation in every contents; 12 keys with 12 of these hashes, every change to every contents", len(hashWords), pick(thorough, "every pair", "a third of the pairs"))
	case "types":
		return "maps of two larger value types (1624 bytes without pointers, 88 bytes with): state closure for 2 and 3 keys in every trie shape over levels around a rehash, every change to every contents of 8 keys on one level, in pairs and in a chain; the parts of every value seen are those stored"
	case "levels":
		return fmt.Sprintf("every trie level from 0 to 239: insertion of an entry at every rank of a level with every number of entries, and deletion likewise, with single entries only (16 of them) and with branches in every other slot (24; levels 0..%d)", pick(thorough, 100, 34))
	case "seq":
		return "every operation sequence from the empty container up to a depth (hidden state outside the container's heap graph included)"
	}
	return ""
}

func pick[T any](c bool, a, b T) T {
	if c {
		return a
	}
	return b
}

// structureTasks are the tasks of a structure stage.
func structureTasks(stage, tier string, kinds []string, codes string, orc Oracle) (ts []Task) {
	thorough := tier == "thorough"
	switch stage {
	case "closure3":
		ps := collect(1, []int{0})
		ps = append(ps, collect(2, levels40)...)
		ps = append(ps, collect(3, levels40)...)
		for _, k := range kinds {
			for i, ch := range chunks(ps, 220) {
				ts = append(ts, closureTask(fmt.Sprintf("%s/%d", k, i), k, ch, codes, true, orc))
			}
		}
	case "closure4":
		ps := collect(4, pick(thorough, levels4t, levels4q))
		for _, k := range kinds {
			for i, ch := range chunks(ps, 150) {
				ts = append(ts, closureTask(fmt.Sprintf("%s/%d", k, i), k, ch, codes, thorough, orc))
			}
		}
	case "closure5":
		ps := collect(5, pick(thorough, []int{0, 1, 2, 15, 16, 17}, []int{0, 1, 16}))
		if !hasCode(codes, 'w') && !hasCode(codes, 'N') || thorough { // these multiply the states
			ps = append(ps, collect(6, pick(thorough, []int{0, 1, 16}, []int{0, 1}))...)
		}
		for _, k := range kinds {
			for i, ch := range chunks(ps, 60) {
				ts = append(ts, closureTask(fmt.Sprintf("%s/%d", k, i), k, ch, codes, false, orc))
			}
		}
	case "node16":
		eu := []int{1}
		gr := []int{0, 2, 15, 16}
		full := 64
		if thorough {
			eu, gr, full = []int{0, 1, 2, 3, 15, 16, 17, 32}, nil, 8
		}
		ins := codesFor("Map", strings.Map(func(c rune) rune {
			if c == 'S' || c == 'M' {
				return c
			}
			return -1
		}, codes))
		for _, k := range kinds {
			in := ins
			if isSet(k) {
				in = "S"
			}
			for _, lv := range eu {
				ts = append(ts, historyTask(fmt.Sprintf("%s/euler16@%d", k, lv), k, []*Pattern{nodePattern(16, lv)},
					func(*Pattern) []Op { return cubeOps(euler(16), in) }, full, orc))
			}
			for _, lv := range gr {
				ts = append(ts, historyTask(fmt.Sprintf("%s/gray16@%d", k, lv), k, []*Pattern{nodePattern(16, lv)},
					func(*Pattern) []Op { return cubeOps(gray(16), in) }, full, orc))
			}
		}
	case "nested":
		ps := []*Pattern{pairPattern(12, 0, 1), pairPattern(12, 0, 3), pairPattern(12, 1, 1), pairPattern(12, 14, 2), chainPattern(12, 0, 1), chainPattern(12, 10, 1), chainPattern(12, 1, 3)}
		if thorough {
			for lv := 0; lv < 20; lv++ {
				ps = append(ps, pairPattern(12, lv, 1), pairPattern(12, lv, 2), pairPattern(12, lv, 16), chainPattern(12, lv, 1), chainPattern(12, lv, 2))
			}
		}
		for _, k := range kinds {
			in := "S"
			if hasCode(codes, 'M') && !isSet(k) {
				in = "SM"
			}
			for i, ch := range chunks(ps, 7) {
				ts = append(ts, historyTask(fmt.Sprintf("%s/nested/%d", k, i), k, ch,
					func(*Pattern) []Op { return cubeOps(euler(12), in) }, 16, orc))
			}
		}
	case "slots":
		for _, k := range kinds {
			ts = append(ts, slotTasks(k, codes, orc, thorough)...)
		}
	case "branch":
		for _, k := range kinds {
			ts = append(ts, branchTasks(k, codes, orc, thorough)...)
		}
	case "large":
		ps := append(collect(2, pick(thorough, levels40, []int{0, 1, 2, 15, 16, 17})), collect(3, pick(thorough, []int{0, 1, 2, 14, 15, 16, 17, 32}, []int{0, 1, 16}))...)
		for _, k := range kinds {
			in := pick(isSet(k) || !hasCode(codes, 'M'), "S", "SM")
			for i, ch := range chunks(ps, 20) {
				ts = append(ts, closureTask(fmt.Sprintf("%s/300/%d", k, i), k+"/300", ch, codes, false, orc))
			}
			ts = append(ts, historyTask(k+"/300/walks", k+"/300", []*Pattern{nodePattern(8, 0), nodePattern(8, 1), pairPattern(8, 0, 1)}, func(p *Pattern) []Op { return cubeOps(euler(8), in) }, 4, orc))
			ts = append(ts, historyTask(k+"/5000", k+"/5000", collect(2, []int{0, 1, 16}), func(p *Pattern) []Op { return tour(p.n(), codesFor(k, codes)) }, 4, orc))
		}
	case "hashes":
		for _, k := range kinds {
			ts = append(ts, hashTasks(k, codes, orc, thorough)...)
		}
	case "types":
		ps := append(collect(2, pick(thorough, levels40, []int{0, 1, 2, 15, 16, 17, 32})), collect(3, pick(thorough, rng(0, 18), []int{0, 1, 15, 16}))...)
		ws := []*Pattern{nodePattern(8, 0), nodePattern(8, 15), pairPattern(8, 0, 1), chainPattern(8, 13, 1)}
		if thorough {
			ps = append(ps, collect(4, []int{0, 1, 15, 16})...)
			ws = append(ws, nodePattern(12, 1), pairPattern(12, 1, 2), chainPattern(12, 0, 1), mixedPattern(0, 1))
		}
		in := "S"
		if hasCode(codes, 'M') {
			in = "SM"
		}
		for _, k := range typedKinds("wide", "refs") {
			ts = append(ts, closureTask(k+"/closure", k, ps, codes, false, orc))
			ts = append(ts, historyTask(k+"/walks", k, ws, func(p *Pattern) []Op {
				if p.n() > 12 {
					return fillOps(p.n(), in)
				}
				return cubeOps(euler(p.n()), in)
			}, 4, orc))
		}
	case "levels":
		in := "S"
		if hasCode(codes, 'M') {
			in = "SM"
		}
		for _, k := range kinds {
			ts = append(ts, levelTasks(k, in, rng(0, maxLevel), orc, thorough)...)
		}
	case "seq":
		all := collect(3, []int{0, 1, 15, 16, 17})
		var ps []*Pattern
		for i, p := range all {
			if thorough || i%9 == 0 {
				ps = append(ps, p)
			}
		}
		for _, k := range kinds {
			d := 5
			if len(codesFor(k, codes)) > 2 {
				d = 4
			}
			if thorough {
				d++
			}
			for i, ch := range chunks(ps, 4) {
				ts = append(ts, seqTask(fmt.Sprintf("%s/seq%d/%d", k, d, i), k, ch, codes, d, orc))
			}
		}
	}
	return
}

// levelTasks fills and empties one trie level, every one in turn, in many orders.
func levelTasks(kind, ins string, levels []int, orc Oracle, thorough bool) (ts []Task) {
	if isSet(kind) {
		ins = "S"
	}
	var ps, ms []*Pattern
	for _, l := range levels {
		ps = append(ps, nodePattern(16, l))
		if l <= pick(thorough, 100, 34) {
			ms = append(ms, mixedPattern(l, 1), mixedPattern(l, 2))
			if thorough {
				ms = append(ms, mixedPattern(l, 16), mixedPattern(l, 17))
			}
		}
	}
	full := pick(thorough, 4, 16)
	ops := func(p *Pattern) []Op { return fillOps(p.n(), ins) }
	for i, ch := range chunks(ps, 60) {
		ts = append(ts, historyTask(fmt.Sprintf("%s/levels/%d", kind, i), kind, ch, ops, full, orc))
	}
	for i, ch := range chunks(ms, 60) {
		ts = append(ts, historyTask(fmt.Sprintf("%s/mixed/%d", kind, i), kind, ch, ops, full, orc))
	}
	return
}

// prop describes how a property is checked.
type propDef struct {
	stages func(tier string) []Stage
	tasks  func(stage, tier string) []Task
	text   func(stage, tier string) string
	assume []string
}

var props = map[string]*propDef{}

func structural(id string, kinds []string, codes string, orc Oracle, extra ...Stage) *propDef {
	d := &propDef{
		stages: func(string) []Stage {
			ss := structureStages("plain")
			if !isSet(kinds[0]) {
				ss = append(ss, Stage{Name: "types", Bin: "plain"})
			}
			return append(ss, extra...)
		},
		tasks: func(stage, tier string) []Task {
			return structureTasks(stage, tier, kinds, codes, orc)
		},
		text: func(stage, tier string) string { return structureText(stage, tier == "thorough") },
	}
	props[id] = d
	return d
}

func init() {
	maps, sets := cat(mainMaps, provMaps), cat(mainSets, provSets)
	scaled := func(d *propDef, kinds []string, orc Oracle) {
		st, ta, te := d.stages, d.tasks, d.text
		d.stages = func(tier string) []Stage { return append(st(tier), Stage{Name: "scale", Bin: "plain"}) }
		d.tasks = func(stage, tier string) []Task {
			if stage == "scale" {
				return scaleTasks(tier, kinds, orc)
			}
			return ta(stage, tier)
		}
		d.text = func(stage, tier string) string {
			if stage == "scale" {
				return fmt.Sprintf("one long history per kind with well-mixed hashes, but for 32 keys that share long prefixes: up to %d entries, then deletion of all", pick(tier == "thorough", 300007, 70001))
			}
			return te(stage, tier)
		}
	}
	scaled(structural("C01", maps, "SD", oLook), maps, oLook)
	scaled(structural("C02", sets, "SDb", oLook), sets, oLook)
	scaled(structural("C03", maps, "SMND", oLook|oMod), mainMaps, oLook|oMod)
	scaled(structural("C05", cat(mainMaps, mainSets), "SD", oLook|oSame|oPtr|oLen), cat(mainMaps, mainSets), oLook|oSame|oPtr|oLen)
	scaled(structural("C06", cat(mainMaps, mainSets), "SMDb", oLen), cat(mainMaps, mainSets), oLen)
	scaled(structural("C07", cat(mainMaps, mainSets), "SMD", oAll|oStop|oWrite), cat(mainMaps, mainSets), oAll|oStop)
	scaled(structural("C08", cat(mainMaps, mainSets), "SMD", oDep|oOrder), cat(mainMaps, mainSets), oDep|oOrder)
	scaled(structural("C09", mainMaps, "SMNDw", oPtr|oStale), mainMaps, oPtr)
}

func stages(bin string, names ...string) func(string) []Stage {
	return func(string) (r []Stage) {
		for _, n := range names {
			r = append(r, Stage{Name: n, Bin: bin})
		}
		return
	}
}

func textOf(m map[string]string) func(string, string) string {
	return func(stage, _ string) string { return m[stage] }
}

func init() {
	props["C04"] = &propDef{stages: stages("plain", "pairs", "triples", "quads", "crowd", "hashes", "large"), tasks: deepTasks, text: textOf(map[string]string{
		"pairs":   "two keys agreeing on exactly 0..239 digits (up to 14 complete 64-bit collisions), every state and operation",
		"triples": "three keys in every shape over branching levels around every rehash up to 239, every state and operation",
		"quads":   "four keys in every shape over selected levels up to 200 (quick) / 239 (thorough), every state and operation",
		"hashes":  "special hash values (0, all ones, powers of two, halves empty or full, ...) met on the way: every pair of them as first hashes of two keys, and as second or third hashes below equal special ones (quick: a third of the pairs), every operation in every contents; 12 keys with 12 of them, every change to every contents",
		"large":   "two keys agreeing on 0..41, 64, 128, 200, 224 and 239 digits in a container with 300 (and 5000) further entries that stay put",
		"crowd":   "10 keys agreeing on up to 100 digits, side by side or leaving the common path one by one: every change to every contents",
	})}
	props["C10"] = &propDef{stages: stages("plain", "closure", "seq", "node16"), tasks: copyTasks, text: textOf(map[string]string{
		"closure": "state closure with every operation through each of 7 copies (made by assignment, through another container, a callback, a channel, a struct; one re-made after every operation), all copies checked after every operation; also in containers with 300 further entries",
		"seq":     "every operation sequence of the given length over 2 keys and 3 copies",
		"node16":  "every change to every contents of a trie level, alternating between 4 copies",
	})}
	props["C11"] = &propDef{stages: stages("plain", "zero"), tasks: zeroTasks, text: textOf(map[string]string{
		"zero": "every sequence of methods (length 4, thorough 5) on the zero value of every container kind, and every operation sequence up to length 4 on new containers",
	})}
	props["C12"] = &propDef{stages: func(string) []Stage {
		return []Stage{{Name: "pure", Bin: "plain"}, {Name: "schedules", Bin: "instr"},
			{Name: "race", Bin: "race", Par: 3, Env: []string{"GOMAXPROCS=4", "GORACE=halt_on_error=1"}}}
	}, tasks: readersTasks, text: textOf(map[string]string{
		"pure":      "every read-only operation in every contents of 3 keys in many trie shapes (and of 8 keys; and of 3 keys beside 300 or 5000 further entries): the container's heap state is bit for bit the same afterwards",
		"schedules": "2 and 3 threads of read-only operations on one container, every schedule with at most 2 (triples: 1; thorough: 3 and 2) preemptions, a preemption being possible before every statement of the package",
		"race":      "the same operations free-running under the race detector: on 2 goroutines in every contents of 3 keys in many trie shapes and of 6 or 8 keys, on 4 goroutines in two of them repeatedly",
	})}
	props["C13"] = &propDef{stages: func(string) []Stage {
		return []Stage{{Name: "alternate", Bin: "plain"}, {Name: "many", Bin: "plain"}, {Name: "nested", Bin: "plain"}, {Name: "schedules", Bin: "instr"},
			{Name: "race", Bin: "race", Par: 3, Env: []string{"GOMAXPROCS=4", "GORACE=halt_on_error=1"}}}
	}, tasks: independenceTasks, text: textOf(map[string]string{
		"alternate": "every pair of container kinds, every sequence of 3 (thorough: 5) operations alternating between two containers; the memory of the other one must not change",
		"many":      "300 (thorough 1500) containers of one kind, and of all kinds, that go through all contents of 3 keys in step, slightly different from each other; neighbours checked after every operation, all after every step",
		"nested":    "every pair of kinds, every contents of 2 keys in both, every 2 operations on one inside a Mod or All callback of the other",
		"schedules": "writers on separate containers in two threads, every schedule with at most 1 preemption (2 for equal kinds and in the thorough tier) before any statement of the package",
		"race":      "writers on separate containers free-running on 4 goroutines under the race detector",
	})}
	props["C15"] = &propDef{stages: stages("plain", "strings", "ints", "positions", "arrays", "nil", "buffers"), tasks: keyTasks, text: textOf(map[string]string{
		"strings":   "every ordered pair of special string / byte-slice keys (empty, NUL bytes, prefixes, repetitions, non-UTF-8, lengths around 8..1024 differing in one byte), hashes forced to agree on 0, 1, 2, 5, 15 (thorough: also 3, 7, 12, 16, 17, 32) digits: state closure of the pair",
		"ints":      "every ordered pair of special int64 keys (0, -1, extremes, powers of two, halves equal or swapped), likewise",
		"arrays":    "array keys of 1, 20 and 64 bytes and of a struct type, differing in any one byte, likewise",
		"positions": "strings and byte slices of every length up to 72 (thorough 140) against themselves with any one byte changed and against each of their prefixes; keys of up to 1000 (thorough 4099) bytes against themselves with any one byte changed; keys of 255 to 131072 bytes with lengths equal modulo 256 or 65536, or one byte changed; ints differing in any one bit and in many pairs of bits; likewise",
		"nil":       "nil and empty byte slices",
		"buffers":   "byte-slice keys passed in buffers that are overwritten after every call that may not keep them; every operation in every contents of 3 keys; caller memory (and the capacity behind it) is never written",
	})}
	props["C16"] = &propDef{stages: func(string) []Stage {
		return []Stage{{Name: "bounds", Bin: "asan"}, {Name: "large", Bin: "asan"}, {Name: "gc", Bin: "instr", Env: []string{"GODEBUG=clobberfree=1", "GOGC=off"}}, {Name: "stack", Bin: "instr"}}
	}, tasks: memoryTasks, text: textOf(map[string]string{
		"bounds": "AddressSanitizer build: every operation in every contents of 3 and 4 keys in many trie shapes, of a 16-slot level, of nested levels, and of pairs down to level 239; " + branchText + "; every trie level filled and emptied at every rank",
		"large":  "AddressSanitizer build: one long history per kind with well-mixed hashes, but for 32 keys that share long prefixes, up to 20011 entries (thorough 70001)",
		"gc":     "instrumented build: a garbage collection before every statement of every operation in every contents of 3 keys in many shapes, and while a 16-slot level fills and empties; freed memory is overwritten; keys and values are reachable through the container only",
		"stack":  "instrumented build: the goroutine's stack moves, and the memory of the old one is overwritten, at every single statement, callback and call of a key method of every operation in every contents of 2 and 3 keys in many shapes, and of 5 keys on one level",
	}), assume: []string{"AddressSanitizer's redzones catch accesses up to 16 bytes or more beyond an allocation; farther accesses must show in the observable results"}}
	props["C17"] = &propDef{stages: stages("plain", "seq", "large", "walks"), tasks: releaseTasks, text: textOf(map[string]string{
		"seq":   "every operation sequence of length up to 3 (4 for sets and two keys; thorough one more) on 2 and 3 keys; weak pointers to every removed key and value must be cleared by a collection while the container lives",
		"large": "operation sequences of length 2 (thorough 3) on 2 and 3 keys, and every overwriting and deletion in every contents of them, in a container with 300 further entries that stay put",
		"walks": "every deletion from every contents of a trie level, of pairs and of chains of up to 9 keys, with weak pointers likewise",
	})}
	props["C18"] = &propDef{stages: stages("plain", "helpers", "lockstep"), tasks: contractTasks, text: textOf(map[string]string{
		"helpers":  "HashBytes, Bytes.Hash, String.Hash, Int.Hash and the Equal methods on every (pair of) special key(s) and every iteration count up to 600 (thorough 1100), under 3 seeds",
		"lockstep": "specialised container and generic container with the provided key type, same seed: every operation in every contents of 2 (branching levels 0..40), 3 and 4 keys (selected levels), all contents of 12 keys in five patterns; every operation in every contents of 2 and 3 keys beside 300 (and 5000) further entries",
	})}
	props["C19"] = &propDef{stages: func(string) []Stage {
		return []Stage{{Name: "tours", Bin: "plain"}, {Name: "level", Bin: "plain"}, {Name: "gc", Bin: "plain", Env: []string{"GODEBUG=clobberfree=1"}}}
	}, tasks: valueTasks, text: textOf(map[string]string{
		"tours": "26 value types (sizes 0 to 40000 bytes, with and without pointers) in 8 map kinds: Set, Set of the zero value, Mod with and without writing, Del and writing through Ptr in every contents of 2 and 3 keys in many trie shapes; all values, presences, addresses (alignment, overlap) compared after every operation",
		"level": "the same types: every insertion and deletion in every contents of up to 7 keys on one level, in pairs and in a chain",
		"gc":    "15 value types that refer to the heap, in 8 map kinds: every operation in every contents of 3 and 4 keys in four shapes, a collection after every operation, freed memory overwritten; only the container refers to the values",
	})}
	props["C20"] = &propDef{stages: stages("plain", "seeds", "calls3", "calls4", "hashes", "large", "level"), tasks: hashingTasks, text: textOf(map[string]string{
		"seeds":  "three containers each of every pair of kinds, made alternately, filled, emptied, copied; 3000 (thorough 20000) containers of one kind, and of all kinds: pairwise different seeds that stay",
		"calls3": "every call of Hash and Equal (for containers whose keys have no methods: every byte sequence hashed) during every operation in every contents of 2 and 3 keys",
		"calls4": "the same for 4 keys",
		"hashes": "the same for special hash values (0, all ones, powers of two, halves empty or full, ...) in pairs, as first hashes or as later ones below equal special ones",
		"large":  "the same for 2 and 3 keys beside 300 (and 5000) further entries that stay put",
		"level":  "the same for 10 keys on one level, in pairs and in chains: every change to every contents; " + branchText,
	})}
	props["C14"] = &propDef{stages: stages("plain", "closure3", "closure4", "node16"), tasks: callbackTasks, text: textOf(map[string]string{
		"closure3": "state closure for 2 and 3 keys, with Mod and All callbacks that panic, end the goroutine, read everything, write, or iterate in turn, at every position",
		"closure4": "the same for 4 keys",
		"node16":   "every contents of a trie level, with aborted Mod and All callbacks before every change",
	})}
}

func stagesFor(prop, tier string) []Stage {
	d := props[prop]
	if d == nil {
		panic("no such property: " + prop)
	}
	return d.stages(tier)
}

func tasksFor(prop, stage, tier string) []Task { return props[prop].tasks(stage, tier) }

func stageText(prop, stage, tier string) string { return props[prop].text(stage, tier) }

func assumptions(prop string) []string {
	return append([]string{
		"hash/maphash is replaced at build time by a stand-in with the documented behaviour (a hash is a function of seed and bytes written) whose values and seeds the checker chooses; the real one is used by the repository's own tests",
		"bounds: the key sets, hash patterns and history lengths listed under stages",
		"the Go compiler, runtime and the allocator's object sizes (used for state snapshots) are trusted",
	}, props[prop].assume...)
}
