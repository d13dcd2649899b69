package main

import "fmt"

// slotPatterns puts keys into every combination of slots: two keys in a level below
// every digit of the level above; three keys in one level; and two keys with a third
// one beside their branch.
func slotPatterns(thorough bool) (ps []*Pattern) {
	row := func(level int, last ...byte) (d []byte) {
		for L := 0; L < level; L++ {
			d = append(d, prefixDigit(L))
		}
		return append(d, last...)
	}
	for _, lv := range pick(thorough, []int{1, 2, 3, 12, 15, 16, 17, 18, 31, 32, 33}, []int{1, 2, 15, 16, 17}) {
		for pd := byte(0); pd < 16; pd++ {
			for a := byte(0); a < 16; a++ {
				for b := a + 1; b < 16; b++ {
					ps = append(ps, finish(fmt.Sprintf("slots@%d.%x:%x,%x", lv, pd, a, b), [][]byte{row(lv-1, pd, a), row(lv-1, pd, b)}))
				}
			}
		}
	}
	for _, lv := range pick(thorough, []int{0, 1, 2, 15, 16, 17}, []int{0, 1, 16}) {
		for a := byte(0); a < 16; a++ {
			for b := a + 1; b < 16; b++ {
				for c := b + 1; c < 16; c++ {
					ps = append(ps, finish(fmt.Sprintf("slots@%d:%x,%x,%x", lv, a, b, c), [][]byte{row(lv, a), row(lv, b), row(lv, c)}))
				}
			}
		}
	}
	for _, lv := range pick(thorough, []int{0, 1, 14, 15}, []int{0}) {
		for pd := byte(0); pd < 16; pd++ {
			for s := byte(0); s < 16; s++ {
				for a := byte(0); a < 16 && s != pd; a++ {
					for b := a + 1; b < 16; b++ {
						if thorough || (int(a)*7+int(b)*3+int(s)+int(pd))%15 == 0 {
							ps = append(ps, finish(fmt.Sprintf("slots@%d.%x:%x,%x|%x", lv, pd, a, b, s), [][]byte{row(lv, pd, a), row(lv, pd, b), row(lv, s)}))
						}
					}
				}
			}
		}
	}
	return
}

// branchPattern: keys 0 and 1 share slot r of a level and part `below` levels deeper,
// keys 2.. have one of the other slots each, in order.
func branchPattern(level, r, below int) *Pattern {
	ds := make([][]byte, 17)
	for k := range ds {
		for L := 0; L < level; L++ {
			ds[k] = append(ds[k], prefixDigit(L))
		}
		if k > 1 {
			ds[k] = append(ds[k], byte(k-2+b2i2(k-2 >= r)))
			continue
		}
		ds[k] = append(ds[k], byte(r))
		for L := level + 1; L < level+below; L++ {
			ds[k] = append(ds[k], prefixDigit(L+r))
		}
		ds[k] = append(ds[k], byte((r*5+k*(3+r%7))%16))
	}
	return finish(fmt.Sprintf("branch@%d.%x+%d", level, r, below), ds)
}

func b2i2(b bool) int {
	if b {
		return 1
	}
	return 0
}

// branchOps changes the branch of a branchPattern in every way for every number of
// entries in slots below and above it, and those numbers for every state of the branch.
func branchOps(r int, ins string) (ops []Op) {
	step := 0
	in := func(k int) {
		ops = append(ops, Op{C: ins[step%len(ins)], K: uint8(k)})
		step++
	}
	del := func(k int) { ops = append(ops, Op{C: 'D', K: uint8(k)}) }
	child := func() { // every change of the branch
		step++
		for _, o := range cubeOps(euler(2), "S") {
			if o.C == 'D' {
				del(int(o.K))
			} else {
				in(int(o.K))
			}
		}
	}
	// move does one change of the neighbours in every state of the branch
	move := func(do, undo func(int), k int) {
		do(k)
		undo(k)
		in(0)
		do(k)
		undo(k)
		in(1)
		do(k)
		undo(k)
		del(0)
		do(k)
		del(1)
	}
	above := 15 - r
	for lo := 0; ; lo++ {
		for i := 0; i < above; i++ {
			child()
			if lo%2 == 0 {
				move(in, del, 2+r+i)
			} else {
				move(del, in, 2+r+above-1-i)
			}
		}
		child()
		if lo == r {
			return
		}
		move(in, del, 2+lo)
	}
}

// branchWalk changes the branch in every way in every contents of the other slots.
func branchWalk(ins string) (ops []Op) {
	for i, o := range cubeOps(gray(15), ins) {
		for j, c := range cubeOps(euler(2), "S") {
			if c.C == 'S' {
				c.C = ins[(i+j)%len(ins)]
			}
			ops = append(ops, c)
		}
		o.K += 2
		ops = append(ops, o)
	}
	return
}

// branchPatterns are the branchPatterns for every slot; branchTour is the history for one.
func branchPatterns(thorough bool) (ps []*Pattern) {
	for r := 0; r < 16; r++ {
		for _, lv := range pick(thorough, []int{0, 1, 2, 13, 14, 15, 16, 31}, []int{0, 1, 15}) {
			ps = append(ps, branchPattern(lv, r, 1), branchPattern(lv, r, 2))
			if thorough {
				ps = append(ps, branchPattern(lv, r, 3), branchPattern(lv, r, 17))
			}
		}
	}
	return
}

func branchTour(ins string) func(*Pattern) []Op {
	return func(p *Pattern) []Op {
		for L, d := range p.Digits[0] {
			if d != p.Digits[2][L] || d != p.Digits[3][L] {
				return branchOps(int(d), ins)
			}
		}
		panic("verif: no branch")
	}
}

const branchText = "a two-key branch in every slot of a level, every number of entries in the slots below and above it: every change of the branch for each, and every change of the numbers in each state of the branch"

func slotTasks(kind, codes string, orc Oracle, thorough bool) (ts []Task) {
	ins := "S"
	if hasCode(codes, 'M') && !isSet(kind) {
		ins = "SM"
	}
	cs := ins + "D"
	for i, ch := range chunks(slotPatterns(thorough), pick(thorough, 8000, 3000)) {
		ts = append(ts, historyTask(fmt.Sprintf("%s/slots/%d", kind, i), kind, ch, func(p *Pattern) []Op { return tour(p.n(), cs) }, 2, orc))
	}
	return
}

func branchTasks(kind, codes string, orc Oracle, thorough bool) (ts []Task) {
	ins := "S"
	if hasCode(codes, 'M') && !isSet(kind) {
		ins = "SM"
	}
	var ws []*Pattern
	for r := 0; r < 16; r++ {
		if thorough {
			ws = append(ws, branchPattern(0, r, 1), branchPattern(1, r, 1), branchPattern(0, r, 2))
		} else if r%7 == 1 {
			ws = append(ws, branchPattern(r%2, r, 1))
		}
	}
	for i, ch := range chunks(branchPatterns(thorough), 48) {
		ts = append(ts, historyTask(fmt.Sprintf("%s/branch/%d", kind, i), kind, ch, branchTour(ins), 4, orc))
	}
	for i, ch := range chunks(ws, 1) {
		ts = append(ts, historyTask(fmt.Sprintf("%s/branchwalk/%d", kind, i), kind, ch, func(p *Pattern) []Op { return branchWalk(ins) }, 32, orc))
	}
	return
}
