package main

import "fmt"

// hashWords are hash values that code might take for something else (not computed yet,
// no entry, a mask, a sign) or cut short.
var hashWords = []uint64{
	0, 1, 2, 0xf, 0x10, 0x7fffffff, 0x80000000, 0xffffffff, 1 << 32, 0xffffffff00000000, 0x0fffffffffffffff, 1 << 60,
	0x7fffffffffffffff, 1 << 63, 1<<63 + 1, 0x8888888888888888, 0x7777777777777777, 0xfffffffffffffff0, 0xfffffffffffffffe, 0xffffffffffffffff,
}

// wordsPattern gives key k the hashes rows[k], then well-mixed ones.
func wordsPattern(name string, rows ...[]uint64) *Pattern {
	ds := make([][]byte, len(rows))
	for k, r := range rows {
		for _, w := range r {
			for j := 0; j < 16; j++ {
				ds[k] = append(ds[k], byte(w>>(4*j)&15))
			}
		}
	}
	return finish(name, ds)
}

// hashPatterns: every pair of hash words for two keys, as first hashes, or as the
// second (third) ones below any equal first (and second) one; a third key branches off
// somewhere.
func hashPatterns(thorough bool) (ps []*Pattern) {
	third := func(i int) []uint64 { return []uint64{uint64(i)*0x9e3779b97f4a7c15 ^ uint64(i)<<3} }
	n := 0
	for _, a := range hashWords {
		for _, b := range hashWords {
			if a >= b {
				continue
			}
			n++
			ps = append(ps, wordsPattern(fmt.Sprintf("hashes:%x,%x", a, b), []uint64{a}, []uint64{b}, third(n)))
			for i, w := range hashWords {
				n++
				if thorough || n%3 == 0 {
					ps = append(ps, wordsPattern(fmt.Sprintf("hashes:%x.%x,%x", w, a, b), []uint64{w, a}, []uint64{w, b}, []uint64{w}))
				}
				v := hashWords[(i*7+n)%len(hashWords)]
				if thorough || n%12 == 0 {
					ps = append(ps, wordsPattern(fmt.Sprintf("hashes:%x.%x.%x,%x", w, v, a, b), []uint64{w, v, a}, []uint64{w, v, b}, third(n)))
				}
			}
		}
	}
	return
}

// allWordsPattern has one key per hash word, at the given number of rehashes.
func allWordsPattern(rehashes, n, step int) *Pattern {
	rows := make([][]uint64, n)
	for k := range rows {
		for i := 0; i < rehashes; i++ {
			rows[k] = append(rows[k], hashWords[(i*5)%len(hashWords)])
		}
		rows[k] = append(rows[k], hashWords[k*step%len(hashWords)])
	}
	return wordsPattern(fmt.Sprintf("allhashes:%d.%d", rehashes, n), rows...)
}

func hashTasks(kind, codes string, orc Oracle, thorough bool) (ts []Task) {
	ins := "S"
	if hasCode(codes, 'M') && !isSet(kind) {
		ins = "SM"
	}
	cs := ins + "D"
	for i, ch := range chunks(hashPatterns(thorough), 2000) {
		ts = append(ts, historyTask(fmt.Sprintf("%s/hashes/%d", kind, i), kind, ch, func(p *Pattern) []Op { return tour(p.n(), cs) }, 2, orc))
	}
	ps := []*Pattern{allWordsPattern(0, 12, 1), allWordsPattern(0, 12, 3), allWordsPattern(1, 12, 1), allWordsPattern(1, 12, 7)}
	ts = append(ts, historyTask(kind+"/allhashes", kind, ps, func(p *Pattern) []Op { return cubeOps(euler(12), ins) }, 16, orc))
	return
}
