package main

import (
	"fmt"
	"hash/maphash"
	"math"
	"sort"
	"strings"
)

// Pattern is a choice of hash values: a stream of 4-bit digits per key, 16 per hash.
// Digit L decides the slot at trie level L; digits 16i..16i+15 (low bits first) are the
// i-th hash of the key.
type Pattern struct {
	Name   string
	Digits [][]byte // per key; all of the same length, a multiple of 16
	order  []int    // keys by digit stream, computed
	comm   [][]int  // common, computed
}

func (p *Pattern) n() int { return len(p.Digits) }

func (p *Pattern) rounds() int { return len(p.Digits[0]) / 16 }

func (p *Pattern) row(k, iter int) (h uint64) {
	for j := 15; j >= 0; j-- {
		h = h<<4 | uint64(p.Digits[k][iter*16+j])
	}
	return
}

// table is the hash table of the pattern for the encodings of kind.
func (p *Pattern) table(kind string, u *Universe) map[string]uint64 {
	t := make(map[string]uint64, p.n()*p.rounds())
	for k := range p.Digits {
		unit := u.encoding(kind, k)
		var data []byte
		for i := 0; i < p.rounds(); i++ {
			data = append(data, unit...)
			t[string(data)] = p.row(k, i)
		}
	}
	if base, n := crowdSize(kind); n > 0 {
		crowdTable(t, p, base, n)
	}
	return t
}

// common is the number of leading digits keys a and b share.
func (p *Pattern) common(a, b int) int {
	if p.comm == nil {
		p.comm = make([][]int, p.n())
		for i := range p.comm {
			p.comm[i] = make([]int, p.n())
			for j := range p.comm[i] {
				p.comm[i][j] = p.common0(i, j)
			}
		}
	}
	return p.comm[a][b]
}

func (p *Pattern) common0(a, b int) int {
	da, db := p.Digits[a], p.Digits[b]
	for i := range da {
		if da[i] != db[i] {
			return i
		}
	}
	return len(da)
}

// depth is the level at which key k lies among the keys of mask.
func (p *Pattern) depth(k int, mask uint64) (d int) {
	for j := range p.Digits {
		if j != k && mask>>j&1 != 0 {
			if c := p.common(k, j); c > d {
				d = c
			}
		}
	}
	return
}

func (p *Pattern) meanDepth(mask uint64) float64 {
	n, sum := 0, 0
	for k := range p.Digits {
		if mask>>k&1 != 0 {
			n++
			sum += p.depth(k, mask)
		}
	}
	if n == 0 {
		return 0
	}
	return float64(sum) / float64(n)
}

func sameFloat(a, b float64) bool { return a == b || math.Abs(a-b) <= 1e-9*math.Abs(b) }

func (p *Pattern) String() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s:", p.Name)
	for k, d := range p.Digits {
		fmt.Fprintf(&sb, " k%d=", k)
		for i, x := range d {
			if i > 0 && i%16 == 0 {
				sb.WriteByte('.')
			}
			fmt.Fprintf(&sb, "%x", x)
		}
	}
	return sb.String()
}

// prefixDigit is the digit shared keys have at level L; over the levels it takes many
// values, 0 and 15 among them.
func prefixDigit(L int) byte { return byte(15 * (L + 1) % 16 * 7 % 16) }

// finish pads the digit streams (nil-terminated at different lengths) with
// well-mixed digits up to a whole number of hashes beyond the longest one.
func finish(name string, ds [][]byte) *Pattern {
	max := 0
	for _, d := range ds {
		if len(d) > max {
			max = len(d)
		}
	}
	n := (max + 15) / 16 * 16
	for k := range ds {
		for L := len(ds[k]); L < n; L++ {
			x := maphash.VerifMix(uint64(k+1), []byte{byte(L)})
			ds[k] = append(ds[k], byte(x&15))
		}
	}
	return &Pattern{Name: name, Digits: ds}
}

// shapes enumerates every ordered trie shape of n keys whose branching levels lie in
// levels (ascending): every way of splitting the keys, in slot order, at every choice
// of levels. Keys are numbered in slot order; the explorations treat all keys alike,
// so this covers every labelled shape too.
func shapes(n int, levels []int, emit func(*Pattern)) {
	ds := make([][]byte, n)
	var groups func(todo [][2]int, from []int, path string, ds [][]byte)
	groups = func(todo [][2]int, from []int, path string, ds [][]byte) {
		if len(todo) == 0 {
			cp := make([][]byte, n)
			for i := range ds {
				cp[i] = append([]byte(nil), ds[i]...)
			}
			emit(finish(fmt.Sprintf("shape%d%s", n, path), cp))
			return
		}
		g, f := todo[0], from[0]
		size := g[1] - g[0]
		if size == 1 {
			groups(todo[1:], from[1:], path, ds)
			return
		}
		for _, lv := range levels {
			if lv < f {
				continue
			}
			// compositions of size into >= 2 parts
			for cut := 1; cut < 1<<(size-1); cut++ {
				var parts [][2]int
				s := g[0]
				for i := 0; i < size-1; i++ {
					if cut>>i&1 != 0 {
						parts = append(parts, [2]int{s, g[0] + i + 1})
						s = g[0] + i + 1
					}
				}
				parts = append(parts, [2]int{s, g[1]})
				nd := make([][]byte, n)
				for i := range ds {
					nd[i] = append([]byte(nil), ds[i]...)
				}
				slots := pickSlots(len(parts), lv)
				for pi, pt := range parts {
					for k := pt[0]; k < pt[1]; k++ {
						for L := len(nd[k]); L < lv; L++ {
							nd[k] = append(nd[k], prefixDigit(L))
						}
						nd[k] = append(nd[k], slots[pi])
					}
				}
				var nt [][2]int
				var nf []int
				for _, pt := range parts {
					nt, nf = append(nt, pt), append(nf, lv+1)
				}
				groups(append(nt, todo[1:]...), append(nf, from[1:]...),
					fmt.Sprintf("%s,%d:%v", path, lv, partSizes(parts)), nd)
			}
		}
	}
	groups([][2]int{{0, n}}, []int{0}, "", ds)
}

func partSizes(ps [][2]int) (r []int) {
	for _, p := range ps {
		r = append(r, p[1]-p[0])
	}
	return
}

// pickSlots chooses b ascending slots, varying with the level.
func pickSlots(b, lv int) (r []byte) {
	sets := [][]byte{}
	switch b {
	case 2:
		sets = [][]byte{{0, 15}, {0, 1}, {14, 15}, {7, 8}, {3, 12}}
	case 3:
		sets = [][]byte{{0, 7, 15}, {0, 1, 2}, {13, 14, 15}, {6, 8, 9}}
	case 4:
		sets = [][]byte{{0, 5, 10, 15}, {0, 1, 2, 3}, {12, 13, 14, 15}}
	default:
		for i := 0; i < b; i++ {
			r = append(r, byte(i*15/(b-1)))
		}
		return
	}
	return sets[lv%len(sets)]
}

// nodePattern puts n keys side by side in one trie level, at slots 0, 16/n, ...
func nodePattern(n, level int) *Pattern {
	ds := make([][]byte, n)
	for k := range ds {
		for L := 0; L < level; L++ {
			ds[k] = append(ds[k], prefixDigit(L))
		}
		ds[k] = append(ds[k], byte(k*16/n))
	}
	return finish(fmt.Sprintf("node%d@%d", n, level), ds)
}

// mixedPattern puts 24 keys into the 16 slots of one level: single keys in the odd
// slots and pairs, which split `below` levels deeper, in the even ones.
func mixedPattern(level, below int) *Pattern {
	ds := make([][]byte, 24)
	for k := range ds {
		for L := 0; L < level; L++ {
			ds[k] = append(ds[k], prefixDigit(L))
		}
		slot := k / 3 * 2
		if k%3 == 2 {
			ds[k] = append(ds[k], byte(slot+1))
			continue
		}
		ds[k] = append(ds[k], byte(slot))
		for L := level + 1; L < level+below; L++ {
			ds[k] = append(ds[k], prefixDigit(L+slot))
		}
		ds[k] = append(ds[k], byte(slot/2+k%3*7))
	}
	return finish(fmt.Sprintf("mixed24@%d+%d", level, below), ds)
}

// pairPattern puts n/2 pairs of keys at one level; each pair splits `below` levels deeper.
func pairPattern(n, level, below int) *Pattern {
	ds := make([][]byte, n)
	for k := range ds {
		for L := 0; L < level; L++ {
			ds[k] = append(ds[k], prefixDigit(L))
		}
		ds[k] = append(ds[k], byte(k/2*32/n))
		for L := level + 1; L < level+below; L++ {
			ds[k] = append(ds[k], prefixDigit(L+k/2))
		}
		ds[k] = append(ds[k], byte((k/2+k%2*5+3)%16))
	}
	return finish(fmt.Sprintf("pairs%d@%d+%d", n, level, below), ds)
}

// chainPattern lets one key leave the common path at each of n-1 consecutive levels.
func chainPattern(n, level, step int) *Pattern {
	ds := make([][]byte, n)
	for k := range ds {
		end := level + k*step
		if k == n-1 {
			end = level + (n-2)*step
		}
		for L := 0; L < end; L++ {
			ds[k] = append(ds[k], prefixDigit(L))
		}
		d := prefixDigit(end)
		if k < n-1 {
			d = (d + byte(3+k)) % 16
		}
		ds[k] = append(ds[k], d)
	}
	return finish(fmt.Sprintf("chain%d@%d/%d", n, level, step), ds)
}

// sorted returns the keys of mask in the order of their digit streams.
func (p *Pattern) sorted(mask uint64) (r []int) {
	if p.order == nil {
		for k := range p.Digits {
			p.order = append(p.order, k)
		}
		sort.SliceStable(p.order, func(i, j int) bool {
			return string(p.Digits[p.order[i]]) < string(p.Digits[p.order[j]])
		})
	}
	for _, k := range p.order {
		if mask>>k&1 != 0 {
			r = append(r, k)
		}
	}
	return
}

func rng(a, b int) (r []int) {
	for ; a <= b; a++ {
		r = append(r, a)
	}
	return
}

// install makes p the hash function of kind's keys for the given seeds; every other
// seed hashes with the default mix.
func install(p *Pattern, kind string, u *Universe, seeds ...int) {
	maphash.VerifTables = nil
	addTable(p, kind, u, seeds...)
}

func addTable(p *Pattern, kind string, u *Universe, seeds ...int) {
	t := p.table(kind, u)
	for _, s := range seeds {
		for len(maphash.VerifTables) <= s {
			maphash.VerifTables = append(maphash.VerifTables, nil)
		}
		if maphash.VerifTables[s] == nil {
			maphash.VerifTables[s] = t
			continue
		}
		m := map[string]uint64{}
		for k, v := range maphash.VerifTables[s] {
			m[k] = v
		}
		for k, v := range t {
			m[k] = v
		}
		maphash.VerifTables[s] = m
	}
}
