package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"hash/maphash"
	"runtime"
	"strings"
	"unsafe"
	"weak"

	"github.com/wdamron/amt"
)

// C15: key identity over the key domain.

// specialStrings are keys for strings and byte slices.
func specialStrings(thorough bool) (r []string) {
	r = []string{"", "\x00", "\x00\x00", "a", "b", "A", "aa", "aaa", "ab", "ba", "a\x00", "\x00a", "a\x00b", "a\x00c",
		"\xff", "\xff\xfe", "\xc3\xa9", "e\xcc\x81", "\xef\xbf\xbd", "0", "00", "key", "key ", " key", "KEY"}
	// lengths around word, cache-line and buffer sizes; equal but for one byte
	ls := []int{7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1024}
	if thorough {
		ls = append(ls, 1, 2, 3, 4, 5, 6, 10, 11, 12, 13, 14, 24, 47, 48, 49, 100, 511, 512, 513)
	}
	for _, n := range ls {
		x := strings.Repeat("x", n)
		r = append(r, x, "y"+x[1:], x[:n-1]+"y", x[:n/2]+"y"+x[n/2+1:])
	}
	return
}

func specialInts(thorough bool) (r []int64) {
	r = []int64{0, -1, -9223372036854775808, 9223372036854775807, -9223372036854775807, 2, 3, 10, 255, 65535, -2, -256,
		0x0123456789abcdef, -0x0123456789abcdef, 0xffff, 0xffffffff, 0x1ffffffff, -0x80000000, -0x100000000, 0x5555555555555555, -0x5555555555555556,
		0x00010000_00000001, 0x00000001_00010000}
	for b := 0; b < 63; b++ {
		if thorough || b%4 == 0 || b%8 == 7 || b == 31 || b == 32 || b == 33 || b == 1 {
			r = append(r, 1<<b)
		}
	}
	seen := map[int64]bool{}
	var q []int64
	for _, x := range r {
		if !seen[x] {
			seen[x] = true
			q = append(q, x)
		}
	}
	return q
}

func specialArrs(thorough bool) (r []AK) {
	base := AK{}
	for i := range base {
		base[i] = byte(i * 7)
	}
	r = append(r, AK{}, base)
	for i := range base {
		x := base
		x[i] ^= 1
		r = append(r, x)
		if thorough {
			x = base
			x[i] ^= 0x80
			r = append(r, x)
			x = AK{}
			x[i] = 0xff
			r = append(r, x)
		}
	}
	return
}

// Further array key types, at the size limits of the key encoding.
type (
	A1  [1]byte
	A64 [64]byte
	AS  struct {
		X uint16
		Y int64
		Z [3]byte
	}
)

func (k A1) KeyBytes() (r [64]byte)  { copy(r[:], k[:]); return }
func (k A64) KeyBytes() (r [64]byte) { return k }
func (k AS) KeyBytes() (r [64]byte) {
	binary.LittleEndian.PutUint16(r[:], k.X)
	binary.LittleEndian.PutUint64(r[2:], uint64(k.Y))
	copy(r[10:], k.Z[:])
	return
}

// arrBoxes gives boxes over a list of array keys of any type.
func arrBoxes[K amt.ArrKey](name string, keys []K) (bs map[string]func() Box[int], enc func(int) []byte) {
	ks := &Keys[K]{ins: keys, look: keys, idx: func(k K) int {
		for i := range keys {
			if keys[i] == k {
				return i
			}
		}
		return -1
	}}
	return map[string]func() Box[int]{
		"ArrMap[" + name + "]": func() Box[int] {
			return newMapBox[int](amt.NewArrMap[K, int](), ks)
		},
		"ArrSet[" + name + "]": func() Box[int] { return newSetBox[int](amt.NewArrSet[K](), ks) },
	}, nil
}

// twoKeyUniverse holds just two keys of each type.
func twoKeyUniverse(s1, s2 string, i1, i2 int64, a1, a2 AK) *Universe {
	return makeUniverse([]string{s1, s2}, []int64{i1, i2}, []AK{a1, a2})
}

// collidePattern lets two keys agree on exactly c digits.
func collidePattern(c int) *Pattern {
	ds := make([][]byte, 2)
	for k := range ds {
		for L := 0; L < c; L++ {
			ds[k] = append(ds[k], prefixDigit(L))
		}
		ds[k] = append(ds[k], []byte{15, 2}[k])
	}
	return finish(fmt.Sprintf("agree%d", c), ds)
}

// consistent tells whether the pattern's table can be a hash function: repetitions of
// the two keys' encodings must not coincide.
func (p *Pattern) consistent(e []([]byte)) bool {
	m := map[string]uint64{}
	for k := range p.Digits {
		var data []byte
		for i := 0; i < p.rounds(); i++ {
			data = append(data, e[k]...)
			if x, ok := m[string(data)]; ok && x != p.row(k, i) {
				return false
			}
			m[string(data)] = p.row(k, i)
		}
	}
	return true
}

// pairCheck explores the state closure of two given keys.
func (c *Ctx) pairCheck(kind string, u *Universe, what string, collisions []int) {
	for _, n := range collisions {
		p := collidePattern(n)
		e := [][]byte{u.encoding(kind, 0), u.encoding(kind, 1)}
		c.note = fmt.Sprintf("%s, %s, hashes agree on %d digits", kind, what, n)
		if bytes.Equal(e[0], e[1]) {
			// the code hashes both keys alike: any hash function makes them collide
			c.outcome("keys with equal encodings")
		} else if !p.consistent(e) {
			continue
		}
		r := newRunner(c, kind, u, p, oLook|oLen|oAll|oMod)
		r.what = what
		r.closure(alphabet(2, codesFor(kind, "SMD"), false), 100)
	}
}

func keyTasks(stage, tier string) (ts []Task) {
	thorough := tier == "thorough"
	col := []int{0, 1, 2, 5, 15}
	if thorough {
		col = []int{0, 1, 2, 3, 7, 12, 15, 16, 17, 32}
	}
	base := []AK{{1}, {2}}
	switch stage {
	case "strings":
		ss := specialStrings(thorough)
		for _, kind := range []string{"StringMap", "StringSet", "BytesMap", "BytesSet", "Map[String]", "Set[String]", "Map[Bytes]", "Set[Bytes]"} {
			for part := 0; part < 4; part++ {
				ts = append(ts, Task{Name: fmt.Sprintf("%s/%d", kind, part), Run: func(c *Ctx) {
					n := 0
					for i := range ss {
						for j := range ss {
							if n++; i == j || n%4 != part {
								continue
							}
							if c.late() {
								return
							}
							c.pairCheck(kind, twoKeyUniverse(ss[i], ss[j], 1, 2, base[0], base[1]), fmt.Sprintf("keys %.40q (%d bytes) and %.40q (%d bytes)", ss[i], len(ss[i]), ss[j], len(ss[j])), col)
						}
					}
					c.sample(c.note)
				}})
			}
		}
	case "ints":
		is := specialInts(thorough)
		for _, kind := range []string{"IntMap", "IntSet", "Map[Int]", "Set[Int]"} {
			for part := 0; part < 4; part++ {
				ts = append(ts, Task{Name: fmt.Sprintf("%s/%d", kind, part), Run: func(c *Ctx) {
					n := 0
					for i := range is {
						for j := range is {
							if n++; i == j || n%4 != part {
								continue
							}
							if c.late() {
								return
							}
							c.pairCheck(kind, twoKeyUniverse("a", "b", is[i], is[j], base[0], base[1]), fmt.Sprintf("keys %d and %d", is[i], is[j]), col)
						}
					}
					c.sample(c.note)
				}})
			}
		}
	case "positions":
		// keys that differ in one place: any byte of strings of many lengths, any bit of ints
		flip := func(s string, i int, x byte) string { return s[:i] + string([]byte{s[i] ^ x}) + s[i+1:] }
		for _, kind := range []string{"StringMap", "StringSet", "BytesMap", "BytesSet"} {
			for part := 0; part < 4; part++ {
				ts = append(ts, Task{Name: fmt.Sprintf("%s/%d", kind, part), Run: func(c *Ctx) {
					pair := func(s, t string, cols []int) {
						c.pairCheck(kind, twoKeyUniverse(s, t, 1, 2, base[0], base[1]), fmt.Sprintf("keys %.40q (%d bytes) and %.40q (%d bytes), differing or ending at byte %d", s, len(s), t, len(t), diffAt(s, t)), cols)
					}
					for n := part + 1; n <= pick(thorough, 140, 72); n += 4 {
						s := strings.Repeat("0123456789abcdefghijklm", 8)[:n]
						for i := 0; i < n; i++ {
							if c.late() {
								return
							}
							pair(s, flip(s, i, 1), []int{0, 15})
							pair(flip(s, i, 0x80), s, []int{2})
							pair(s, s[:i], []int{0, 15})
						}
					}
					// lengths that agree in their low bits; long keys differing in one byte
					long := strings.Repeat("The quick brown fox. ", 7000)
					for i, n := range []int{3, 256 + 3, 255, 256, 512, 4096, 65535, 65536, 65536 + 3, 131072} {
						if i%4 != part {
							continue
						}
						for _, m := range []int{3, 256 + 3, 256, 65536, 65536 + 3} {
							if m != n {
								pair(long[:n], long[:m], []int{0, 15})
							}
						}
						for _, j := range []int{0, 1, 255, 256, 257, n / 2, 65535, 65536, n - 9, n - 2, n - 1} {
							if j >= 0 && j < n && !c.late() {
								pair(long[:n], flip(long[:n], j, 1), []int{0, 15})
							}
						}
					}
					// every byte of some longer keys
					for _, n := range pick(thorough, []int{160, 200, 255, 256, 257, 300, 511, 513, 1000, 2047, 4099}, []int{160, 256, 257, 300, 1000}) {
						for i := part; i < n; i += 4 {
							if c.late() {
								return
							}
							pair(long[:n], flip(long[:n], i, 4), []int{15})
						}
					}
					c.sample(c.note)
				}})
			}
		}
		for _, kind := range []string{"IntMap", "IntSet"} {
			ts = append(ts, Task{Name: kind, Run: func(c *Ctx) {
				for _, x := range []int64{0, -1, 0x0123456789ABCDEF, 0x55555555_AAAAAAAA, 1 << 32, 0xFFFFFFFF} {
					for i := 0; i < 64; i++ {
						for j := i; j < 64; j++ {
							if c.late() {
								return
							}
							y := x ^ 1<<i ^ 1<<j
							if i == j {
								y = x ^ 1<<i
							} else if !thorough && (j-i)%8 != 0 && j != i+1 {
								continue
							}
							c.pairCheck(kind, twoKeyUniverse("a", "b", x, y, base[0], base[1]), fmt.Sprintf("keys %#x and %#x", x, y), []int{0, 15})
						}
					}
				}
				c.sample(c.note)
			}})
		}
	case "arrays":
		as := specialArrs(thorough)
		for _, kind := range []string{"ArrMap", "ArrSet"} {
			ts = append(ts, Task{Name: kind, Run: func(c *Ctx) {
				for i := range as {
					for j := range as {
						if i != j && !c.late() {
							c.pairCheck(kind, twoKeyUniverse("a", "b", 1, 2, as[i], as[j]), fmt.Sprintf("keys %x and %x", as[i], as[j]), col)
						}
					}
				}
				c.sample(c.note)
			}})
		}
		var a1 []A1
		for i := 0; i < 256; i += 5 {
			a1 = append(a1, A1{byte(i)})
		}
		a64 := []A64{{}}
		for i := 0; i < 64; i++ {
			x := A64{}
			x[i] = 1
			a64 = append(a64, x)
			x[i] = 0x80
			a64 = append(a64, x)
		}
		as2 := []AS{{}, {X: 1}, {X: 256}, {Y: 1}, {Y: -1}, {Y: 1 << 32}, {Z: [3]byte{0, 0, 1}}, {Z: [3]byte{1}}}
		ts = append(ts,
			Task{Name: "A1", Run: func(c *Ctx) { arrDomain(c, "A1", a1, thorough) }},
			Task{Name: "A64", Run: func(c *Ctx) { arrDomain(c, "A64", a64, thorough) }},
			Task{Name: "AS", Run: func(c *Ctx) { arrDomain(c, "AS", as2, thorough) }})
	case "nil":
		// nil and empty byte slices are equal keys
		for _, kind := range []string{"BytesMap", "BytesSet", "Map[Bytes]", "Set[Bytes]"} {
			ts = append(ts, Task{Name: kind, Run: func(c *Ctx) {
				for v := 0; v < 4; v++ {
					u := twoKeyUniverse("", "q", 1, 2, base[0], base[1])
					e := [][]byte{nil, {}, make([]byte, 0, 8), []byte("xyz")[1:1]}
					u.byt.ins[0], u.byt.look[0] = e[v], e[(v+1)%4]
					u.gbyt.ins[0], u.gbyt.look[0] = e[v], e[(v+1)%4]
					c.pairCheck(kind, u, fmt.Sprintf("nil / empty keys, variant %d", v), []int{0, 1, 5, 15})
				}
				c.sample(c.note)
			}})
		}
	case "buffers":
		// the caller's slices: reused after calls that may not keep them, never written
		for _, kind := range []string{"BytesMap", "BytesSet", "Map[Bytes]", "Set[Bytes]"} {
			ps := collect(3, pick(thorough, levels40, []int{0, 1, 2, 15, 16, 17}))
			for i, ch := range chunks(ps, 40) {
				ts = append(ts, Task{Name: fmt.Sprintf("%s/%d", kind, i), Run: func(c *Ctx) {
					for _, p := range ch {
						if c.late() {
							return
						}
						u := stdKeys(3)
						r := newRunner(c, kind, u, p, oLook|oLen|oAll|oMod)
						r.wrap = func(b Box[int]) Box[int] { return &bufBox{Box: b, kind: kind, u: u} }
						c.note = kind + " with reused key buffers, " + p.String()
						ops := tour(3, codesFor(kind, "SMNDb"))
						if f := r.exec(ops); f != nil {
							r.report(ops, f)
						}
						c.res.States += 8
						if kind[0] == 'B' {
							checkSlack(u.byt.ins)
						} else {
							checkSlackB(u.gbyt.ins)
						}
					}
					c.sample(c.note)
				}})
			}
		}
	}
	return
}

// diffAt is the first position where s and t differ.
func diffAt(s, t string) (i int) {
	for i < len(s) && i < len(t) && s[i] == t[i] {
		i++
	}
	return
}

// arrDomain explores every pair of the given array keys, with hashes forced to collide.
func arrDomain[K amt.ArrKey](c *Ctx, name string, keys []K, thorough bool) {
	for i := range keys {
		for j := range keys {
			if i == j {
				continue
			}
			if c.late() {
				return
			}
			bs, _ := arrBoxes(name, []K{keys[i], keys[j]})
			for kind, mk := range bs {
				for _, n := range []int{0, 1, 6} {
					u := &Universe{n: 2, boxes: map[string]func() Box[int]{kind: mk}}
					c.pairCheck(kind, u, fmt.Sprintf("keys %v and %v", keys[i], keys[j]), []int{n})
				}
			}
		}
	}
	c.sample(c.note)
}

// bufBox passes key slices in buffers that are checked and overwritten after each call.
// A key being inserted stays in its own slice.
type bufBox struct {
	Box[int]
	kind string
	u    *Universe
	bm   Box[int]
}

func (b *bufBox) with(k int, insert bool, f func()) {
	var ins, look *[]byte
	switch b.kind {
	case "BytesMap", "BytesSet":
		ins, look = &b.u.byt.ins[k], &b.u.byt.look[k]
	default:
		ins, look = (*[]byte)(&b.u.gbyt.ins[k]), (*[]byte)(&b.u.gbyt.look[k])
	}
	oi, ol := *ins, *look
	buf := make([]byte, len(ol), len(ol)+8)
	copy(buf, ol)
	sl := buf[:cap(buf)]
	for i := len(ol); i < len(sl); i++ {
		sl[i] = 0xAA
	}
	*look = buf
	if !insert {
		*ins = buf
	} else {
		// a stable slice of its own, with slack behind it that must stay untouched
		st := make([]byte, len(ol), len(ol)+8)
		copy(st, ol)
		oi = st
		*ins = st
	}
	defer func() {
		*ins, *look = oi, ol
		for i, x := range sl {
			if want := byte(0xAA); i < len(ol) && x != ol[i] || i >= len(ol) && x != want {
				failf("%s wrote to the key slice of its caller", b.kind)
			}
		}
		for i := range sl {
			sl[i] = 0x55
		}
	}()
	f()
}

func (b *bufBox) has(k int) bool { _, ok := b.Box.Get(k); return ok }

func (b *bufBox) Set(k int, v int) {
	ins := !b.has(k)
	b.with(k, ins, func() { b.Box.Set(k, v) })
}
func (b *bufBox) Mod(k int, f func(*int, bool)) {
	ins := !b.has(k)
	b.with(k, ins, func() { b.Box.Mod(k, f) })
}
func (b *bufBox) Del(k int) { b.with(k, false, func() { b.Box.Del(k) }) }
func (b *bufBox) Get(k int) (v int, ok bool) {
	b.with(k, false, func() { v, ok = b.Box.Get(k) })
	return
}
func (b *bufBox) Val(k int) (v int) { b.with(k, false, func() { v = b.Box.Val(k) }); return }
func (b *bufBox) Ptr(k int) (p *int) {
	b.with(k, false, func() { p = b.Box.Ptr(k) })
	return
}

func checkSlack(ks [][]byte) {
	for i, k := range ks {
		if want := stdString(i); string(k) != want {
			failf("the stored key slice was modified: %q", k)
		}
		for _, x := range k[:cap(k)][len(k):] {
			if x != 0 && x != 0xAA {
				failf("memory behind a stored key slice was written")
			}
		}
	}
}

func checkSlackB(ks []amt.Bytes) {
	for _, k := range ks {
		checkSlack0(k)
	}
}

func checkSlack0(k []byte) {
	for _, x := range k[:cap(k)][len(k):] {
		if x != 0 && x != 0xAA {
			failf("memory behind a stored key slice was written")
		}
	}
}

// C16: memory safety.

func memoryTasks(stage, tier string) (ts []Task) {
	thorough := tier == "thorough"
	kinds := cat(mainMaps, mainSets, provMaps, provSets)
	switch stage {
	case "large":
		for _, k := range cat(mainMaps, mainSets) {
			ts = append(ts, scaleTask(k, pick(thorough, 70001, 20011), oLook|oAll))
		}
	case "bounds":
		orc := oLook | oLen | oAll
		ps := collect(3, pick(thorough, levels40, []int{0, 1, 2, 11, 12, 13, 15, 16, 17, 31, 32, 33, 40}))
		ps = append(ps, collect(4, []int{0, 1, 12, 15, 16})...)
		for _, k := range kinds {
			for i, ch := range chunks(ps, 200) {
				ts = append(ts, historyTask(fmt.Sprintf("%s/tours/%d", k, i), k, ch, func(p *Pattern) []Op { return tour(p.n(), codesFor(k, "SMD")) }, 0, orc))
			}
			for _, lv := range pick(thorough, []int{0, 1, 2, 15, 16}, []int{0, 1}) {
				n := pick(thorough, 16, 16)
				ts = append(ts, historyTask(fmt.Sprintf("%s/node16@%d", k, lv), k, []*Pattern{nodePattern(n, lv)},
					func(*Pattern) []Op { return cubeOps(gray(n), pick(isSet(k), "S", "SM")) }, 16, oLook|oAll))
			}
			ts = append(ts, levelTasks(k, "SM", pick(thorough, rng(0, maxLevel), []int{0, 1, 2, 8, 12, 15, 16, 17, 31, 32, 47, 48, 64, 112, 160, 239}), oLook|oAll, thorough)...)
			for i, ch := range chunks(branchPatterns(thorough), 48) {
				ts = append(ts, historyTask(fmt.Sprintf("%s/branch/%d", k, i), k, ch, branchTour(pick(isSet(k), "S", "SM")), 16, oLook|oAll))
			}
			ts = append(ts, historyTask(fmt.Sprintf("%s/nested", k), k, []*Pattern{pairPattern(12, 1, 1), chainPattern(12, 8, 1), nodePattern(12, 1), nodePattern(12, 12)},
				func(*Pattern) []Op { return cubeOps(euler(12), pick(isSet(k), "S", "SM")) }, 16, oLook|oAll))
		}
		for _, k := range cat(mainMaps, mainSets) {
			var deep []*Pattern
			for l := 8; l <= maxLevel; l += pick(thorough, 1, 7) {
				deep = append(deep, collect(2, []int{l})...)
			}
			ts = append(ts, historyTask(k+"/deep", k, deep, func(p *Pattern) []Op { return tour(2, codesFor(k, "SMD")) }, 0, orc))
		}
	case "stack":
		ts = stackTasks(thorough)
	case "gc":
		ps := collect(3, pick(thorough, []int{0, 1, 2, 12, 13, 16, 17}, []int{0, 1, 16}))
		for _, k := range cat(mainMaps, mainSets) {
			for i, ch := range chunks(ps, pick(thorough, 6, 4)) {
				ts = append(ts, gcTask(fmt.Sprintf("%s/gc3/%d", k, i), k, ch, func(p *Pattern) []Op { return tour(3, codesFor(k, "SMD")) }))
			}
			ts = append(ts, gcTask(k+"/gc16", k, []*Pattern{nodePattern(16, 1), nodePattern(16, 0)}, func(p *Pattern) (ops []Op) {
				for i := 0; i < 16; i++ {
					ops = append(ops, Op{C: 'S', K: uint8(i * 7 % 16)})
				}
				for i := 0; i < 16; i++ {
					ops = append(ops, Op{C: 'D', K: uint8(i * 5 % 16)})
				}
				return
			}))
		}
	}
	return
}

// gcTask runs histories in the instrumented build with a garbage collection before
// every statement of the package; freed memory is overwritten (GODEBUG=clobberfree=1).
// Keys and values are fresh heap objects that only the container keeps alive.
func gcTask(name, kind string, ps []*Pattern, ops func(*Pattern) []Op) Task {
	return Task{Name: name, Run: func(c *Ctx) {
		if !instrumented {
			panic(harness{"collection points need the instrumented build"})
		}
		for _, p := range ps {
			u := freshKeys(p.n())
			install(p, kind, u, 1)
			o := ops(p)
			c.note = kind + ", " + p.String() + ", collections before every statement"
			maphash.VerifNextSeed = 1
			b := newBox[*[5]uint64](kind, u)
			want := make([]uint64, p.n())
			for i, op := range o {
				if c.late() {
					return
				}
				k := int(op.K)
				maphash.VerifSums, maphash.VerifLimit = 0, 20000
				v := uint64(i + 1)
				setPoint(func() {
					c.res.Points++
					runtime.GC()
				})
				switch op.C {
				case 'S':
					b.Set(k, newVal(v))
					want[k] = v
				case 'M':
					b.Mod(k, func(q **[5]uint64, ok bool) {
						if ok != (want[k] != 0) || ok && !goodVal(*q, want[k]) {
							failf("step %d, Mod(k%d) callback sees a wrong value", i, k)
						}
						*q = newVal(v)
					})
					want[k] = v
				case 'D':
					b.Del(k)
					want[k] = 0
				}
				setPoint(nil)
				runtime.GC()
				c.res.Transitions++
				if i%3 == 0 { // readers, too
					setPoint(func() {
						c.res.Points++
						runtime.GC()
					})
				}
				seen := 0
				b.All(func(k int, q **[5]uint64) bool {
					if k < 0 {
						failf("after step %d, a stored key is damaged (collected too early?)", i)
					}
					if q != nil && !goodVal(*q, want[k]) {
						failf("after step %d, the value of k%d is damaged", i, k)
					}
					if want[k] == 0 {
						failf("after step %d, k%d is present", i, k)
					}
					seen++
					return true
				})
				setPoint(nil)
				n := 0
				for k := range want {
					q, ok := b.Get(k)
					if ok != (want[k] != 0) || ok && !isSet(kind) && !goodVal(q, want[k]) {
						failf("after step %d (%s), Get(k%d) is wrong: %v", i, op, k, ok)
					}
					if ok {
						n++
					}
				}
				if n != seen {
					failf("after step %d, All visits %d of %d entries", i, seen, n)
				}
			}
			c.res.Traces++
			c.res.States += int64(len(o))
			runtime.KeepAlive(b)
		}
		c.sample(c.note)
	}}
}

//go:noinline
func newVal(x uint64) *[5]uint64 { return &[5]uint64{x, ^x, x * 3, x, ^x} }

func goodVal(p *[5]uint64, x uint64) bool { return p != nil && *p == [5]uint64{x, ^x, x * 3, x, ^x} }

// freshKeys is a universe whose inserted keys are fresh heap objects each time.
func freshKeys(n int) *Universe {
	u := stdKeys(n)
	u.str.mk = func(i int) string { return freshString(i) }
	u.gstr.mk = func(i int) amt.String { return amt.String(freshString(i)) }
	u.byt.mk = func(i int) []byte { return []byte(u.str.look[i]) }
	u.gbyt.mk = func(i int) amt.Bytes { return amt.Bytes(u.str.look[i]) }
	u.gk.mk = func(i int) GK { return GK{id: i, note: strings.Repeat("n", 40) + fmt.Sprintf("key%05d", i)} }
	idx := u.gk.idx
	u.gk.idx = func(k GK) int {
		if len(k.note) == 48 && (k.note[40:] != fmt.Sprintf("key%05d", k.id) || k.note[:40] != strings.Repeat("n", 40)) {
			return -1
		}
		return idx(k)
	}
	return u
}

//go:noinline
func freshString(i int) string { return strings.Clone(stdString(i)) }

// C17: removed entries are released.

type ref struct {
	p    weak.Pointer[[64]byte]
	what string
}

// relUniverse makes keys whose memory is tracked through weak pointers.
type relUniverse struct {
	*Universe
	last []weak.Pointer[[64]byte] // memory of the key made last
}

func newRelUniverse(n int) *relUniverse {
	u := &relUniverse{Universe: stdKeys(n), last: make([]weak.Pointer[[64]byte], n)}
	mk := func(i int) []byte {
		b := new([64]byte)
		copy(b[:], u.str.look[i])
		u.last[i] = weak.Make(b)
		return b[:len(u.str.look[i])]
	}
	str := func(i int) string {
		b := mk(i)
		return unsafe.String(&b[0], len(b))
	}
	u.byt.mk = mk
	u.gbyt.mk = func(i int) amt.Bytes { return mk(i) }
	u.str.mk = str
	u.gstr.mk = func(i int) amt.String { return amt.String(str(i)) }
	u.gk.mk = func(i int) GK { return GK{id: i, note: str(i)} }
	return u
}

func hasKeyMemory(kind string) bool {
	return strings.Contains(kind, "String") || strings.Contains(kind, "Bytes") || strings.Contains(kind, "GK")
}

// relHistory runs ops on a container and returns weak pointers to everything that was
// removed, and a function that checks what is still stored.
//
//go:noinline
func relHistory(c *Ctx, kind string, u *relUniverse, ops []Op) (b Box[*[64]byte], gone []ref, check func()) {
	maphash.VerifNextSeed = 1
	maphash.VerifLimit = 0
	b = newBox[*[64]byte](kind, u.Universe)
	n := u.n
	present := make([]bool, n)
	keys := make([][]weak.Pointer[[64]byte], n) // memory of keys passed while present
	vals := make([]weak.Pointer[[64]byte], n)
	set := isSet(kind)
	var zero weak.Pointer[[64]byte]
	for i, op := range ops {
		k := int(op.K)
		switch op.C {
		case 'S', 'M':
			var w weak.Pointer[[64]byte]
			if op.C == 'S' {
				v := new([64]byte)
				v[0] = byte(k)
				w = weak.Make(v)
				b.Set(k, v)
			} else {
				b.Mod(k, func(p **[64]byte, _ bool) {
					v := new([64]byte)
					v[0] = byte(k)
					w = weak.Make(v)
					*p = v
				})
			}
			if hasKeyMemory(kind) {
				keys[k] = append(keys[k], u.last[k])
			}
			if !set {
				if vals[k] != zero {
					gone = append(gone, ref{vals[k], fmt.Sprintf("the value of k%d replaced in step %d", k, i+1)})
				}
				vals[k] = w
			}
			present[k] = true
		case 'D':
			b.Del(k)
			for _, w := range keys[k] {
				gone = append(gone, ref{w, fmt.Sprintf("the key k%d deleted in step %d", k, i+1)})
			}
			keys[k] = nil
			if vals[k] != zero {
				gone = append(gone, ref{vals[k], fmt.Sprintf("the value of k%d deleted in step %d", k, i+1)})
			}
			vals[k] = zero
			present[k] = false
		}
		c.res.Transitions++
	}
	return b, gone, func() {
		for k := range present {
			v, ok := b.Get(k)
			if ok != present[k] || ok && !set && (v == nil || v[0] != byte(k)) {
				failf("after a collection, the entry of k%d is wrong", k)
			}
		}
	}
}

func releaseTask(name, kind string, ps []*Pattern, gen func(p *Pattern, f func([]Op))) Task {
	return Task{Name: name, Run: func(c *Ctx) {
		for _, p := range ps {
			u := newRelUniverse(p.n())
			install(p, kind, u.Universe, 1)
			c.note = kind + " " + p.String()
			type item struct {
				b     Box[*[64]byte]
				gone  []ref
				check func()
				ops   []Op
			}
			var batch []item
			flush := func() {
				runtime.GC()
				runtime.GC()
				for _, it := range batch {
					for _, g := range it.gone {
						if g.p.Value() != nil {
							c.releaseFail(kind, u, p, it.ops, g.what)
						}
					}
					it.check()
					runtime.KeepAlive(it.b)
				}
				batch = batch[:0]
			}
			gen(p, func(ops []Op) {
				if c.res.Capped {
					return
				}
				ops = append([]Op(nil), ops...)
				b, gone, check := relHistory(c, kind, u, ops)
				c.res.Traces++
				batch = append(batch, item{b, gone, check, ops})
				if len(batch) == 400 {
					flush()
					c.late()
				}
			})
			flush()
			c.res.States += 1 << p.n()
		}
		c.sample(c.note)
	}}
}

// releaseFail confirms and shrinks a retention failure.
func (c *Ctx) releaseFail(kind string, u *relUniverse, p *Pattern, ops []Op, what string) {
	kept := func(o []Op) string {
		b, gone, _ := relHistory(c, kind, u, o)
		runtime.GC()
		runtime.GC()
		for _, g := range gone {
			if g.p.Value() != nil {
				runtime.KeepAlive(b)
				return g.what
			}
		}
		runtime.KeepAlive(b)
		return ""
	}
	f := &Failure{}
	for i := 0; i < 5; i++ {
		if kept(ops) != "" {
			f.Confirmed++
		}
	}
	if f.Confirmed == 0 {
		c.outcome("retention seen once but not confirmed")
		return
	}
	for i := 0; i < len(ops); {
		t := append(append([]Op(nil), ops[:i]...), ops[i+1:]...)
		if w := kept(t); w != "" {
			ops, what = t, w
		} else {
			i++
		}
	}
	r := &Runner{kind: kind, p: p}
	f.Msg = "still reachable after two collections: " + what
	f.Scenario = r.describe(ops)
	c.fail(f)
}

func releaseTasks(stage, tier string) (ts []Task) {
	thorough := tier == "thorough"
	kinds := cat(mainMaps, []string{"StringSet", "BytesSet", "Set[GK]"}, provMaps[:2], provSets[:2])
	switch stage {
	case "seq":
		ps := collect(3, pick(thorough, []int{0, 1, 2, 12, 16, 17}, []int{0, 1, 16}))
		ps = append(ps, collect(2, []int{0, 5, 11, 12, 13, 14, 31, 40})...)
		for _, k := range kinds {
			cs := codesFor(k, "SMD")
			for i, ch := range chunks(ps, 5) {
				ts = append(ts, releaseTask(fmt.Sprintf("%s/seq/%d", k, i), k, ch, func(p *Pattern, f func([]Op)) {
					d := 4
					if len(cs) == 2 || p.n() == 2 {
						d = 5
					}
					if !thorough {
						d--
					}
					seqs(p.n(), cs, d, f)
				}))
			}
		}
	case "large":
		for _, k := range kinds {
			ts = append(ts, releaseTask(k+"/300", k+"/300", append(collect(2, []int{0, 1, 16}), collect(3, []int{0, 16})...), func(p *Pattern, f func([]Op)) {
				seqs(p.n(), codesFor(k, "SMD"), pick(thorough, 3, 2), f)
				for mask := uint64(1); mask < 1<<p.n(); mask++ {
					var fill []Op
					for j := 0; j < p.n(); j++ {
						if mask>>j&1 != 0 {
							fill = append(fill, Op{C: 'S', K: uint8(j)})
						}
					}
					for j := 0; j < p.n(); j++ {
						f(append(fill[:len(fill):len(fill)], Op{C: 'S', K: uint8(j)}, Op{C: 'D', K: uint8(j)}))
					}
				}
			}))
		}
	case "walks":
		// prefixes of walks over all contents: removal from every contents of a level,
		// of pairs, and of chains
		ps := []*Pattern{nodePattern(9, 0), nodePattern(9, 1), nodePattern(9, 16), pairPattern(8, 0, 1), pairPattern(8, 1, 2), pairPattern(8, 11, 2), chainPattern(8, 0, 1), chainPattern(8, 10, 1), chainPattern(8, 12, 2)}
		if thorough {
			ps = append(ps, nodePattern(11, 2), nodePattern(11, 12), chainPattern(11, 0, 2), pairPattern(10, 15, 1))
		}
		for _, k := range kinds {
			for i, ch := range chunks(ps, 3) {
				ts = append(ts, releaseTask(fmt.Sprintf("%s/walks/%d", k, i), k, ch, func(p *Pattern, f func([]Op)) {
					// from every contents, delete (or overwrite) every present key
					for mask := uint64(1); mask < 1<<p.n(); mask++ {
						var fill []Op
						for j := 0; j < p.n(); j++ {
							if mask>>j&1 != 0 {
								fill = append(fill, Op{C: 'S', K: uint8(j)})
							}
						}
						for j := 0; j < p.n(); j++ {
							if mask>>j&1 != 0 && (thorough || p.n() < 9 || (int(mask)+j)%3 == 0) {
								f(append(fill[:len(fill):len(fill)], Op{C: 'D', K: uint8(j)}))
							}
						}
						if mask%4 == 3 {
							f(append(fill[:len(fill):len(fill)], Op{C: 'S', K: fill[0].K}, Op{C: 'D', K: fill[0].K}, Op{C: 'D', K: fill[len(fill)-1].K}))
						}
					}
				}))
			}
		}
	}
	return
}
