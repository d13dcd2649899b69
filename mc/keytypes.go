//go:build values

package main

import (
	"encoding/binary"
	"fmt"
	"hash/maphash"
	"math"

	"github.com/wdamron/amt"
)

// Key types for C27. Every key carries its number; reading it checks the rest of the
// key, so a key that was damaged does not go unnoticed.

func hashID(id int, seed maphash.Seed, iter uint) uint64 {
	return GK{id: id}.Hash(seed, iter)
}

func bytesID(id int) (b [64]byte) {
	binary.LittleEndian.PutUint32(b[:], uint32(id)+1)
	b[63] = byte(id)
	return
}

func intact(ok bool, key any) {
	if !ok {
		failf("a key of type %T was damaged: %.100v", key, key)
	}
}

type kEmpty struct{}

func (k kEmpty) id() int                            { return 0 }
func (k kEmpty) Equal(o kEmpty) bool                { return true }
func (k kEmpty) Hash(s maphash.Seed, i uint) uint64 { return hashID(0, s, i) }
func (k kEmpty) KeyBytes() [64]byte                 { return bytesID(0) }

type kByte uint8

func (k kByte) id() int                            { return int(k) - 200 }
func (k kByte) Equal(o kByte) bool                 { return k == o }
func (k kByte) Hash(s maphash.Seed, i uint) uint64 { return hashID(k.id(), s, i) }
func (k kByte) KeyBytes() [64]byte                 { return bytesID(k.id()) }

type kOdd [3]byte

func (k kOdd) id() int                            { intact(k[0] == ^k[1] && k[2] == 7, k); return int(k[1]) }
func (k kOdd) Equal(o kOdd) bool                  { return k.id() == o.id() }
func (k kOdd) Hash(s maphash.Seed, i uint) uint64 { return hashID(k.id(), s, i) }
func (k kOdd) KeyBytes() [64]byte                 { return bytesID(k.id()) }

type kWide [40]uint64

func wideKey(i int) (k kWide) {
	for j := range k {
		k[j] = uint64(i*1000+j) * 0x9E3779B97F4A7C15
	}
	return
}
func (k kWide) id() int {
	i := int(k[0]*0xF1DE83E19937733D) / 1000
	intact(k == wideKey(i), k)
	return i
}
func (k kWide) Equal(o kWide) bool                 { return k.id() == o.id() }
func (k kWide) Hash(s maphash.Seed, i uint) uint64 { return hashID(k.id(), s, i) }
func (k kWide) KeyBytes() [64]byte                 { return bytesID(k.id()) }

type kHuge [9001]byte

func hugeKey(i int) (k kHuge) {
	for j := range k {
		k[j] = byte(i + j*j)
	}
	return
}
func (k kHuge) id() int {
	intact(k == hugeKey(int(k[0])), k[:8])
	return int(k[0])
}
func (k kHuge) Equal(o kHuge) bool                 { return k[0] == o[0] }
func (k kHuge) Hash(s maphash.Seed, i uint) uint64 { return hashID(int(k[0]), s, i) }
func (k kHuge) KeyBytes() [64]byte                 { return bytesID(int(k[0])) }

type kPtr struct{ n, check int }

func (k *kPtr) id() int                            { intact(k.n == ^k.check, *k); return k.n }
func (k *kPtr) Equal(o *kPtr) bool                 { return k.id() == o.id() }
func (k *kPtr) Hash(s maphash.Seed, i uint) uint64 { return hashID(k.id(), s, i) }
func (k *kPtr) KeyBytes() [64]byte                 { return bytesID(k.id()) }

// kIface is an interface as a key type.
type kIface interface {
	id() int
	Equal(kIface) bool
	Hash(maphash.Seed, uint) uint64
}
type kDyn1 struct {
	n int
	s string
}
type kDyn2 uint16

func (k kDyn1) id() int                            { intact(k.s == fmt.Sprint("dyn", k.n), k); return k.n }
func (k kDyn1) Equal(o kIface) bool                { return k.id() == o.id() }
func (k kDyn1) Hash(s maphash.Seed, i uint) uint64 { return hashID(k.id(), s, i) }
func (k kDyn1) KeyBytes() [64]byte                 { return bytesID(k.id()) }
func (k kDyn2) id() int                            { return int(k) - 5000 }
func (k kDyn2) Equal(o kIface) bool                { return k.id() == o.id() }
func (k kDyn2) Hash(s maphash.Seed, i uint) uint64 { return hashID(k.id(), s, i) }
func (k kDyn2) KeyBytes() [64]byte                 { return bytesID(k.id()) }

// kaIface is an interface as the key type of an array container.
type kaIface interface {
	id() int
	KeyBytes() [64]byte
}

// kLoose is not comparable.
type kLoose struct {
	pad uint16
	s   []int
	m   map[string]int
	f   func() int
	c   chan int
}

func looseKey(i int) kLoose {
	return kLoose{uint16(i) * 3, []int{i, i + 1}, map[string]int{"id": i}, func() int { return i }, make(chan int, i+1)}
}
func (k kLoose) id() int {
	i := k.f()
	intact(k.pad == uint16(i)*3 && len(k.s) == 2 && k.s[0] == i && k.s[1] == i+1 && k.m["id"] == i && cap(k.c) == i+1, i)
	return i
}
func (k kLoose) Equal(o kLoose) bool                { return k.id() == o.id() }
func (k kLoose) Hash(s maphash.Seed, i uint) uint64 { return hashID(k.id(), s, i) }

type kText struct {
	small bool
	a     string
	b     *string
	c     any
}

func textKey(i int) kText {
	a, b := fmt.Sprint("text", i), fmt.Sprint("more", i)
	return kText{i%2 == 0, a, &b, i}
}
func (k kText) id() int {
	i := k.c.(int)
	intact(k.small == (i%2 == 0) && k.a == fmt.Sprint("text", i) && *k.b == fmt.Sprint("more", i), i)
	return i
}
func (k kText) Equal(o kText) bool                 { return k.id() == o.id() }
func (k kText) Hash(s maphash.Seed, i uint) uint64 { return hashID(k.id(), s, i) }
func (k kText) KeyBytes() [64]byte                 { return bytesID(k.id()) }

type kFloat float64

var floats = []kFloat{kFloat(math.NaN()), kFloat(math.Inf(1)), kFloat(math.Copysign(0, -1)), 0, 1e-310, -1.5, 7, 8, 9}

func (k kFloat) id() int {
	for i, f := range floats {
		if math.Float64bits(float64(f)) == math.Float64bits(float64(k)) {
			return i
		}
	}
	intact(false, k)
	return -1
}
func (k kFloat) Equal(o kFloat) bool                { return k.id() == o.id() }
func (k kFloat) Hash(s maphash.Seed, i uint) uint64 { return hashID(k.id(), s, i) }

// kMap is a container as a key.
type kMap struct{ amt.IntMap[int] }

func mapKey(i int) kMap {
	m := amt.NewIntMap[int]()
	for j := int64(0); j < 20; j++ {
		m.Set(j, i)
	}
	return kMap{m}
}
func (k kMap) id() (i int) {
	n := 0
	k.All(func(_ int64, v *int) bool {
		intact(n == 0 || *v == i, "map")
		i = *v
		n++
		return true
	})
	intact(n == 20 && k.Len() == 20, "map")
	return
}
func (k kMap) Equal(o kMap) bool                  { return k.id() == o.id() }
func (k kMap) Hash(s maphash.Seed, i uint) uint64 { return hashID(k.id(), s, i) }

// kPart is compared by one part only: the entry keeps the key it was inserted with.
type kPart struct {
	note string
	n    int32
}

func (k kPart) id() int                            { return int(k.n) }
func (k kPart) Equal(o kPart) bool                 { return k.n == o.n }
func (k kPart) Hash(s maphash.Seed, i uint) uint64 { return hashID(k.id(), s, i) }

type anyKey interface{ id() int }

// keyKinds gives the container kinds over the key types; kinds with a one-key type
// have n 1.
func keyKinds() (ks []keyKind) {
	ks = append(ks, genericKey("empty", 1, func(int) kEmpty { return kEmpty{} })...)
	ks = append(ks, genericKey("byte", 9, func(i int) kByte { return kByte(200 + i) })...)
	ks = append(ks, genericKey("odd", 9, func(i int) kOdd { return kOdd{^byte(i), byte(i), 7} })...)
	ks = append(ks, genericKey("wide", 9, wideKey)...)
	ks = append(ks, genericKey("huge", 9, hugeKey)...)
	ks = append(ks, genericKey("ptr", 9, func(i int) *kPtr { return &kPtr{i, ^i} })...)
	iface := func(i int) kIface {
		if i%2 == 0 {
			return kDyn1{i, fmt.Sprint("dyn", i)}
		}
		return kDyn2(5000 + i)
	}
	ks = append(ks, genericKey("iface", 9, iface)...)
	ks = append(ks, genericKey("loose", 9, looseKey)...)
	ks = append(ks, genericKey("text", 9, textKey)...)
	ks = append(ks, genericKey("float", 9, func(i int) kFloat { return floats[i] })...)
	maps := make([]kMap, 9)
	for i := range maps {
		maps[i] = mapKey(i)
	}
	ks = append(ks, genericKey("map", 9, func(i int) kMap { return maps[i] })...)

	ks = append(ks, arrayKey("empty", 1, func(int) kEmpty { return kEmpty{} })...)
	ks = append(ks, arrayKey("byte", 9, func(i int) kByte { return kByte(200 + i) })...)
	ks = append(ks, arrayKey("odd", 9, func(i int) kOdd { return kOdd{^byte(i), byte(i), 7} })...)
	ks = append(ks, arrayKey("wide", 9, wideKey)...)
	ks = append(ks, arrayKey("huge", 9, hugeKey)...)
	ptrs := make([]*kPtr, 9)
	texts := make([]kText, 9)
	for i := range ptrs {
		ptrs[i] = &kPtr{i, ^i}
		texts[i] = textKey(i)
	}
	ks = append(ks, arrayKey("ptr", 9, func(i int) *kPtr { return ptrs[i] })...)
	ks = append(ks, arrayKey("text", 9, func(i int) kText { return texts[i] })...)
	ks = append(ks, arrayKey("iface", 9, func(i int) kaIface {
		if i%2 == 0 {
			return kDyn1{i, fmt.Sprint("dyn", i)}
		}
		return kDyn2(5000 + i)
	})...)
	return
}

func numbered[K anyKey](n int, mk func(int) K) *Keys[K] {
	k := &Keys[K]{idx: func(k K) int { return k.id() }, mk: mk, mkl: mk}
	k.ins, k.look = make([]K, n), make([]K, n)
	return k
}

func genericKey[K interface {
	amt.Key[K]
	anyKey
}](name string, n int, mk func(int) K) []keyKind {
	k := numbered(n, mk)
	return []keyKind{
		{"Map[" + name + "]", n, func() Box[int] { return newMapBox[int](amt.NewMap[K, int](), k) }},
		{"Set[" + name + "]", n, func() Box[int] { return newSetBox[int](amt.NewSet[K](), k) }},
	}
}

func arrayKey[K interface {
	amt.ArrKey
	anyKey
}](name string, n int, mk func(int) K) []keyKind {
	k := numbered(n, mk)
	return []keyKind{
		{"ArrMap[" + name + "]", n, func() Box[int] { return newMapBox[int](amt.NewArrMap[K, int](), k) }},
		{"ArrSet[" + name + "]", n, func() Box[int] { return newSetBox[int](amt.NewArrSet[K](), k) }},
	}
}

// kSigns holds zeros of either sign, which are equal: the signs count the steps.
type kSigns struct {
	n int32
	z [12]float64
}

func signKey(k, step int) kSigns {
	q := kSigns{n: int32(k)}
	for i := range q.z {
		if step>>i&1 != 0 {
			q.z[i] = math.Copysign(0, -1)
		}
	}
	return q
}
func (k kSigns) note() (step int) {
	for i, f := range k.z {
		if math.Signbit(f) {
			step |= 1 << i
		}
	}
	return
}
func (k kSigns) KeyBytes() [64]byte { return bytesID(int(k.n)) }
func (k kSigns) id() int            { return int(k.n) }

var keptU = func() *Universe {
	u := &Universe{n: 9, boxes: map[string]func() Box[int]{}}
	ks := genericKey("part", 9, func(i int) kPart { return kPart{"", int32(i)} })
	for _, k := range append(ks, arrayKey("signs", 9, func(i int) kSigns { return signKey(i, 0) })...) {
		u.boxes[k.name] = k.mk
	}
	return u
}()

// keptKeys checks that an entry keeps the key it was inserted with, among equal ones.
func keptKeys(c *Ctx, p *Pattern) {
	mk := func(k, step int) kPart { return kPart{fmt.Sprint(step), int32(k)} }
	id := func(q kPart) (k, step int) { fmt.Sscan(q.note, &step); return int(q.n), step }
	keptTour[kPart](c, p, "Map[part]", func() mapOf[kPart, int] { return amt.NewMap[kPart, int]() }, nil, mk, id)
	keptTour[kPart](c, p, "Set[part]", nil, func() setOf[kPart] { return amt.NewSet[kPart]() }, mk, id)
	aid := func(q kSigns) (k, step int) { return int(q.n), q.note() }
	keptTour[kSigns](c, p, "ArrMap[signs]", func() mapOf[kSigns, int] { return amt.NewArrMap[kSigns, int]() }, nil, signKey, aid)
	keptTour[kSigns](c, p, "ArrSet[signs]", nil, func() setOf[kSigns] { return amt.NewArrSet[kSigns]() }, signKey, aid)
}

func keptTour[K any](c *Ctx, p *Pattern, kind string, newMap func() mapOf[K, int], newSet func() setOf[K], mk func(k, step int) K, id func(K) (int, int)) {
	n := p.n()
	install(p, kind, keptU, 1)
	maphash.VerifNextSeed = 1
	var m mapOf[K, int]
	var s setOf[K]
	if newMap != nil {
		m = newMap()
	} else {
		s = newSet()
	}
	ins := make([]int, n) // step in which each key was inserted, 0 if absent
	val := make([]int, n)
	codes := "SMD"
	if m == nil {
		codes = "SD"
	}
	for i, op := range tour(n, codes) {
		k, step := int(op.K), i+1
		key := mk(k, step)
		switch {
		case op.C == 'D' && m != nil:
			m.Del(key)
		case op.C == 'D':
			s.Del(key)
		case op.C == 'M':
			m.Mod(key, func(v *int, ok bool) {
				if ok != (ins[k] != 0) || *v != val[k] {
					failf("%s, %s: in step %d Mod of k%d hands out %d, %v", kind, p, step, k, *v, ok)
				}
				*v = step
			})
		case m != nil:
			m.Set(key, step)
		default:
			s.Add(key)
		}
		val[k] = step
		if op.C == 'D' {
			ins[k], val[k] = 0, 0
		} else if ins[k] == 0 {
			ins[k] = step
		}
		seen := 0
		check := func(q K, v int) {
			seen++
			k, got := id(q)
			if ins[k] != got {
				failf("%s, %s: after %c of k%d in step %d All reports k%d as inserted in step %d, not %d (0: absent)", kind, p, op.C, op.K, step, k, got, ins[k])
			}
			if m != nil && v != val[k] {
				failf("%s, %s: after %c of k%d in step %d All reports value %d of k%d, not %d", kind, p, op.C, op.K, step, v, k, val[k])
			}
		}
		in := 0
		for k := range ins {
			q := mk(k, step+7) // yet another equal key
			if ins[k] != 0 {
				in++
			}
			if m != nil {
				if v, ok := m.Get(q); ok != (ins[k] != 0) || v != val[k] {
					failf("%s, %s: after %c of k%d in step %d Get of a key equal to k%d gives %d, %v", kind, p, op.C, op.K, step, k, v, ok)
				}
			} else if s.Has(q) != (ins[k] != 0) {
				failf("%s, %s: after %c of k%d in step %d Has of a key equal to k%d gives %v", kind, p, op.C, op.K, step, k, ins[k] == 0)
			}
		}
		if m != nil {
			m.All(func(q K, v *int) bool { check(q, *v); return true })
		} else {
			s.All(func(q K) bool { check(q, 0); return true })
		}
		if seen != in {
			failf("%s, %s: All makes %d calls for %d entries", kind, p, seen, in)
		}
		c.res.Transitions++
	}
	c.res.Traces++
	c.res.States += 1 << n
}
