package main

import (
	"encoding/binary"
	"fmt"
	"hash/maphash"
	"math"
	"strings"
	"unsafe"

	"github.com/wdamron/amt"
)

// GK is a key type of our own for the generic containers. Its hash comes from the
// same tables as maphash's: each key has a byte encoding, repeated iter+1 times.
type GK struct {
	id   int
	note string // key types need not be one word
}

// GKCall records one call of a key method, when recording is on.
type GKCall struct {
	Equal    bool
	Key, Oth int
	Iter     uint
	Seed     uint64
}

var (
	gkRecord bool
	gkCalls  []GKCall
	gkHook   func() // called in Hash, Equal and KeyBytes, if set
)

func gkBytes(id int) []byte {
	return binary.LittleEndian.AppendUint64(nil, 0x4b47<<48|uint64(id))
}

func (k GK) Equal(o GK) bool {
	if gkRecord {
		gkCalls = append(gkCalls, GKCall{Equal: true, Key: k.id, Oth: o.id})
	}
	if gkHook != nil {
		gkHook()
	}
	return k.id == o.id
}

func (k GK) Hash(seed maphash.Seed, iter uint) uint64 {
	if gkRecord {
		gkCalls = append(gkCalls, GKCall{Key: k.id, Iter: iter, Seed: maphash.VerifSeedNumber(seed)})
	}
	if gkHook != nil {
		gkHook()
	}
	var hw maphash.Hash
	hw.SetSeed(seed)
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], 0x4b47<<48|uint64(k.id))
	for i := uint(0); i <= iter; i++ {
		hw.Write(b[:])
	}
	return hw.Sum64()
}

// AK is an array key type.
type AK [20]byte

func (k AK) KeyBytes() (r [64]byte) {
	if gkHook != nil {
		gkHook()
	}
	copy(r[:], k[:])
	return
}

// Box is the common view of all containers; keys are numbered. Sets ignore values.
type Box[V any] interface {
	Set(k int, v V) // Add for sets
	Mod(k int, f func(*V, bool))
	Del(k int)
	Get(k int) (V, bool) // Has for sets
	Val(k int) V
	Ptr(k int) *V
	All(f func(k int, v *V) bool) // v is nil for sets
	Len() uint
	Dep() float64
	Nil() bool
	Copy(how int) Box[V] // a copy of the container value
	Zero() Box[V]        // uninitialized container of the same type
	Snap(s *snapper) [2]uint64
	Word() unsafe.Pointer
}

type mapOf[K, V any] interface {
	Set(K, V)
	Mod(K, func(*V, bool))
	Del(K)
	Get(K) (V, bool)
	Val(K) V
	Ptr(K) *V
	All(func(K, *V) bool)
	Len() uint
	Dep() float64
	Nil() bool
}

type setOf[K any] interface {
	Add(K)
	Del(K)
	Has(K) bool
	All(func(K) bool)
	Len() uint
	Dep() float64
	Nil() bool
}

// Keys are the concrete keys of one type: ins are passed to Set/Add/Mod, look (equal
// keys in separate memory) to everything else.
type Keys[K any] struct {
	ins, look []K
	idx       func(K) int // -1 if unknown
	mk        func(int) K // if set, makes the key to insert
	mkl       func(int) K // if set, makes the key to look up or delete
}

func (k *Keys[K]) in(i int) K {
	if k.mk != nil {
		return k.mk(i)
	}
	return k.ins[i]
}

func (k *Keys[K]) lk(i int) K {
	if k.mkl != nil {
		return k.mkl(i)
	}
	return k.look[i]
}

// word returns the one pointer a container value consists of, or nil if it is not one.
func word[M any](m *M) unsafe.Pointer {
	if unsafe.Sizeof(*m) != unsafe.Sizeof(uintptr(0)) {
		return nil
	}
	return *(*unsafe.Pointer)(unsafe.Pointer(m))
}

// Methods are called on pointers to the containers, so it does not matter whether they
// have value or pointer receivers.
type mapBox[K, V, M any, P interface {
	*M
	mapOf[K, V]
}] struct {
	m M
	k *Keys[K]
}

func (b *mapBox[K, V, M, P]) Set(k int, v V)              { P(&b.m).Set(b.k.in(k), v) }
func (b *mapBox[K, V, M, P]) Mod(k int, f func(*V, bool)) { P(&b.m).Mod(b.k.in(k), f) }
func (b *mapBox[K, V, M, P]) Del(k int)                   { P(&b.m).Del(b.k.lk(k)) }
func (b *mapBox[K, V, M, P]) Get(k int) (V, bool)         { return P(&b.m).Get(b.k.lk(k)) }
func (b *mapBox[K, V, M, P]) Val(k int) V                 { return P(&b.m).Val(b.k.lk(k)) }
func (b *mapBox[K, V, M, P]) Ptr(k int) *V                { return P(&b.m).Ptr(b.k.lk(k)) }
func (b *mapBox[K, V, M, P]) All(f func(int, *V) bool) {
	P(&b.m).All(func(k K, v *V) bool { return f(b.k.idx(k), v) })
}
func (b *mapBox[K, V, M, P]) Len() uint    { return P(&b.m).Len() }
func (b *mapBox[K, V, M, P]) Dep() float64 { return P(&b.m).Dep() }
func (b *mapBox[K, V, M, P]) Nil() bool    { return P(&b.m).Nil() }
func (b *mapBox[K, V, M, P]) Copy(how int) Box[V] {
	return newMapBox[V, K, M, P](copyVia(b.m, how), b.k)
}
func (b *mapBox[K, V, M, P]) Zero() Box[V] { return &mapBox[K, V, M, P]{k: b.k} }

func (b *mapBox[K, V, M, P]) Word() unsafe.Pointer { return word(&b.m) }
func (b *mapBox[K, V, M, P]) Snap(s *snapper) [2]uint64 {
	return s.snap(unsafe.Pointer(&b.m), unsafe.Sizeof(b.m))
}

type setBox[K, V, S any, P interface {
	*S
	setOf[K]
}] struct {
	s S
	k *Keys[K]
}

func (b *setBox[K, V, S, P]) Set(k int, v V)              { P(&b.s).Add(b.k.in(k)) }
func (b *setBox[K, V, S, P]) Mod(k int, f func(*V, bool)) { panic("verif: no Mod on sets") }
func (b *setBox[K, V, S, P]) Del(k int)                   { P(&b.s).Del(b.k.lk(k)) }
func (b *setBox[K, V, S, P]) Get(k int) (v V, ok bool)    { return v, P(&b.s).Has(b.k.lk(k)) }
func (b *setBox[K, V, S, P]) Val(k int) (v V)             { panic("verif: no Val on sets") }
func (b *setBox[K, V, S, P]) Ptr(k int) *V                { panic("verif: no Ptr on sets") }
func (b *setBox[K, V, S, P]) All(f func(int, *V) bool) {
	P(&b.s).All(func(k K) bool { return f(b.k.idx(k), nil) })
}
func (b *setBox[K, V, S, P]) Len() uint    { return P(&b.s).Len() }
func (b *setBox[K, V, S, P]) Dep() float64 { return P(&b.s).Dep() }
func (b *setBox[K, V, S, P]) Nil() bool    { return P(&b.s).Nil() }
func (b *setBox[K, V, S, P]) Copy(how int) Box[V] {
	return newSetBox[V, K, S, P](copyVia(b.s, how), b.k)
}
func (b *setBox[K, V, S, P]) Zero() Box[V] { return &setBox[K, V, S, P]{k: b.k} }

func (b *setBox[K, V, S, P]) Word() unsafe.Pointer { return word(&b.s) }
func (b *setBox[K, V, S, P]) Snap(s *snapper) [2]uint64 {
	return s.snap(unsafe.Pointer(&b.s), unsafe.Sizeof(b.s))
}

func newMapBox[V, K, M any, P interface {
	*M
	mapOf[K, V]
}](m M, k *Keys[K]) Box[V] {
	return &mapBox[K, V, M, P]{m, k}
}

func newSetBox[V, K, S any, P interface {
	*S
	setOf[K]
}](s S, k *Keys[K]) Box[V] {
	return &setBox[K, V, S, P]{s, k}
}

// Universe is the set of concrete keys behind the key numbers, for every key type.
type Universe struct {
	n     int
	gk    Keys[GK]
	str   Keys[string]
	gstr  Keys[amt.String]
	byt   Keys[[]byte]
	gbyt  Keys[amt.Bytes]
	int   Keys[int64]
	gint  Keys[amt.Int]
	arr   Keys[AK]
	enc   map[string][][]byte
	kn    map[uintptr]uint64
	boxes map[string]func() Box[int] // further container kinds
}

// stdKeys makes the standard universe of n keys. Encodings of the same number agree
// between the specialised and the generic container kinds.
var edgeInts = []int64{0, 1 << 32, -1, 1, math.MinInt64, 1<<32 - 1, math.MaxInt64, -1 << 32, 0x0123_4567_89AB_CDEF, 1 << 31, -0x7FFF_7FFF_7FFF_8000}

// stdString is string key i; no two are powers of a common word, so all their
// repetitions differ.
func stdString(i int) string {
	switch i {
	case 1:
		return "\x00"
	case 2:
		return strings.Repeat("long", 14) + "!" // at most 64 bytes, see newRelUniverse
	case 4:
		return "\xff\xfe\x00k"
	}
	return fmt.Sprintf("key%05d", i)
}

func stdKeys(n int) *Universe {
	var strs []string
	var ints []int64
	var arrs []AK
	for i := 0; i < n; i++ {
		strs = append(strs, stdString(i))
		x := int64(uint64(i)*0x9E3779B97F4A7C15 ^ 0x8000000000000000)
		if i < len(edgeInts) { // IntMap and IntSet keep keys in the bitmaps of a link
			x = edgeInts[i]
		}
		ints = append(ints, x)
		var a AK
		binary.LittleEndian.PutUint64(a[12:], uint64(i)*0x9E3779B97F4A7C15)
		a[0], a[1], a[19] = 'a', byte(i>>8), byte(i)
		arrs = append(arrs, a)
	}
	return makeUniverse(strs, ints, arrs)
}

func makeUniverse(strs []string, ints []int64, arrs []AK) *Universe {
	u := &Universe{n: len(strs)}
	si, ii, ai := map[string]int{}, map[int64]int{}, map[AK]int{}
	find := func(i int, ok bool) int {
		if !ok {
			return -1
		}
		return i
	}
	for i, s := range strs {
		si[s] = i
		u.str.ins = append(u.str.ins, strings.Clone(s))
		u.str.look = append(u.str.look, strings.Clone(s))
		u.gstr.ins = append(u.gstr.ins, amt.String(strings.Clone(s)))
		u.gstr.look = append(u.gstr.look, amt.String(strings.Clone(s)))
		u.byt.ins = append(u.byt.ins, []byte(s))
		u.byt.look = append(u.byt.look, []byte(s))
		u.gbyt.ins = append(u.gbyt.ins, amt.Bytes(s))
		u.gbyt.look = append(u.gbyt.look, amt.Bytes(s))
		u.gk.ins = append(u.gk.ins, GK{id: i, note: "inserted"})
		u.gk.look = append(u.gk.look, GK{id: i, note: "looked up"})
	}
	for i, x := range ints {
		ii[x] = i
		u.int.ins = append(u.int.ins, x)
		u.gint.ins = append(u.gint.ins, amt.Int(x))
	}
	u.int.look, u.gint.look = u.int.ins, u.gint.ins
	for i, a := range arrs {
		ai[a] = i
		u.arr.ins = append(u.arr.ins, a)
	}
	u.arr.look = u.arr.ins
	u.gk.idx = func(k GK) int { return k.id }
	u.str.idx = func(k string) int { i, ok := si[k]; return find(i, ok) }
	u.gstr.idx = func(k amt.String) int { i, ok := si[string(k)]; return find(i, ok) }
	u.byt.idx = func(k []byte) int { i, ok := si[string(k)]; return find(i, ok) }
	u.gbyt.idx = func(k amt.Bytes) int { i, ok := si[string(k)]; return find(i, ok) }
	u.int.idx = func(k int64) int { i, ok := ii[k]; return find(i, ok) }
	u.gint.idx = func(k amt.Int) int { i, ok := ii[int64(k)]; return find(i, ok) }
	u.arr.idx = func(k AK) int { i, ok := ai[k]; return find(i, ok) }
	return u
}

// encoding returns the bytes kind hashes for key k, as observed on a lookup in an
// empty container (the containers' own encoding of keys is not prescribed).
func (u *Universe) encoding(kind string, k int) []byte {
	kind, _ = crowdSize(kind)
	if e, ok := u.enc[kind]; ok {
		return e[k]
	}
	if u.enc == nil {
		u.enc = map[string][][]byte{}
	}
	var got []byte
	defer func(old func(uint64, []byte)) { maphash.VerifRecord = old }(maphash.VerifRecord)
	maphash.VerifRecord = func(_ uint64, b []byte) {
		if got == nil {
			got = append([]byte{}, b...)
		}
	}
	b := newBox[int](kind, u)
	enc := make([][]byte, u.n)
	for i := range enc {
		got = nil
		b.Get(i)
		if got == nil { // lookups in empty containers need not hash
			var zero int
			c := newBox[int](kind, u)
			c.Set(i, zero)
			c.Get(i)
		}
		if enc[i] = got; got == nil {
			enc[i] = []byte(fmt.Sprintf("unhashed%d", i))
		}
	}
	u.enc[kind] = enc
	return enc[k]
}

const copyWays = 5

// copyVia copies a container value on one of several ways.
func copyVia[T any](x T, how int) T {
	switch how % copyWays {
	case 1: // stored as a value of another container
		m := amt.NewStringMap[T]()
		m.Set("x", x)
		y, _ := m.Get("x")
		return y
	case 2: // written by a Mod callback, read by a later one
		m := amt.NewIntMap[T]()
		m.Mod(1, func(p *T, _ bool) { *p = x })
		m.Set(2, *new(T))
		var y T
		m.Mod(1, func(p *T, _ bool) { y = *p })
		return y
	case 3: // boxed, through a channel
		ch := make(chan any, 1)
		ch <- x
		return (<-ch).(T)
	case 4: // in a struct in a slice in a map
		type s struct {
			a int
			x T
		}
		return map[int][]s{1: {{7, x}}}[1][0].x
	}
	return x
}

// known lists the addresses of the keys' own memory, for snapshots.
func (u *Universe) known() map[uintptr]uint64 {
	m := map[uintptr]uint64{}
	add := func(p unsafe.Pointer, l int) {
		if p != nil {
			m[uintptr(p)] = uint64(l)
		}
	}
	for i := range u.str.ins {
		add(unsafe.Pointer(unsafe.StringData(u.str.ins[i])), 1<<16|i)
		add(unsafe.Pointer(unsafe.StringData(u.str.look[i])), 2<<16|i)
		add(unsafe.Pointer(unsafe.StringData(string(u.gstr.ins[i]))), 3<<16|i)
		add(unsafe.Pointer(unsafe.StringData(string(u.gstr.look[i]))), 4<<16|i)
		add(unsafe.Pointer(unsafe.SliceData(u.byt.ins[i])), 5<<16|i)
		add(unsafe.Pointer(unsafe.SliceData(u.byt.look[i])), 6<<16|i)
		add(unsafe.Pointer(unsafe.SliceData(u.gbyt.ins[i])), 7<<16|i)
		add(unsafe.Pointer(unsafe.SliceData(u.gbyt.look[i])), 8<<16|i)
	}
	return m
}

var mainMaps = []string{"IntMap", "StringMap", "BytesMap", "ArrMap", "Map[GK]"}
var mainSets = []string{"IntSet", "StringSet", "BytesSet", "ArrSet", "Set[GK]"}
var provMaps = []string{"Map[String]", "Map[Bytes]", "Map[Int]"}
var provSets = []string{"Set[String]", "Set[Bytes]", "Set[Int]"}

func cat(ls ...[]string) (r []string) {
	for _, l := range ls {
		r = append(r, l...)
	}
	return
}

func isSet(kind string) bool { return strings.Contains(kind, "Set") }

// newBox constructs a container of the kind through the package's constructor.
func newBox[V any](kind string, u *Universe) Box[V] {
	if mk := u.boxes[kind]; mk != nil {
		return any(mk()).(Box[V])
	}
	if b, ok := any(newTyped(kind, u)).(Box[V]); ok && b != nil {
		return b
	}
	if b := newCrowd[V](kind, u); b != nil {
		return b
	}
	switch kind {
	case "Map[GK]":
		return newMapBox[V](amt.NewMap[GK, V](), &u.gk)
	case "Map[String]":
		return newMapBox[V](amt.NewMap[amt.String, V](), &u.gstr)
	case "Map[Bytes]":
		return newMapBox[V](amt.NewMap[amt.Bytes, V](), &u.gbyt)
	case "StringMap":
		return newMapBox[V](amt.NewStringMap[V](), &u.str)
	case "BytesMap":
		return newMapBox[V](amt.NewBytesMap[V](), &u.byt)
	case "IntMap":
		return newMapBox[V](amt.NewIntMap[V](), &u.int)
	case "ArrMap":
		return newMapBox[V](amt.NewArrMap[AK, V](), &u.arr)
	case "Set[GK]":
		return newSetBox[V](amt.NewSet[GK](), &u.gk)
	case "Set[String]":
		return newSetBox[V](amt.NewSet[amt.String](), &u.gstr)
	case "Set[Bytes]":
		return newSetBox[V](amt.NewSet[amt.Bytes](), &u.gbyt)
	case "StringSet":
		return newSetBox[V](amt.NewStringSet(), &u.str)
	case "BytesSet":
		return newSetBox[V](amt.NewBytesSet(), &u.byt)
	case "IntSet":
		return newSetBox[V](amt.NewIntSet(), &u.int)
	case "ArrSet":
		return newSetBox[V](amt.NewArrSet[AK](), &u.arr)
	}
	if b := newIntKeyBox[V](kind, u); b != nil {
		return b
	}
	panic("verif: unknown kind " + kind)
}
