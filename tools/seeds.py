#!/usr/bin/env python3
"""Plants the bugs of seeded/ (all, or the ids given)."""
import sys
from seedlib import plant
B = []
def bug(*a, **k): B.append((a, k))

bug('c01-bytesmap-grow-order', 'C01', 'an insertion in front of existing entries of a trie level below the root that is full with 8 entries',
 'BytesMap.Set loses an entry and duplicates another when a level grows from 8 to 12 slots',
 [('bytes_map.go', 'func (m BytesMap[V]) Set(', 'for after := idx; after < count; after++ {', 'for after := idx | count&8; after < count; after++ {')],
'''
	m := NewBytesMap[int]()
	for i := 0; i < 400; i++ {
		m.Set([]byte(strconv.Itoa(i)), i)
		for j := 0; j <= i; j++ {
			if v, ok := m.Get([]byte(strconv.Itoa(j))); !ok || v != j {
				t.Fatalf("after %d insertions, Get(%d) is %d, %v", i+1, j, v, ok)
			}
		}
	}
''', imports=['strconv'])

bug('c02-arrset-rehash-prefix', 'C02', 'three array keys longer than 32 bytes agreeing on all 16 digits of their first hash',
 'ArrSet.Has rehashes only the first half of the key, so it misses present keys below level 16',
 [('arr_set.go', 'func (s ArrSet[K]) Has(', 'hw.Write(kb[:])', 'hw.Write(kb[:len(kb)/2])', 1)],
'''
	s := NewArrSet[K]()
	for i := byte(1); i < 4; i++ {
		b := K{i}.KeyBytes()
		force(b[:], 77, uint64(i))
		s.Add(K{i})
	}
	for i := byte(1); i < 4; i++ {
		if !s.Has(K{i}) {
			t.Fatalf("key %d is missing", i)
		}
	}
//OUTSIDE
type K [64]byte

func (k K) KeyBytes() [64]byte { return k }
''', stub=True)

bug('c03-stringmap-mod-copies', 'C03', 'a Mod that inserts into a level below the root that has no room left, and a caller that keeps the pointer',
 'StringMap.Mod hands its callback a pointer that is not where the value is stored',
 [('string_map.go', 'func (m StringMap[V]) Mod(', '''			ptr: unsafe.Pointer(kv),
		}
		for after := idx''', '''			ptr: unsafe.Pointer(&strkv[V]{kv.v, key}),
		}
		for after := idx''')],
'''
	m := NewStringMap[int]()
	for i := 0; i < 300; i++ {
		k := strconv.Itoa(i)
		var p *int
		m.Mod(k, func(q *int, _ bool) { p = q })
		if m.Ptr(k) != p {
			t.Fatalf("Mod(%s) passed a pointer that is not the one Ptr returns", k)
		}
	}
''', imports=['strconv'])

bug('c04-stringset-rehash-count', 'C04', 'two keys whose complete first hash coincides and that meet at level 16 exactly',
 'StringSet.Add computes the conflicting key\'s rehash with one round too few when the conflict is found at a level that is a multiple of 16',
 [('string_set.go', 'func (s StringSet) Add(', 'for cd := uint8(0); cd <= d; cd += (64 / 4) {', 'for cd := uint8(0); cd < d || cd == 0; cd += (64 / 4) {')],
'''
	s := NewStringSet()
	force([]byte("a"), 5, 0x10)
	force([]byte("b"), 5, 0x21)
	force([]byte("c"), 5, 0x31)
	s.Add("a")
	s.Add("b")
	s.Add("c")
	for _, k := range []string{"a", "b", "c"} {
		if !s.Has(k) {
			t.Fatalf("%s is missing", k)
		}
	}
	if s.Len() != 3 {
		t.Fatal("wrong length")
	}
''', stub=True)

bug('c04-set-del-iteration', 'C04', 'deletion of a generic set key below two successive complete hash collisions',
 'Set.Del asks for the wrong hash iteration below level 32 and leaves the key in the set',
 [('generic_set.go', 'func (s Set[K]) Del(', 'uint(d>>4)', 'uint(d>>4&1)')],
'''
	s := NewSet[K]()
	for i := uint64(1); i < 4; i++ {
		s.Add(K(i))
	}
	for i := uint64(1); i < 4; i++ {
		s.Del(K(i))
		if s.Has(K(i)) {
			t.Fatalf("%d is still there", i)
		}
	}
//OUTSIDE
type K uint64

func (k K) Equal(o K) bool { return k == o }
func (k K) Hash(seed maphash.Seed, iter uint) uint64 {
	if iter < 2 {
		return 99
	}
	return uint64(k)
}
''', imports=['hash/maphash'])

bug('c05-bytesmap-del-absent', 'C05', 'deletion of an absent key whose hash leads to a stored key below the root',
 'BytesMap.Del of an absent key that shares digits with a stored one changes the recorded depth',
 [('bytes_map.go', 'func (m BytesMap[V]) Del(', '''		l.pmap &^= bit
		l.tmap &^= bit
		m.len--
		m.dep -= uint64(d)
''', '''		l.pmap &^= bit
		l.tmap &^= bit
		m.len--
'''), ('bytes_map.go', 'func (m BytesMap[V]) Del(', '''		if !bytes.Equal(''', '''		m.dep -= uint64(d)
		if !bytes.Equal(''')],
'''
	m := NewBytesMap[int]()
	for i := 0; i < 40; i++ {
		m.Set([]byte(strconv.Itoa(i)), i)
	}
	dep := m.Dep()
	for i := 1000; i < 3000; i++ {
		m.Del([]byte(strconv.Itoa(i)))
		if m.Dep() != dep {
			t.Fatalf("deleting the absent key %d changed Dep from %v to %v", i, dep, m.Dep())
		}
	}
''', imports=['strconv'])

bug('c06-arrset-len-split', 'C06', 'two keys agreeing on two or more hash digits, inserted in one order only',
 'ArrSet.Add does not count the new key when it splits an entry over several levels and goes in front of it',
 [('arr_set.go', 'func (s ArrSet[K]) Add(', '''					pair[0].ptr, pair[1].ptr = unsafe.Pointer(kv), unsafe.Pointer(ckv)
				} else {
''', '''					pair[0].ptr, pair[1].ptr = unsafe.Pointer(kv), unsafe.Pointer(ckv)
					if d&3 == 3 {
						s.len--
					}
				} else {
''')],
'''
	s := NewArrSet[K]()
	for i := 0; i < 60000; i++ {
		s.Add(K{byte(i), byte(i >> 8)})
		if s.Len() != uint(i+1) {
			t.Fatalf("Len is %d after %d insertions", s.Len(), i+1)
		}
	}
//OUTSIDE
type K [2]byte

func (k K) KeyBytes() (r [64]byte) { copy(r[:], k[:]); return }
''')

bug('c07-bytesscan-stop', 'C07', 'a callback that returns false at the last entry of a nested level',
 'BytesMap.All goes on after the callback returned false at the last entry of a sub-trie',
 [('bytes_map.go', 'func bytesScan[V any](', '''				return false
			}
		} else''', '''				return i+1 == count && l.tmap == l.pmap && count < 16
			}
		} else''')],
'''
	m := NewBytesMap[int]()
	for i := 0; i < 200; i++ {
		m.Set([]byte(strconv.Itoa(i)), i)
	}
	for stop := 1; stop <= 200; stop++ {
		n := 0
		m.All(func([]byte, *int) bool {
			n++
			return n != stop
		})
		if n != stop {
			t.Fatalf("All made %d calls, the callback returned false at call %d", n, stop)
		}
	}
''', imports=['strconv'])

bug('c07-intset-sign', 'C07', 'integer keys whose low half has its top bit set and whose high half is not all ones',
 'IntSet.All reports keys with a wrong high half',
 [('int_set.go', 'func intSetScan(', 'IntKey(item.pmap) | (IntKey(item.tmap) << 32)', 'IntKey(int32(item.pmap)) | (IntKey(item.tmap) << 32)')],
'''
	s := NewIntSet()
	s.Add(0x180000001)
	s.All(func(k int64) bool {
		if k != 0x180000001 {
			t.Fatalf("All visits %#x", k)
		}
		return true
	})
''')

bug('c08-arrmap-collapse-depth', 'C08', 'deletion of one of two keys that agree on two or more digits',
 'ArrMap.Del reduces the depth by one level only when a branch of several levels collapses',
 [('arr_map.go', 'func (m ArrMap[K, V]) Del(', '''			*l = *(*link)(l.ptr)
			m.dep--
''', '''			*l = *(*link)(l.ptr)
			m.dep -= uint64(d&1 | 1&^(d>>1))
''')],
'''
	m := NewArrMap[K, int]()
	n := 30000
	for i := 0; i < n; i++ {
		m.Set(K{byte(i), byte(i >> 8)}, i)
	}
	for i := 0; i < n; i++ {
		m.Del(K{byte(i), byte(i >> 8)})
		if m.Len() == 1 && m.Dep() != 0 {
			t.Fatalf("Dep of a map with one entry is %v", m.Dep())
		}
		if m.Dep() > 16 {
			t.Fatalf("Dep is %v", m.Dep())
		}
	}
//OUTSIDE
type K [2]byte

func (k K) KeyBytes() (r [64]byte) { copy(r[:], k[:]); return }
''')

bug('c08-bytesset-no-collapse', 'C08', 'deletion of a key whose sibling lies two or more levels below the next branch',
 'BytesSet.Del collapses a single-entry branch by one level only, so Dep depends on the history',
 [('bytes_set.go', 'func (s BytesSet) Del(', 'for count == 1 && l.pmap == l.tmap && d != 0 {', 'for up := d - d&1; count == 1 && l.pmap == l.tmap && d > up&^1 && d != 0; {')],
'''
	s := NewBytesSet()
	n := 30000
	for i := 0; i < n; i++ {
		s.Add([]byte(strconv.Itoa(i)))
	}
	for i := 1; i < n; i++ {
		s.Del([]byte(strconv.Itoa(i)))
	}
	if s.Dep() != 0 {
		t.Fatalf("Dep of a set with one entry is %v", s.Dep())
	}
''', imports=['strconv'])

bug('c09-map-collapse-copy', 'C09', 'a pointer obtained before a neighbour in the same sub-trie is deleted',
 'generic Map.Del copies the entry it pulls up, so value pointers of another key go stale',
 [('generic_map.go', 'func (m Map[K, V]) Del(', '''			*l = *(*link)(l.ptr)
''', '''			*l = *(*link)(l.ptr)
			one := *(*kv[K, V])(l.ptr)
			l.ptr = unsafe.Pointer(&one)
''')],
'''
	m := NewMap[String, int]()
	ps := map[int]*int{}
	for i := 0; i < 100; i++ {
		m.Set(String(strconv.Itoa(i)), i)
		ps[i] = m.Ptr(String(strconv.Itoa(i)))
	}
	for i := 0; i < 100; i += 2 {
		m.Del(String(strconv.Itoa(i)))
	}
	for i := 1; i < 100; i += 2 {
		*ps[i] = -i
		if v, _ := m.Get(String(strconv.Itoa(i))); v != -i {
			t.Fatalf("a write through the pointer of %d is lost", i)
		}
	}
''', imports=['strconv'])

bug('c10-arrmap-fresh-root', 'C10', 'a copy of the map taken before the map is emptied, then an insertion through one copy',
 'ArrMap.Set starts a new trie when the map is empty, so copies diverge',
 [('arr_map.go', None, 'func (m ArrMap[K, V]) Set(key K, value V) {\n', 'func (m *ArrMap[K, V]) Set(key K, value V) {\n\tif m.len == 0 && m.tmap == 0 && m.items[0].ptr == nil && m.path[0].radix|1 == 1 && m.dep == 0 && m.root.seed != (maphash.Seed{}) && m.pmap == 0 {\n\t\tm.root = newRoot() // empty: reseed\n\t}\n')],
'''
	a := NewArrMap[K, int]()
	b := a
	a.Set(K{1}, 1)
	if b.Len() != 1 {
		t.Fatal("a copy does not see the insertion")
	}
//OUTSIDE
type K [2]byte

func (k K) KeyBytes() (r [64]byte) { copy(r[:], k[:]); return }
''')

bug('c11-bytesmap-nil-val', 'C11', 'Val on the zero value of BytesMap',
 'BytesMap.Val panics on an uninitialized map',
 [('bytes_map.go', 'func (m BytesMap[V]) Val(', '''	if m.root != nil {
		if ptr := m.Ptr(key); ptr != nil {
			value = *ptr
		}
	}
''', '''	if ptr := m.Ptr(key); ptr != nil {
		value = *ptr
	}
''')],
'''
	var m BytesMap[int]
	if m.Val([]byte("x")) != 0 {
		t.Fatal("value")
	}
''')

bug('c12-bytesmap-lookup-hint', 'C12', 'two goroutines reading the same map at the same time (or any look at the memory)',
 'BytesMap.Ptr notes the last branch it took in the root, so concurrent readers race and follow each other\'s hints',
 [('bytes_map.go', 'func (m BytesMap[V]) Ptr(', '''			l = item
			d++
''', '''			m.path[0] = pathLink{radix, item}
			l = m.path[0].link
			d++
''')],
'''
	m := NewBytesMap[int]()
	for i := 0; i < 2000; i++ {
		m.Set([]byte(strconv.Itoa(i)), i)
	}
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 20000; i++ {
				if v, ok := m.Get([]byte(strconv.Itoa(i % 2000))); !ok || v != i%2000 {
					t.Errorf("Get(%d) is %d, %v", i%2000, v, ok)
					return
				}
			}
		}()
	}
	wg.Wait()
''', imports=['strconv', 'sync'], flags='-race')

bug('c13-arrset-shared-buffer', 'C13', 'two goroutines working on different array sets at the same time, or a key method that uses another set',
 'ArrSet.Add hashes from a buffer shared by all sets',
 [('arr_set.go', None, '''func (s ArrSet[K]) Add(key K) {
	kb := key.KeyBytes()
''', '''func (s ArrSet[K]) Add(key K) {
	arrKeyBuf = key.KeyBytes()
	kb := &arrKeyBuf
'''), ('arr_set.go', None, '''// Add adds key to s.
''', '''var arrKeyBuf [64]byte // avoids copying the key

// Add adds key to s.
''')],
'''
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			s := NewArrSet[K]()
			for i := 0; i < 60000; i++ {
				s.Add(K{byte(i), byte(i >> 8), byte(g)})
			}
			for i := 0; i < 60000; i++ {
				if !s.Has(K{byte(i), byte(i >> 8), byte(g)}) {
					t.Errorf("key %d missing", i)
					return
				}
			}
		}(g)
	}
	wg.Wait()
//OUTSIDE
type K [3]byte

func (k K) KeyBytes() (r [64]byte) { copy(r[:], k[:]); return }
''', imports=['sync'], flags='-race')

bug('c14-intmap-mod-late', 'C14', 'a Mod callback that panics while inserting a new key into a level with room',
 'IntMap.Mod runs the callback after the slots were shifted, so a panic in it leaves a duplicate or lost entry',
 [('int_map.go', 'func (m IntMap[V]) Mod(', '''	mod(&val.v, false)
	count :=''', '''	count :='''),
  ('int_map.go', 'func (m IntMap[V]) Mod(', '''	l.pmap |= bit
	l.tmap |= bit
	m.len++
''', '''	mod(&val.v, false)
	l.pmap |= bit
	l.tmap |= bit
	m.len++
''')],
'''
	m := NewIntMap[int]()
	for i := int64(0); i < 9; i++ {
		m.Set(i, int(i))
	}
	for i := int64(100); i < 200; i++ {
		func() {
			defer func() { recover() }()
			m.Mod(i, func(*int, bool) { panic("x") })
		}()
		for j := int64(0); j < 9; j++ {
			if v, ok := m.Get(j); !ok || v != int(j) {
				t.Fatalf("after a panic in Mod(%d), Get(%d) is %d, %v", i, j, v, ok)
			}
		}
	}
''')

bug('c15-intset-low-half', 'C15', 'two integers with equal low halves, one of them absent, whose hashes lead to the same slot',
 'IntSet.Has compares the low half of the key only',
 [('int_set.go', 'func (s IntSet) Has(', 'key == IntKey(item.pmap)|(IntKey(item.tmap)<<32)', 'uint32(key) == item.pmap')],
'''
	s := NewIntSet()
	s.Add(5)
	for i := int64(1); i < 2000; i++ {
		if s.Has(5 | i<<32) {
			t.Fatalf("the absent key %#x is reported present", 5|i<<32)
		}
	}
''')

bug('c15-arrmap-prefix', 'C15', 'two array keys that differ only beyond byte 32 and meet in one slot',
 'ArrMap.Ptr compares the first 32 key bytes only',
 [('arr_map.go', 'func (m ArrMap[K, V]) Ptr(', 'if kv := (*arrkv[K, V])(item.ptr); kv.k == key { // key match', 'if kv := (*arrkv[K, V])(item.ptr); *(*[32]byte)(kb[:]) == arrPrefix(kv.k) { // key match'),
  ('arr_map.go', None, '// Set adds or updates the value for key.\n', '''func arrPrefix[K ArrKey](k K) [32]byte {
	kb := k.KeyBytes()
	return *(*[32]byte)(kb[:])
}

// Set adds or updates the value for key.
''')],
'''
	m := NewArrMap[K, int]()
	m.Set(K{}, 1)
	for i := 1; i < 1000; i++ {
		k := K{}
		k[40], k[41] = byte(i), byte(i>>8)
		if _, ok := m.Get(k); ok {
			t.Fatalf("an absent key is found (%d)", i)
		}
	}
//OUTSIDE
type K [64]byte

func (k K) KeyBytes() [64]byte { return k }
''')

bug('c16-arrmap-mod-overflow', 'C16', 'five keys with the same complete 64-bit hash, the fifth inserted with Mod',
 'ArrMap.Mod takes level 16 for the root and writes past the end of a full 4-slot array',
 [('arr_map.go', 'func (m ArrMap[K, V]) Mod(', '(count != 0 && count%4 != 0) || d == 0 {', '(count != 0 && count%4 != 0) || d%(64/4) == 0 {')],
'''
	// neighbours of the array that overflows, of the same size class
	m := NewArrMap[K, int]()
	for i := byte(0); i < 4; i++ {
		b := K{i}.KeyBytes()
		force(b[:], 7, uint64(i)*2)
		m.Set(K{i}, int(i))
	}
	l := &m.link
	for l.tmap == 0 {
		l = (*link)(l.ptr)
	}
	size := uintptr(0)
	old := l.ptr
	b := K{9}.KeyBytes()
	force(b[:], 7, 9)
	m.Mod(K{9}, func(*int, bool) {})
	if l.ptr == old {
		t.Fatalf("the fifth entry went into the array of four (%d)", size)
	}
//OUTSIDE
type K [2]byte

func (k K) KeyBytes() (r [64]byte) { copy(r[:], k[:]); return }
''', stub=True)

bug('c16-bytesset-del-overrun', 'C16', 'a deletion that shrinks a level below the root to 4, 8 or 12 entries',
 'BytesSet.Del copies one slot too many and writes past the end of the new, smaller array',
 [('bytes_set.go', 'func (s BytesSet) Del(', 'for after := idx; after < count; after++ {', 'for after := idx; after <= count && after < 15; after++ {')],
'''
	// every level array is checked against the allocations around it by AddressSanitizer
	s := NewBytesSet()
	for i := 0; i < 300; i++ {
		s.Add([]byte(strconv.Itoa(i)))
	}
	for i := 0; i < 300; i++ {
		s.Del([]byte(strconv.Itoa(i)))
	}
''', imports=['strconv'], flags='-asan')

bug('c17-arrmap-lazy-shrink', 'C17', 'deletion down to four entries in a level below the root, then deletion of the entry that was last',
 'ArrMap.Del keeps the old array at 4 entries without clearing the vacated slot, so a deleted value stays reachable',
 [('arr_map.go', 'func (m ArrMap[K, V]) Del(', 'if count%4 == 0 && d != 0 { // copy', 'if count%8 == 0 && d != 0 { // copy'),
 ],
'''
	m := NewArrMap[K, *[100]int]()
	var n atomic.Int32
	const N = 2000
	for i := 0; i < N; i++ {
		v := new([100]int)
		runtime.SetFinalizer(v, func(*[100]int) { n.Add(1) })
		m.Set(K{byte(i), byte(i >> 8)}, v)
	}
	for i := 0; i < N; i++ {
		if i%16 > 4 {
			m.Del(K{byte(i), byte(i >> 8)})
		}
	}
	for i := 0; i < N; i++ {
		if i%16 == 2 {
			m.Del(K{byte(i), byte(i >> 8)})
		}
	}
	want := int32(0)
	for i := 0; i < N; i++ {
		if i%16 > 4 || i%16 == 2 {
			want++
		}
	}
	for i := 0; i < 20 && n.Load() < want; i++ {
		runtime.GC()
		time.Sleep(20 * time.Millisecond)
	}
	if n.Load() < want {
		t.Fatalf("%d of %d deleted values were released", n.Load(), want)
	}
	runtime.KeepAlive(m)
//OUTSIDE
type K [2]byte

func (k K) KeyBytes() (r [64]byte) { copy(r[:], k[:]); return }
''', imports=['runtime', 'sync/atomic', 'time'])

bug('c18-int-hash-low', 'C18', 'rehashing (odd iterations) of integer keys with equal low halves',
 'Int.Hash writes only the low half of the key at odd iterations',
 [('int_map.go', 'func (i Int) Hash(', 'hw.Write(b[:])', 'hw.Write(b[:8>>(i&1)])')],
'''
	seed := maphash.MakeSeed()
	for iter := uint(0); iter < 4; iter++ {
		b := intbytes(12345678901)
		if Int(12345678901).Hash(seed, iter) != HashBytes(b[:], seed, iter) {
			t.Fatalf("iteration %d is not the hash of the repeated key", iter)
		}
	}
''', imports=['hash/maphash'])

bug('c19-intmap-shared-value', 'C19', 'two keys that meet in one slot and are set to equal values, one of them written through its pointer later',
 'IntMap.Set shares one value between colliding keys with equal values',
 [('int_map.go', 'func (m IntMap[V]) Set(', '''				val := &intkv[V]{value}
''', '''				val := &intkv[V]{value}
				if size := unsafe.Sizeof(value); size != 0 && size <= 8 && *(*byte)(unsafe.Pointer(&cval.v)) == *(*byte)(unsafe.Pointer(&value)) && any(cval.v) == any(value) {
					val = cval // equal small values
				}
''')],
'''
	m := NewIntMap[string1]()
	n := NewIntMap[bool]()
	_ = m
	for i := int64(0); i < 100; i++ {
		n.Set(i, true)
	}
	*n.Ptr(50) = false
	for i := int64(0); i < 100; i++ {
		if i != 50 && !n.Val(i) {
			t.Fatalf("the value of %d changed with that of 50", i)
		}
	}
	ps := map[*bool]int64{}
	for i := int64(0); i < 100; i++ {
		if j, ok := ps[n.Ptr(i)]; ok {
			t.Fatalf("%d and %d share their value", i, j)
		}
		ps[n.Ptr(i)] = i
	}
//OUTSIDE
type string1 string
''')

bug('c20-shared-seed', 'C20', 'two containers: their hash seeds are the same',
 'all containers share one seed, so a key set that degenerates one degenerates all',
 [('amt.go', None, '	r := &root{seed: maphash.MakeSeed()}\n', '	r := &root{seed: processSeed}\n'),
  ('amt.go', None, 'func newRoot() *root {', 'var processSeed = maphash.MakeSeed() // drawn once\n\nfunc newRoot() *root {')],
'''
	a, b := NewStringMap[int](), NewStringMap[int]()
	if a.seed == b.seed {
		t.Fatal("two maps have the same seed")
	}
''')

bug('c20-set-compares-siblings', 'C20', 'a generic set with entries in a level below the root, and a key type that counts calls of Equal',
 'Set.Has looks for the key among neighbouring entries first, so it is compared with several stored keys',
 [('generic_set.go', 'func (s Set[K]) Has(', '''			l = item
			d++
''', '''			l = item
			d++
			if first := (*link)(l.ptr); l.tmap&-l.tmap == l.pmap&-l.pmap && key.Equal((*kv[K, struct{}])(first.ptr).k) {
				return true
			}
''')],
'''
	s := NewSet[K]()
	for i := 0; i < 200; i++ {
		s.Add(K(i))
	}
	for i := 0; i < 200; i++ {
		calls = 0
		s.Has(K(i))
		if calls > 1 {
			t.Fatalf("Has(%d) made %d comparisons", i, calls)
		}
	}
//OUTSIDE
var calls int

type K int

func (k K) Equal(o K) bool { calls++; return k == o }
func (k K) Hash(seed maphash.Seed, iter uint) uint64 {
	return Int(k).Hash(seed, iter)
}
''', imports=['hash/maphash'])

bug('c21-level-of-eight', 'C21', 'a trie level below the root from which one of nine entries is deleted',
 'a level that shrinks to exactly 8 entries gets an array of 12 links; one that grew to 8 entries has 8',
 [('amt.go', 'func newLinkArray(', '	case capacity <= 8:', '	case capacity < 8:')],
'''
	const n = 20000
	forced8 := func(k int) []byte { return []byte{byte(k)} }
	for k := 0; k < 9; k++ {
		force(forced8(k), uint64(k)<<4)
	}
	build := func(upTo int) uint64 {
		ms := make([]BytesSet, n)
		var a, b runtime.MemStats
		runtime.GC()
		runtime.ReadMemStats(&a)
		for i := range ms {
			maphash.VerifNextSeed = 1
			ms[i] = NewBytesSet()
			for k := 0; k < upTo; k++ {
				ms[i].Add(forced8(k))
			}
			for k := 8; k < upTo; k++ {
				ms[i].Del(forced8(k))
			}
		}
		runtime.GC()
		runtime.ReadMemStats(&b)
		runtime.KeepAlive(ms)
		return (b.HeapAlloc - a.HeapAlloc) / n
	}
	grown, shrunk := build(8), build(9)
	if shrunk > grown+16 {
		t.Fatalf("a set that shrank to 8 entries takes %d bytes, one that grew to 8 takes %d", shrunk, grown)
	}
''', stub=True, imports=['runtime'])

bug('c21-stringset-lazy-shrink', 'C21', 'a level below the root that held five entries or more and shrinks to four',
 'StringSet.Del keeps the larger array when a level shrinks to four entries',
 [('string_set.go', 'func (s StringSet) Del(', '		if count%4 == 0 && d != 0 { // copy all items when reallocating\n', '''		if count == 4 && d != 0 { // keep a spare block, in case the level grows again
			*(*link)(unsafe.Pointer(uintptr(src) + uintptr(idx)*linkSize)) = link{}
		} else if count%4 == 0 && d != 0 { // copy all items when reallocating
'''),
  ('string_set.go', 'func (s StringSet) Del(', '''				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
		}
''', '''				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
			if count == 4 {
				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize)) = link{}
			}
		}
''')],
'''
	const n = 20000
	for k := 0; k < 5; k++ {
		force([]byte{byte('a' + k)}, uint64(k)<<4)
	}
	build := func(upTo int) uint64 {
		ms := make([]StringSet, n)
		var a, b runtime.MemStats
		runtime.GC()
		runtime.ReadMemStats(&a)
		for i := range ms {
			maphash.VerifNextSeed = 1
			ms[i] = NewStringSet()
			for k := 0; k < upTo; k++ {
				ms[i].Add("abcde"[k : k+1])
			}
			if upTo == 5 {
				ms[i].Del("c")
			}
		}
		runtime.GC()
		runtime.ReadMemStats(&b)
		runtime.KeepAlive(ms)
		return (b.HeapAlloc - a.HeapAlloc) / n
	}
	grown, shrunk := build(4), build(5)
	if shrunk > grown+32 {
		t.Fatalf("a set that shrank to 4 entries takes %d bytes, one that grew to 4 takes %d", shrunk, grown)
	}
''', stub=True, imports=['runtime'])

bug('c21-intmap-deep-arrays', 'C21', 'two int keys that agree on more than four hash digits below their common level',
 'IntMap.Mod sizes the arrays of a chain of branches by their level',
 [('int_map.go', 'func (m IntMap[V]) Mod(', 'item.ptr = newLinkArray(1)', 'item.ptr = newLinkArray(d)')],
'''
	const n = 20000
	k := []byte{1, 0, 0, 0, 0, 0, 0, 0}
	force(k, 0)
	k = []byte{2, 0, 0, 0, 0, 0, 0, 0}
	force(k, 1<<60)
	build := func(mod bool) uint64 {
		ms := make([]IntMap[int], n)
		var a, b runtime.MemStats
		runtime.GC()
		runtime.ReadMemStats(&a)
		for i := range ms {
			maphash.VerifNextSeed = 1
			ms[i] = NewIntMap[int]()
			for k := IntKey(1); k <= 2; k++ {
				if mod {
					ms[i].Mod(k, func(*int, bool) {})
				} else {
					ms[i].Set(k, 0)
				}
			}
		}
		runtime.GC()
		runtime.ReadMemStats(&b)
		runtime.KeepAlive(ms)
		if d := ms[0].Dep(); d != 15 {
			panic(d)
		}
		return (b.HeapAlloc - a.HeapAlloc) / n
	}
	set, mod := build(false), build(true)
	if mod > set+64 {
		t.Fatalf("two entries made by Mod take %d bytes, made by Set %d", mod, set)
	}
''', stub=True, imports=['runtime'])

KEYHELP = '''
type K struct{ h, id int }

var failing int // Equal or Hash panics when it counts down to 0

func tick() {
	if failing > 0 {
		if failing--; failing == 0 {
			panic("key method fails")
		}
	}
}
func (k K) Equal(o K) bool { tick(); return k == o }
func (k K) Hash(seed maphash.Seed, iter uint) uint64 {
	tick()
	if iter == 0 {
		return uint64(k.h)
	}
	return uint64(k.id)
}
'''
bug('c22-map-del-unlinks-first', 'C22', 'a key type whose Equal panics during Del',
 'Map.Del takes the entry out of the bitmaps before it has compared the keys; a panic in Equal loses the entry but not its count',
 [('generic_map.go', 'func (m Map[K, V]) Del(', '''		if !key.Equal((*kv[K, V])(item.ptr).k) { // key missing
''', '''		pmap, tmap := l.pmap, l.tmap
		l.pmap &^= bit
		l.tmap &^= bit
		if !key.Equal((*kv[K, V])(item.ptr).k) { // key missing
			l.pmap, l.tmap = pmap, tmap
'''),
  ('generic_map.go', 'func (m Map[K, V]) Del(', '''		l.pmap &^= bit
		l.tmap &^= bit
		m.len--
''', '''		m.len--
''')],
'''
	m := NewMap[K, int]()
	m.Set(K{1, 1}, 1)
	m.Set(K{2, 2}, 2)
	for n := 1; n < 5; n++ {
		func() {
			defer func() { recover() }()
			failing = n
			m.Del(K{2, 9})
		}()
		failing = 0
		if v, ok := m.Get(K{2, 2}); !ok || v != 2 || m.Len() != 2 {
			t.Fatalf("after a panic in call %d of a key method: %d, %v, len %d", n, v, ok, m.Len())
		}
	}
//OUTSIDE
''' + KEYHELP, imports=['hash/maphash'])

bug('c22-arrset-late-keybytes', 'C22', 'an array key type whose KeyBytes panics for the stored key while an insertion splits its entry',
 'ArrSet.Add asks the stored key for its bytes only after it has marked its slot as a branch',
 [('arr_set.go', 'func (s ArrSet[K]) Add(', '''		ckb := ckey.KeyBytes()
		var chw maphash.Hash
''', '''		l.tmap &^= bit
		ckb := ckey.KeyBytes()
		var chw maphash.Hash
'''), ('arr_set.go', 'func (s ArrSet[K]) Add(', '''		// replace with new branch until non-colliding
		l.tmap &^= bit
''', '''		// replace with new branch until non-colliding
''')],
'''
	for n := 1; n < 4; n++ {
		s := NewArrSet[K]()
		for i := byte(0); i < 64; i++ {
			if i > 32 {
				func() {
					defer func() { recover() }()
					failing = n
					s.Add(K{i})
				}()
				failing = 0
			}
			for j := byte(0); j < i; j++ {
				if !s.Has(K{j}) {
					t.Fatalf("key %d is gone after a panic in call %d of KeyBytes", j, n)
				}
			}
			s.Add(K{i})
		}
	}
//OUTSIDE
var failing int

type K [20]byte

func (k K) KeyBytes() (b [64]byte) {
	if failing > 0 {
		if failing--; failing == 0 {
			panic("no bytes")
		}
	}
	copy(b[:], k[:])
	return
}
''')

bug('c22-map-set-eager', 'C22', 'a key type whose Equal panics during Set, at a slot that holds another entry',
 'Map.Set writes the new value before the comparison and takes it back when the keys differ; a panic in between leaves the wrong value',
 [('generic_map.go', 'func (m Map[K, V]) Set(', '''		if key.Equal(ckey) { // update existing
			ckv.v = value
			return
		}
''', '''		prev := ckv.v
		ckv.v = value
		if key.Equal(ckey) { // updated existing
			return
		}
		ckv.v = prev
''')],
'''
	m := NewMap[K, int]()
	m.Set(K{1, 1}, 1)
	for n := 1; n < 5; n++ {
		func() {
			defer func() { recover() }()
			failing = n
			m.Set(K{1, 2}, 7)
		}()
		failing = 0
		if v := m.Val(K{1, 1}); v != 1 {
			t.Fatalf("after a panic in call %d of a key method the other key's value is %d", n, v)
		}
	}
//OUTSIDE
''' + KEYHELP, imports=['hash/maphash'])

bug('c23-bytesset-all-drains', 'C23', 'a callback of All that returns false early, in a large set',
 'BytesSet.All goes on through the whole set after it has been stopped, without calling the callback',
 [('bytes_set.go', 'func (s BytesSet) All(', 'bytesSetScan(&s.link, do)', '''more := true
	bytesSetScan(&s.link, func(key []byte) bool {
		if more {
			more = do(key)
		}
		return true
	})''')],
'''
	s := NewBytesSet()
	for i := 0; i < 200000; i++ {
		s.Add([]byte(strconv.Itoa(i)))
	}
	n := 0
	t0 := time.Now()
	for i := 0; i < 10; i++ {
		s.All(func([]byte) bool { n++; return true })
	}
	full := time.Since(t0)
	t0 = time.Now()
	for i := 0; i < 1000; i++ {
		s.All(func([]byte) bool { return false })
	}
	if stopped := time.Since(t0); stopped > full {
		t.Fatalf("stopping 1000 times at once takes %v, 10 complete iterations %v", stopped, full)
	}
''', imports=['strconv', 'time'])

bug('c23-intmap-deep-del-recount', 'C23', 'deletion of a key that shares at least eight hash digits with another one, in a large map',
 'IntMap.Del recomputes the sum of depths by a walk over the whole map when it has collapsed a long chain',
 [('int_map.go', 'func (m IntMap[V]) Del(', '''		for count == 1 && l.pmap == l.tmap && d != 0 {
''', '''		if d >= 8 { // many branches may go: count anew
			m.dep = uint64(d) + intDepths[V](&m.link, 0)
			m.dep -= uint64(d)
		}
		for count == 1 && l.pmap == l.tmap && d != 0 {
'''), ('int_map.go', None, 'func intScan[V any](', '''func intDepths[V any](l *link, d uint64) (sum uint64) {
	pmap := l.pmap
	for i := 0; pmap != 0; i++ {
		bit := pmap & -pmap
		if l.tmap&bit != 0 {
			sum += d
		} else {
			sum += intDepths[V]((*link)(unsafe.Pointer(uintptr(l.ptr)+uintptr(i)*linkSize)), d+1)
		}
		pmap &^= bit
	}
	return
}

func intScan[V any]('''),
 ],
'''
	m := NewIntMap[int]()
	for i := IntKey(0); i < 200000; i++ {
		m.Set(i, 1)
	}
	key := func(b byte) []byte { return []byte{b, 0, 0, 0, 0, 0, 0, 1} }
	force(key(1), 0x1111111111)
	force(key(2), 0x2111111111)
	n := 0
	t0 := time.Now()
	for i := 0; i < 5; i++ {
		m.All(func(IntKey, *int) bool { n++; return true })
	}
	full := time.Since(t0)
	t0 = time.Now()
	for i := 0; i < 500; i++ {
		m.Set(1<<56|1, 1)
		m.Set(1<<56|2, 1)
		m.Del(1<<56 | 1)
	}
	if deep := time.Since(t0); deep > full {
		t.Fatalf("500 deletions take %v, 5 complete iterations %v", deep, full)
	}
''', stub=True, imports=['time'])

RACE24 = '''
	for i := 0; i < 2000; i++ {
		m.Set(KEY(i), i)
	}
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := g; i < 20000; i += 4 {
				m.Mod(KEY(i%2000), func(v *int, ok bool) {
					if !ok || *v%2000 != i%2000 {
						t.Errorf("Mod(%d) is handed %d, %v", i%2000, *v, ok)
					}
					*v += 2000
				})
			}
		}(g)
	}
	wg.Wait()
	if m.Len() != 2000 {
		t.Errorf("Len is %d", m.Len())
	}
	for i := 0; i < 2000; i++ {
		if v := m.Val(KEY(i)); v != i+20000 {
			t.Fatalf("%d is %d after 10 increments", i, v)
		}
	}
'''
bug('c24-arrmap-mod-counts-first', 'C24', 'two goroutines in Mod of different present keys at the same time',
 'ArrMap.Mod counts an entry before looking for it and takes it back when it exists, so concurrent Mods of present keys lose counts',
 [('arr_map.go', 'func (m ArrMap[K, V]) Mod(', '			mod(&ckv.v, true)\n', '			m.len--\n			mod(&ckv.v, true)\n'),
  ('arr_map.go', 'func (m ArrMap[K, V]) Mod(', '	kb := key.KeyBytes()\n', '	kb := key.KeyBytes()\n	m.len++\n'),
  ('arr_map.go', 'func (m ArrMap[K, V]) Mod(', '				m.len++\n				m.dep', '				m.dep'),
  ('arr_map.go', 'func (m ArrMap[K, V]) Mod(', '	m.len++\n	m.dep += uint64(d)\n}', '	m.dep += uint64(d)\n}'),
 ],
'\n	m := NewArrMap[seedKey, int]()\n' + RACE24.replace('KEY(', 'seedKeyOf(') + '''
//OUTSIDE
type seedKey [2]byte

func (k seedKey) KeyBytes() (b [64]byte) {
	copy(b[:], k[:])
	return
}

func seedKeyOf(i int) seedKey { return seedKey{byte(i), byte(i >> 8)} }
''', imports=['sync'], flags='-race')

bug('c24-stringmap-mod-path', 'C24', 'two goroutines in Mod of different present keys at the same time, below the root level',
 'StringMap.Mod keeps its position in the scratch path of the root, so concurrent Mods of present keys are led to each other\'s entries',
 [('string_map.go', 'func (m StringMap[V]) Mod(', '''			l = item
			d++
''', '''			m.path[0] = pathLink{radix, item}
			d++
			l = m.path[0].link
''')],
'\n	m := NewStringMap[int]()\n' + RACE24.replace('KEY(', 'strconv.Itoa('), imports=['strconv', 'sync'], flags='-race')

if __name__ == '__main__':
    ids = sys.argv[1:]
    bad = 0
    for a, k in B:
        if not ids or a[0] in ids:
            bad += not plant(*a, **k)
    sys.exit(bad)
