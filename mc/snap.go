package main

import (
	"runtime"
	"unsafe"
)

// Snapshots of the implementation's state. A snapshot is a hash of the object graph
// reachable from a container, as the memory allocator sees it: every heap object is
// read word by word, pointers are replaced by the number of the object they lead to
// (and the offset in it). It needs no knowledge of the implementation's types, so it
// works for any code behind the containers' API; equal snapshots mean equal futures.

//go:linkname findObject runtime.findObject
func findObject(p, refBase, refOff uintptr) (base uintptr, s unsafe.Pointer, objIndex uintptr)

//go:linkname spanOfHeap runtime.spanOfHeap
func spanOfHeap(p uintptr) unsafe.Pointer

var elemsizeOff, classOff uintptr
var snapOK bool

// calibrate finds the offset of the object size in the allocator's span descriptor.
func calibrate() {
	var objs []unsafe.Pointer
	var sizes []uintptr
	add := func(p unsafe.Pointer, n uintptr) { objs, sizes = append(objs, p), append(sizes, n) }
	add(unsafe.Pointer(new([6]uint64)), 48)
	add(unsafe.Pointer(new([6]*uint64)), 48)
	add(unsafe.Pointer(new([16]*uint64)), 128)
	add(unsafe.Pointer(new([26]uint64)), 208)
	add(unsafe.Pointer(new([256]uint64)), 2048)
	calibKeep = objs
	for off := uintptr(0); off < 256; off += 8 {
		ok := true
		for i, p := range objs {
			base, s, _ := findObject(uintptr(p), 0, 0)
			if base == 0 || s == nil || *(*uintptr)(unsafe.Add(s, off)) != sizes[i] {
				ok = false
				break
			}
		}
		if ok {
			elemsizeOff = off
			break
		}
	}
	// the span class: size class << 1 | noscan
	for off := uintptr(0); off < 256 && elemsizeOff != 0; off++ {
		var cl [5]byte
		for i, p := range objs {
			_, s, _ := findObject(uintptr(p), 0, 0)
			cl[i] = *(*byte)(unsafe.Add(s, off))
		}
		if cl[0]&1 == 1 && cl[1] == cl[0]-1 && cl[2]&1 == 0 && cl[2] > cl[1] && cl[3] > cl[2]+1 && cl[3]&1 == 1 && cl[4] > cl[3]+1 && cl[4]&1 == 1 {
			classOff, snapOK = off, true
			return
		}
	}
}

var calibKeep []unsafe.Pointer

func init() { calibrate() }

func object(p uintptr) (base, size uintptr, noscan bool) {
	if p < 4096 || p>>47 != 0 || spanOfHeap(p) == nil { // findObject throws on bad pointers
		return
	}
	base, s, _ := findObject(p, 0, 0)
	if base == 0 || s == nil {
		return 0, 0, false
	}
	return base, *(*uintptr)(unsafe.Add(s, elemsizeOff)), *(*byte)(unsafe.Add(s, classOff))&1 == 1
}

type snapper struct {
	known map[uintptr]uint64 // object base -> label, not followed
	ids   map[uintptr]int
	queue []uintptr
	sizes []uintptr
	words []uint64
}

// ref returns the word to record for w.
func (s *snapper) ref(w uintptr) uint64 {
	base, size, noscan := object(w)
	if base == 0 {
		return uint64(w)
	}
	if l, ok := s.known[w]; ok {
		return 0xfeed<<48 | l
	}
	off := w - base
	if size == 16 && noscan { // possibly shared with other small objects: identify by address
		base, size, off = w, 8, 0
	}
	id, ok := s.ids[base]
	if !ok {
		id = len(s.queue)
		s.ids[base] = id
		s.queue = append(s.queue, base)
		s.sizes = append(s.sizes, size)
	}
	return 0xbeef<<48 | uint64(id)<<20 | uint64(off)
}

// snap returns a 128-bit hash of everything reachable from the words of the value at p.
func (s *snapper) snap(p unsafe.Pointer, size uintptr) [2]uint64 {
	if s.ids == nil {
		s.ids = map[uintptr]int{}
	}
	clear(s.ids)
	s.queue, s.sizes, s.words = s.queue[:0], s.sizes[:0], s.words[:0]
	for o := uintptr(0); o+8 <= size; o += 8 {
		s.words = append(s.words, s.ref(*(*uintptr)(unsafe.Add(p, o))))
	}
	for i := 0; i < len(s.queue); i++ {
		b, n := s.queue[i], s.sizes[i]
		s.words = append(s.words, uint64(n)<<32|0xabcd)
		for o := uintptr(0); o+8 <= n; o += 8 {
			s.words = append(s.words, s.ref(*(*uintptr)(heapPtr(b + o))))
		}
	}
	runtime.KeepAlive(p)
	h := [2]uint64{0x9e3779b97f4a7c15, 0xc2b2ae3d27d4eb4f}
	for _, w := range s.words {
		h[0] = (h[0]^w)*0xff51afd7ed558ccd + 1
		h[0] ^= h[0] >> 29
		h[1] = (h[1]+w)*0xc4ceb9fe1a85ec53 + 7
		h[1] ^= h[1] >> 31
	}
	return h
}

// footprint returns the number of bytes of heap memory reachable from the value at the
// last snap, without the known objects.
func (s *snapper) footprint() (n int) {
	for _, z := range s.sizes {
		n += int(z)
	}
	return
}

//go:nosplit
func heapPtr(p uintptr) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&p)) }
