package main

import "sync"

// Op is one operation of a history: C is its code, K its key. Values written are the
// step number, so every write of a history is distinguishable.
type Op struct {
	C byte
	K uint8
	H uint8 // handle (copy or container), for the properties that use several
	V int32 // value to write; 0: the step number + 1000
}

// zeroValue stands for 0 in Op.V.
const zeroValue = -1 << 31

var eulerCache sync.Map

// euler returns an Euler circuit of the directed n-cube from the empty set: a sequence
// of toggles that takes every (contents, toggled key) transition exactly once.
func euler(n int) []uint8 {
	if t, ok := eulerCache.Load(n); ok {
		return t.([]uint8)
	}
	next := make([]uint8, 1<<n) // next untaken toggle per vertex
	type fr struct {
		v uint32
		t uint8 // toggle that led here
	}
	stack := []fr{{0, 255}}
	var rev []uint8
	for len(stack) > 0 {
		f := &stack[len(stack)-1]
		if int(next[f.v]) < n {
			t := next[f.v]
			next[f.v]++
			stack = append(stack, fr{f.v ^ 1<<t, t})
			continue
		}
		rev = append(rev, f.t)
		stack = stack[:len(stack)-1]
	}
	rev = rev[:len(rev)-1] // the start vertex
	for i, j := 0, len(rev)-1; i < j; i, j = i+1, j-1 {
		rev[i], rev[j] = rev[j], rev[i]
	}
	eulerCache.Store(n, rev)
	return rev
}

// gray returns a Hamiltonian cycle of the n-cube as toggles: every contents once.
func gray(n int) (r []uint8) {
	for i := 1; i < 1<<n; i++ {
		t := uint8(0)
		for i>>t&1 == 0 {
			t++
		}
		r = append(r, t)
	}
	return append(r, uint8(n-1))
}

// cubeOps turns toggles into operations: absent keys are inserted (by each of ins in
// turn), present ones deleted.
func cubeOps(toggles []uint8, ins string) []Op {
	ops := make([]Op, len(toggles))
	var mask uint32
	for i, t := range toggles {
		if mask>>t&1 != 0 {
			ops[i] = Op{C: 'D', K: t}
		} else {
			ops[i] = Op{C: ins[i/2%len(ins)], K: t}
		}
		mask ^= 1 << t
	}
	return ops
}

// fillOps returns a history that, for keys in slot order, makes an insertion at every
// rank with every number of keys present, and a deletion likewise: for every i, keys
// 0..i-1 are inserted in ascending order and the others in descending order; then keys
// of rank j are deleted until j are left, which are deleted from the last one down.
func fillOps(n int, ins string) (ops []Op) {
	step := 0
	add := func(k int) {
		ops = append(ops, Op{C: ins[step%len(ins)], K: uint8(k)})
		step++
	}
	for i := 0; i < n; i++ {
		for k := 0; k < i; k++ {
			add(k)
		}
		for k := n - 1; k >= i; k-- {
			add(k)
		}
		j := (i*5 + 3) % n
		for k := j; k < n; k++ {
			ops = append(ops, Op{C: 'D', K: uint8(k)})
		}
		for k := j - 1; k >= 0; k-- {
			ops = append(ops, Op{C: 'D', K: uint8(k)})
		}
		step++ // other insertion codes at the same ranks next time
	}
	return
}

var tourCache = map[string][]Op{}

// tour returns a history that takes every transition (contents, operation, key) of the
// content graph of n keys under the operation codes: D deletes, other codes insert if
// they are upper case letters, and leave the contents alone otherwise.
func tour(n int, codes string) []Op {
	id := string(rune('0'+n)) + codes
	if t, ok := tourCache[id]; ok {
		return t
	}
	A := n * len(codes)
	op := func(a int) Op { return Op{C: codes[a%len(codes)], K: uint8(a / len(codes))} }
	step := func(s, a int) int {
		o := op(a)
		switch {
		case o.C == 'D':
			return s &^ (1 << o.K)
		case o.C >= 'A' && o.C <= 'Z':
			return s | 1<<o.K
		}
		return s
	}
	done := make([]bool, A<<n)
	left := A << n
	var walk []Op
	s := 0
	for left > 0 {
		// breadth-first search for the nearest untaken transition
		type node struct{ s, prev, a int }
		q := []node{{s, -1, -1}}
		seen := map[int]bool{s: true}
	search:
		for i := 0; i < len(q); i++ {
			for a := 0; a < A; a++ {
				if !done[q[i].s*A+a] {
					var path []int
					for j := i; q[j].prev >= 0; j = q[j].prev {
						path = append(path, q[j].a)
					}
					for j := len(path) - 1; j >= 0; j-- {
						walk = append(walk, op(path[j]))
					}
					walk = append(walk, op(a))
					done[q[i].s*A+a] = true
					left--
					s = step(q[i].s, a)
					break search
				}
				if t := step(q[i].s, a); !seen[t] {
					seen[t] = true
					q = append(q, node{t, i, a})
				}
			}
			if i == len(q)-1 {
				panic("verif: tour stuck") // the graph is strongly connected
			}
		}
	}
	tourCache[id] = walk
	return walk
}

// seqs calls f with every operation sequence of length 1..depth over n keys; f must
// not keep the slice. Shorter sequences come first.
func seqs(n int, codes string, depth int, f func([]Op)) {
	A := n * len(codes)
	for l := 1; l <= depth; l++ {
		idx := make([]int, l)
		ops := make([]Op, l)
		for {
			for i, a := range idx {
				ops[i] = Op{C: codes[a%len(codes)], K: uint8(a / len(codes))}
			}
			f(ops)
			i := l - 1
			for ; i >= 0; i-- {
				if idx[i]++; idx[i] < A {
					break
				}
				idx[i] = 0
			}
			if i < 0 {
				break
			}
		}
	}
}

// pow returns a^1 + ... + a^n.
func geom(a, n int) (s int) {
	x := 1
	for i := 0; i < n; i++ {
		x *= a
		s += x
	}
	return
}

// contentsOf counts the contents a history passes through.
func contentsOf(ops []Op) int64 {
	seen := map[uint64]bool{0: true}
	var mask uint64
	for _, o := range ops {
		if o.C == 'D' {
			mask &^= 1 << o.K
		} else if o.C >= 'A' && o.C <= 'Z' {
			mask |= 1 << o.K
		}
		seen[mask] = true
	}
	return int64(len(seen))
}
