package main

import (
	"fmt"
	"hash/maphash"
	"runtime"
)

// C21, stage process: nothing outside the containers grows either.

// heapNow is the size of the live heap, and the number of goroutines.
func heapNow() (uint64, int) {
	var s runtime.MemStats
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	runtime.ReadMemStats(&s)
	return s.HeapAlloc, runtime.NumGoroutine()
}

// heapUses are ways to use containers that leave nothing new behind, to be repeated.
// Each is given a container (the same one every time) and empties or restores it.
var heapUses = []struct {
	name string
	maps bool // for maps only
	use  func(kind string, u *Universe, p *Pattern, b Box[*[5]uint64])
}{
	{"insertions and deletions", false, func(kind string, u *Universe, p *Pattern, b Box[*[5]uint64]) {
		for i, o := range cubeOps(euler(p.n()), pick(isSet(kind), "S", "SM")) {
			heapOp(b, o, i)
		}
	}},
	{"overwrites", true, func(kind string, u *Universe, p *Pattern, b Box[*[5]uint64]) {
		for i := 0; i < 200*p.n(); i++ {
			heapOp(b, Op{C: "SM"[i&1], K: uint8(i % p.n())}, i)
		}
		for k := 0; k < p.n(); k++ {
			b.Del(k)
		}
	}},
	{"re-insertions of present and deletions of absent keys", false, func(kind string, u *Universe, p *Pattern, b Box[*[5]uint64]) {
		for k := 0; k < p.n(); k += 2 {
			heapOp(b, Op{C: 'S', K: uint8(k)}, k)
		}
		for i := 0; i < 200*p.n(); i++ {
			if k := i % p.n(); k%2 == 0 {
				heapOp(b, Op{C: 'S', K: uint8(k)}, i)
			} else {
				b.Del(k)
			}
		}
		for k := 0; k < p.n(); k += 2 {
			b.Del(k)
		}
	}},
	{"lookups, iterations and copies", false, func(kind string, u *Universe, p *Pattern, b Box[*[5]uint64]) {
		for k := 0; k < p.n(); k += 2 {
			heapOp(b, Op{C: 'S', K: uint8(k)}, k)
		}
		c := b.Copy(0)
		for i := 0; i < 200*p.n(); i++ {
			k := i % p.n()
			c.Get(k)
			if !isSet(kind) {
				c.Val(k)
				c.Ptr(k)
			}
			if i%4 == 0 {
				n := 0
				c.All(func(int, **[5]uint64) bool {
					n++
					return n < 1+i%5
				})
				c = b.Copy(0)
			}
			c.Len()
			c.Dep()
			c.Nil()
		}
		for k := 0; k < p.n(); k += 2 {
			c.Del(k)
		}
	}},
	{"containers made, filled and dropped", false, func(kind string, u *Universe, p *Pattern, b Box[*[5]uint64]) {
		for i := 0; i < 300; i++ {
			maphash.VerifNextSeed = 1
			d := newBox[*[5]uint64](kind, u)
			for k := 0; k <= i%p.n(); k++ {
				heapOp(d, Op{C: 'S', K: uint8(k)}, k)
			}
			for k := 0; k < i%3; k++ {
				d.Del(k)
			}
		}
	}},
	{"uninitialized containers", false, func(kind string, u *Universe, p *Pattern, b Box[*[5]uint64]) {
		for i := 0; i < 2000; i++ {
			z := b.Zero()
			z.Nil()
			func() {
				defer func() { recover() }()
				switch i % 4 {
				case 0:
					z.Len()
				case 1:
					z.Get(0)
				case 2:
					heapOp(z, Op{C: 'S'}, i)
				case 3:
					z.Del(0)
				}
			}()
		}
	}},
	{"callbacks that panic", false, func(kind string, u *Universe, p *Pattern, b Box[*[5]uint64]) {
		for k := 0; k < p.n(); k += 2 {
			heapOp(b, Op{C: 'S', K: uint8(k)}, k)
		}
		for i := 0; i < 100*p.n(); i++ {
			func() {
				defer func() { recover() }()
				if i%2 == 0 || isSet(kind) {
					n := 0
					b.All(func(int, **[5]uint64) bool {
						if n++; n > i%p.n() {
							panic(1)
						}
						return true
					})
					return
				}
				b.Mod(i%p.n(), func(q **[5]uint64, ok bool) { panic(1) })
			}()
		}
		for k := 0; k < p.n(); k++ {
			b.Del(k)
		}
	}},
}

func heapOp(b Box[*[5]uint64], o Op, i int) {
	switch o.C {
	case 'S':
		b.Set(int(o.K), newVal(uint64(i)))
	case 'M':
		b.Mod(int(o.K), func(q **[5]uint64, ok bool) { *q = newVal(uint64(i)) })
	case 'D':
		b.Del(int(o.K))
	}
}

// heapSlack is how much the live heap may differ between two passes.
const heapSlack = 24 << 10

func processTask(kind string, ps []*Pattern) Task {
	return Task{Name: kind + "/process", Run: func(c *Ctx) {
		for _, p := range ps {
			u := freshKeys(p.n())
			install(p, kind, u, 1)
			for _, w := range heapUses {
				if w.maps && isSet(kind) {
					continue
				}
				if c.late() {
					return
				}
				c.note = fmt.Sprintf("%s, %s, %s, repeatedly", kind, p, w.name)
				maphash.VerifNextSeed, maphash.VerifSums, maphash.VerifLimit = 1, 0, 0
				b := newBox[*[5]uint64](kind, u)
				w.use(kind, u, p, b) // bounded pools and caches may fill up
				w.use(kind, u, p, b)
				h0, g0 := heapNow()
				const passes = 6
				var hs []uint64
				for i := 0; i < passes; i++ {
					w.use(kind, u, p, b)
					h, g := heapNow()
					hs = append(hs, h-h0) // may wrap below zero
					c.res.Traces++
					if g > g0+8 {
						failf("%s: goroutines are left behind: %d, then %d", c.note, g0, g)
					}
				}
				if b.Len() != 0 {
					failf("%s: the container is not empty", c.note)
				}
				// (the passes are alike: bounded pools and caches are full by now)
				if int64(hs[passes-1]) > heapSlack {
					failf("%s: the live heap grows by %d bytes in %d passes (%v), while the containers hold nothing", c.note, hs[passes-1], passes, hs)
				}
				c.res.Transitions += int64(passes+2) * 100 * int64(p.n())
				c.res.States++
				runtime.KeepAlive(b)
			}
		}
		c.sample(c.note)
	}}
}

// largeHeapTask fills a container, empties it (by deletions, or by dropping it), and
// looks at what is left.
func largeHeapTask(kind string, n int) Task {
	return Task{Name: kind + "/large", Run: func(c *Ctx) {
		u := bigKeys(n)
		installDeep(kind, u)
		const slack = 256 << 10
		c.note = fmt.Sprintf("%s filled to %d entries and emptied again", kind, n)
		var b Box[*[5]uint64]
		fill := func(k0 int, del bool) {
			maphash.VerifNextSeed = 1
			b = newBox[*[5]uint64](kind, u)
			for k := 0; k < n; k++ {
				b.Set((k+k0)%n, newVal(uint64(k)))
			}
			for k := n - 1; del && k > 0; k-- {
				b.Del((k*7919 + k0) % n)
			}
			for k := 0; del && k < n; k++ {
				b.Del(k)
			}
			c.res.Transitions += int64(n)
		}
		u.encoding(kind, 0)
		b = newBox[*[5]uint64](kind, u)
		b.Set(0, newVal(1))
		b.Del(0)
		b = nil
		h0, _ := heapNow()
		for i, del := range []bool{true, false, true} {
			fill(i, del)
			if !del {
				b = nil
			} else if b.Len() != 0 {
				failf("%s: %d entries are left", c.note, b.Len())
			}
			h, _ := heapNow()
			if int64(h-h0) > slack {
				failf("%s (%s): %d more bytes are in use than before", c.note, pick(del, "entry by entry", "dropped"), h-h0)
			}
			runtime.KeepAlive(b)
			b = nil
			c.res.Traces++
		}
		c.res.States++
		c.sample(c.note)
	}}
}
