//go:build values

package main

import (
	"fmt"
	"math"
	"strings"
	"unsafe"

	"github.com/wdamron/amt"
)

func valueTypes() []valueType {
	return []valueType{
		cmpVT("struct{}", func(int) struct{} { return struct{}{} }),
		vt[[0]func()]{"[0]func()", func(int) (v [0]func()) { return }, func(a, b [0]func()) bool { return true }},
		cmpVT("bool", func(i int) bool { return i%2 == 1 }),
		cmpVT("uint8", func(i int) uint8 { return uint8(i*37 + 1) }),
		cmpVT("[3]byte", func(i int) [3]byte { return [3]byte{byte(i), 255 - byte(i), byte(i * 7)} }),
		cmpVT("int16", func(i int) int16 { return int16(-i * 257) }),
		cmpVT("int32", func(i int) int32 { return int32(-i * 65537) }),
		cmpVT("uint64", func(i int) uint64 { return ^uint64(i) * 0x9E3779B97F4A7C15 }),
		vt[float64]{"float64", func(i int) float64 {
			return [...]float64{math.NaN(), math.Inf(-1), math.Copysign(0, -1), 1.5, math.Float64frombits(0x7ff8000000000123)}[i%5]
		}, func(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }},
		cmpVT("complex128", func(i int) complex128 { return complex(float64(i), -float64(i)) }),
		cmpVT("string", func(i int) string { return []string{"", "x", strings.Repeat("v", i%50), fmt.Sprint(i)}[i%4] }),
		vt[[]int]{"[]int", func(i int) []int {
			switch i % 4 {
			case 0:
				return nil
			case 1:
				return []int{}
			}
			return make([]int, i%7, i%7+i%3)
		}, func(a, b []int) bool {
			return (a == nil) == (b == nil) && len(a) == len(b) && cap(a) == cap(b) && unsafe.SliceData(a) == unsafe.SliceData(b)
		}},
		vt[any]{"any", func(i int) any {
			return []any{nil, i, fmt.Sprint(i), (*int)(nil), errVal(i), [5]int{i}, struct{}{}}[i%7]
		}, func(a, b any) bool { return a == b }},
		cmpVT("error", func(i int) error {
			if i%3 == 0 {
				return nil
			}
			return errVal(i)
		}),
		vt[func() int]{"func", func(i int) func() int {
			if i%3 == 0 {
				return nil
			}
			return func() int { return i }
		}, func(a, b func() int) bool {
			return (a == nil) == (b == nil) && (a == nil || a() == b())
		}},
		cmpVT("*int", func(i int) *int {
			if i%3 == 0 {
				return nil
			}
			return &i
		}),
		cmpVT("chan int", func(i int) chan int {
			if i%3 == 0 {
				return nil
			}
			return make(chan int, i)
		}),
		vt[map[int]int]{"map[int]int", func(i int) map[int]int {
			if i%3 == 0 {
				return nil
			}
			return map[int]int{i: i}
		}, reflectEq[map[int]int]},
		cmpVT("struct with padding", func(i int) pairVal { return pairVal{i%2 == 0, int64(-i), uint16(i)} }),
		cmpVT("[17]byte", func(i int) (v [17]byte) { v[0], v[8], v[16] = byte(i), byte(i+1), byte(i+2); return }),
		cmpVT("[1000]byte", func(i int) (v [1000]byte) {
			for j := range v {
				v[j] = byte(i + j)
			}
			return
		}),
		cmpVT("[700]*int", func(i int) (v [700]*int) { v[0], v[i%700], v[699] = &i, new(int), &i; return }),
		cmpVT("[40000]byte", func(i int) (v [40000]byte) { v[0], v[i%40000], v[39999] = byte(i), 7, byte(i); return }),
		vt[amt.IntMap[int]]{"amt.IntMap[int]", func(i int) amt.IntMap[int] {
			if i%3 == 0 {
				return amt.IntMap[int]{}
			}
			m := amt.NewIntMap[int]()
			m.Set(int64(i), i)
			return m
		}, func(a, b amt.IntMap[int]) bool { // the same container?
			if a.Nil() || b.Nil() {
				return a.Nil() == b.Nil()
			}
			n := a.Len()
			a.Set(-7, 1)
			ok := b.Len() == n+1 && b.Val(-7) == 1
			a.Del(-7)
			return ok && b.Len() == n
		}},
		vt[amt.StringSet]{"amt.StringSet", func(i int) amt.StringSet {
			if i%3 == 0 {
				return amt.StringSet{}
			}
			s := amt.NewStringSet()
			s.Add("x")
			return s
		}, func(a, b amt.StringSet) bool {
			if a.Nil() || b.Nil() {
				return a.Nil() == b.Nil()
			}
			n := a.Len()
			a.Add("probe")
			ok := b.Len() == n+1 && b.Has("probe")
			a.Del("probe")
			return ok && b.Len() == n
		}},
		cmpVT("unsafe.Pointer", func(i int) unsafe.Pointer { return unsafe.Pointer(&i) }),
	}
}

type lateRef struct {
	a [9]int
	s string
}

type node struct {
	next *node
	i    int
}

func heapTypes() []valueType {
	text := func(i int) string { return strings.Clone(fmt.Sprint("value number ", i)) }
	num := func(i int) *[4]int { return &[4]int{i, ^i, i, ^i} }
	intact := func(p *[4]int, i int) bool { return *p == [4]int{i, ^i, i, ^i} }
	return []valueType{
		ht[string]{"string", text, func(v string, i int) bool { return v == text(i) }},
		ht[[]int]{"[]int", func(i int) []int { return num(i)[:] }, func(v []int, i int) bool { return len(v) == 4 && intact((*[4]int)(v), i) }},
		ht[any]{"any", func(i int) any {
			return []any{text(i), num(i), i << 20, [3]int{i}}[i%4]
		}, func(v any, i int) bool {
			if p, ok := v.(*[4]int); ok {
				return intact(p, i)
			}
			return v == []any{text(i), nil, i << 20, [3]int{i}}[i%4]
		}},
		ht[error]{"error", func(i int) error { return fmt.Errorf("error %d", i) }, func(v error, i int) bool { return v.Error() == fmt.Sprint("error ", i) }},
		ht[func() int]{"func", func(i int) func() int { return func() int { return i } }, func(v func() int, i int) bool { return v() == i }},
		ht[*[4]int]{"*[4]int", num, intact},
		ht[chan int]{"chan int", func(i int) chan int {
			c := make(chan int, i%50+1)
			c <- i
			return c
		}, func(v chan int, i int) bool { x := <-v; v <- x; return x == i && len(v) == 1 && cap(v) == i%50+1 }},
		ht[map[int]string]{"map[int]string", func(i int) map[int]string { return map[int]string{i: text(i)} }, func(v map[int]string, i int) bool { return len(v) == 1 && v[i] == text(i) }},
		ht[lateRef]{"struct with a late pointer", func(i int) lateRef { return lateRef{[9]int{i}, text(i)} }, func(v lateRef, i int) bool { return v.a[0] == i && v.s == text(i) }},
		ht[[1]string]{"[1]string", func(i int) [1]string { return [1]string{text(i)} }, func(v [1]string, i int) bool { return v[0] == text(i) }},
		ht[[300]*[4]int]{"[300]*[4]int", func(i int) (v [300]*[4]int) { v[0], v[i%300], v[299] = num(i), num(i), num(i); return }, func(v [300]*[4]int, i int) bool {
			return intact(v[0], i) && intact(v[i%300], i) && intact(v[299], i)
		}},
		ht[struct {
			b [5000]byte
			p *[4]int
		}]{"large struct with a last pointer", func(i int) (v struct {
			b [5000]byte
			p *[4]int
		}) {
			v.b[4999], v.p = byte(i), num(i)
			return
		}, func(v struct {
			b [5000]byte
			p *[4]int
		}, i int) bool {
			return v.b[4999] == byte(i) && intact(v.p, i)
		}},
		ht[*node]{"list", func(i int) *node { return &node{&node{&node{nil, i + 2}, i + 1}, i} }, func(v *node, i int) bool {
			return v.i == i && v.next.i == i+1 && v.next.next.i == i+2 && v.next.next.next == nil
		}},
		ht[amt.StringMap[string]]{"amt.StringMap[string]", func(i int) amt.StringMap[string] {
			m := amt.NewStringMap[string]()
			m.Set(text(i), text(i))
			return m
		}, func(v amt.StringMap[string], i int) bool { return v.Len() == 1 && v.Val(text(i)) == text(i) }},
		ht[unsafe.Pointer]{"unsafe.Pointer", func(i int) unsafe.Pointer { return unsafe.Pointer(num(i)) }, func(v unsafe.Pointer, i int) bool { return intact((*[4]int)(v), i) }},
	}
}
