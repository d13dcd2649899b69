// Package maphash is a drop-in stand-in for the standard hash/maphash, laid over
// it at build time (go build -overlay). It keeps the documented behaviour: a hash
// depends only on the seed and on the concatenation of the bytes written. What is
// open in the real package, the hash values and the seeds, is decided by the model
// checker here: VerifTables[seed] maps a byte sequence to its hash; sequences (or
// seeds) without an entry get a fixed well-mixed hash.
package maphash

import (
	"encoding/binary"
	"fmt"
	"hash"
	"math"
	"sync/atomic"
)

// VerifTables holds, per seed number, the chosen hash of each byte sequence.
var VerifTables []map[string]uint64

// VerifNextSeed is the seed number the next MakeSeed returns; it counts up.
var VerifNextSeed uint64 = 1

// VerifLimit, if not zero, bounds the number of Sum64 calls (VerifSums): an
// operation that keeps rehashing for ever panics instead of hanging.
var VerifLimit, VerifSums uint64

// VerifSeedNumber returns the number behind s.
func VerifSeedNumber(s Seed) uint64 { return s.s }

// Livelock is the panic value when VerifLimit is exceeded.
type Livelock struct{}

func (Livelock) Error() string { return "verif: operation rehashes without end" }

type Seed struct {
	s uint64
}

func MakeSeed() Seed { return Seed{atomic.AddUint64(&VerifNextSeed, 1) - 1} }

const inlineSize = 256

type Hash struct {
	_    [0]func()
	seed Seed
	n    int
	buf  [inlineSize]byte
	more []byte // all bytes, once they exceed buf
}

func (h *Hash) initSeed() {
	if h.seed.s == 0 {
		h.seed = MakeSeed()
	}
}

func (h *Hash) data() []byte {
	if h.more != nil {
		return h.more
	}
	return h.buf[:h.n]
}

func (h *Hash) spill(n int) {
	if h.more == nil {
		h.more = append(make([]byte, 0, 4*inlineSize+n), h.buf[:h.n]...)
	}
}

func (h *Hash) Write(b []byte) (int, error) {
	if h.more == nil && h.n+len(b) <= inlineSize {
		copy(h.buf[h.n:], b)
		h.n += len(b)
		return len(b), nil
	}
	h.spill(len(b))
	h.more = append(h.more, b...)
	return len(b), nil
}

func (h *Hash) WriteString(s string) (int, error) {
	if h.more == nil && h.n+len(s) <= inlineSize {
		copy(h.buf[h.n:], s)
		h.n += len(s)
		return len(s), nil
	}
	h.spill(len(s))
	h.more = append(h.more, s...)
	return len(s), nil
}

func (h *Hash) WriteByte(b byte) error {
	if h.more == nil && h.n < inlineSize {
		h.buf[h.n] = b
		h.n++
		return nil
	}
	h.spill(1)
	h.more = append(h.more, b)
	return nil
}

func (h *Hash) Seed() Seed {
	h.initSeed()
	return h.seed
}

func (h *Hash) SetSeed(seed Seed) {
	if seed.s == 0 {
		panic("maphash: use of uninitialized Seed")
	}
	h.seed, h.n, h.more = seed, 0, nil
}

func (h *Hash) Reset() {
	h.initSeed()
	h.n, h.more = 0, nil
}

func (h *Hash) Sum64() uint64 {
	h.initSeed()
	return sum(h.seed.s, h.data())
}

// VerifRecord, if set, receives every byte sequence that is hashed.
var VerifRecord func(seed uint64, b []byte)

func sum(seed uint64, b []byte) uint64 {
	if VerifRecord != nil {
		VerifRecord(seed, append([]byte(nil), b...))
	}
	if VerifLimit != 0 {
		if VerifSums++; VerifSums > VerifLimit {
			panic(Livelock{})
		}
	}
	if seed < uint64(len(VerifTables)) {
		if x, ok := VerifTables[seed][string(b)]; ok {
			return x
		}
	}
	return VerifMix(seed, b)
}

// VerifMix is the well-mixed hash of sequences the tables leave open.
func VerifMix(seed uint64, b []byte) uint64 {
	x := mix(seed*0x9e3779b97f4a7c15 + uint64(len(b)))
	for len(b) >= 8 {
		x = mix(x ^ binary.LittleEndian.Uint64(b))
		b = b[8:]
	}
	var t uint64
	for i, c := range b {
		t |= uint64(c) << (8 * i)
	}
	return mix(x ^ t + 0x632be59bd9b4e019)
}

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	return x ^ x>>31
}

func Bytes(seed Seed, b []byte) uint64 {
	if seed.s == 0 {
		panic("maphash: use of uninitialized Seed")
	}
	return sum(seed.s, b)
}

func String(seed Seed, s string) uint64 {
	return Bytes(seed, []byte(s))
}

func (h *Hash) Sum(b []byte) []byte {
	return binary.LittleEndian.AppendUint64(b, h.Sum64())
}

func (h *Hash) Size() int { return 8 }

func (h *Hash) BlockSize() int { return 128 }

func (h *Hash) Clone() (hash.Cloner, error) {
	h.initSeed()
	r := *h
	r.more = append([]byte(nil), h.more...)
	if h.more == nil {
		r.more = nil
	}
	return &r, nil
}

func comparableBytes(v any) []byte {
	switch v := v.(type) {
	case float32:
		return comparableBytes(float64(v))
	case float64:
		if v == 0 {
			v = 0
		}
		return binary.LittleEndian.AppendUint64([]byte("f"), math.Float64bits(v))
	}
	return fmt.Appendf(nil, "%T:%#v", v, v)
}

func Comparable[T comparable](seed Seed, v T) uint64 {
	return Bytes(seed, comparableBytes(v))
}

func WriteComparable[T comparable](h *Hash, x T) { h.Write(comparableBytes(x)) }
