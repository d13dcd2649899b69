//go:build !noint

package main

import (
	"bytes"
	"fmt"
	"hash/maphash"

	"github.com/wdamron/amt"
)

// Built separately: if amt.Int does not satisfy amt.Key this file does not compile,
// and the check of C18 reports it (check.sh then builds with -tags noint).
const intIsKey = true

func newIntKeyBox[V any](kind string, u *Universe) Box[V] {
	switch kind {
	case "Map[Int]":
		return newMapBox[V](amt.NewMap[amt.Int, V](), &u.gint)
	case "Set[Int]":
		return newSetBox[V](amt.NewSet[amt.Int](), &u.gint)
	}
	return nil
}

func intContract(c *Ctx, is []int64, iters int) {
	encs := map[string]int64{}
	for _, x := range is {
		enc := c.helperCheck(fmt.Sprintf("Int(%d).Hash", x), iters, amt.Int(x).Hash, nil)
		if y, ok := encs[string(enc)]; ok && x != y {
			failf("Int(%d) and Int(%d) hash the same bytes", x, y)
		}
		encs[string(enc)] = x
		for _, y := range is {
			if got := amt.Int(x).Equal(amt.Int(y)); got != (x == y) {
				failf("Int(%d).Equal(Int(%d)) is %v", x, y, got)
			}
			c.res.Transitions++
		}
	}
	for _, n := range []uint{4095, 65535, 65536, 131072} {
		var enc []byte
		for e, x := range encs {
			if x == 0x0123456789abcdef {
				enc = []byte(e)
			}
		}
		maphash.VerifNextSeed = 9
		seed := maphash.MakeSeed()
		want := maphash.VerifMix(maphash.VerifSeedNumber(seed), bytes.Repeat(enc, int(n)+1))
		if h := amt.Int(0x0123456789abcdef).Hash(seed, n); h != want {
			failf("Int.Hash, iteration %d, is not the hash of the key repeated %d times", n, n+1)
		}
		c.res.Transitions++
	}
	c.res.States += int64(len(is) * len(is))
}
