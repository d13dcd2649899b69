//go:build noint

package main

const intIsKey = false

func newIntKeyBox[V any](kind string, u *Universe) Box[V] {
	switch kind {
	case "Map[Int]":
		return newBox[V]("IntMap", u)
	case "Set[Int]":
		return newBox[V]("IntSet", u)
	}
	return nil
}

func intContract(*Ctx, []int64, int) {}
