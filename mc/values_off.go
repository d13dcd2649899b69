//go:build !values

package main

// Built for the properties that vary the types of values and keys only: the many
// instantiations take long to compile.
func valueTypes() []valueType { return nil }

func keyKinds() []keyKind { return nil }

func keptKeys(*Ctx, *Pattern) {}

func heapTypes() []valueType { return nil }
