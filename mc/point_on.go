//go:build instr

package main

import "github.com/wdamron/amt"

const instrumented = true

func setPoint(f func()) { amt.VerifPoint = f }
