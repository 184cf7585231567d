//go:build verif

package main

import leaves "github.com/dmitryikh/leaves"

func setHook(f func(begin bool, fvals []float64, start int)) bool {
	leaves.VerifRow = f
	return true
}
