//go:build !verif

package main

func setHook(f func(begin bool, fvals []float64, start int)) bool { return false }
