//go:build verifpickle

package main

import (
	"io"

	leaves "github.com/dmitryikh/leaves"
)

func unpickle(r io.Reader) (interface{}, error) { return leaves.VerifUnpickle(r) }

const haveUnpickle = true
