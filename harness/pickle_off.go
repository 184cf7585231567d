//go:build !verifpickle

package main

import "io"

func unpickle(r io.Reader) (interface{}, error) { return nil, nil }

const haveUnpickle = false
