//go:build !verifutil

package main

func (c *Ctx) utilGen(part, parts int) {}
func (c *Ctx) utilRandom()             {}
