package main

import "go/token"

const (
	tokADD = token.ADD
	tokMUL = token.MUL
	tokSUB = token.SUB
)
