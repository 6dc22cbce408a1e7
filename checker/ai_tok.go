package main

import "go/token"

const (
	tokLSS = token.LSS
	tokEQL = token.EQL
)
