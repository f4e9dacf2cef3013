package main

import "math"

func inf(s int) float64  { return math.Inf(s) }
func inf_(s int) float64 { return math.Inf(s) }
