package main

import "math"

func f64bits(f float64) uint64     { return math.Float64bits(f) }
func f64frombits(b uint64) float64 { return math.Float64frombits(b) }
func sqrt(f float64) float64       { return math.Sqrt(f) }
func floor(f float64) float64      { return math.Floor(f) }
