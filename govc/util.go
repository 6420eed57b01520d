package main

import (
	"math"
	"math/big"
	"sort"
)

func bigOne() *big.Int { return big.NewInt(1) }

func inf(s int) float64 { return math.Inf(s) }

func sortBy[T any](s []T, less func(a, b T) bool) {
	sort.SliceStable(s, func(i, j int) bool { return less(s[i], s[j]) })
}
