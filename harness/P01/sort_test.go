package p01

import (
	"math"
	"math/rand"
	"sort"
	"testing"

	"github.com/mlnoga/nightlight/internal/qsort"
	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/internal/zzverif/vlib"
)

// gen draws a NaN-free array of the given length in one of several shapes.
func gen(r *rand.Rand, n, shape int) []float32 {
	a := make([]float32, n)
	for i := range a {
		switch shape {
		case 0:
			a[i] = float32(r.NormFloat64())
		case 1:
			a[i] = float32(r.Intn(3))
		case 2:
			a[i] = float32(i)
		case 3:
			a[i] = float32(n - i)
		case 4:
			a[i] = 7
		case 5:
			if i < n/2 {
				a[i] = float32(i)
			} else {
				a[i] = float32(n - i)
			}
		case 6:
			if i > n/2 {
				a[i] = float32(i)
			} else {
				a[i] = float32(n - i)
			}
		case 7:
			a[i] = float32(i & 1)
		case 8:
			a[i] = []float32{float32(math.Inf(1)), float32(math.Inf(-1)), math.MaxFloat32, -math.MaxFloat32, 0, 1e-45, -1e-45}[r.Intn(7)]
		default:
			a[i] = float32(r.Intn(n + 1))
		}
	}
	return a
}

func shows(a []float32) []float32 {
	if len(a) > 40 {
		return a[:40]
	}
	return a
}

func checkSort(h *vlib.H, a []float32) {
	in := append([]float32{}, a...)
	want := append([]float32{}, a...)
	sort.Slice(want, func(i, j int) bool { return want[i] < want[j] })
	h.Case("QSortFloat32 len=%d %v", len(in), shows(in))
	if !h.Try("sort", func() { qsort.QSortFloat32(a) }) {
		return
	}
	for i := range a {
		if a[i] != want[i] {
			h.Fail("sort-result", "index %d: got %g, a sorted copy has %g", i, a[i], want[i])
			return
		}
	}
}

func checkStars(h *vlib.H, a []float32, r *rand.Rand) {
	st := make([]star.Star, len(a))
	cnt := map[star.Star]int{}
	for i := range a {
		st[i] = star.Star{Index: int32(r.Intn(4)), Value: float32(i), X: float32(r.Intn(5)), Y: float32(r.Intn(5)), Mass: a[i], HFR: float32(r.Intn(3))}
		cnt[st[i]]++
	}
	h.Case("QSortStarsDesc masses len=%d %v", len(a), shows(a))
	if !h.Try("stars", func() { star.QSortStarsDesc(st) }) {
		return
	}
	for i := range st {
		cnt[st[i]]--
		if cnt[st[i]] < 0 {
			h.Fail("stars-perm", "record %v appears more often after sorting than before", st[i])
			return
		}
		if i > 0 && st[i-1].Mass < st[i].Mass {
			h.Fail("stars-order", "mass at %d (%g) is below mass at %d (%g)", i-1, st[i-1].Mass, i, st[i].Mass)
			return
		}
	}
}

func TestVerifSort(t *testing.T) {
	h := vlib.New()
	defer h.Done()
	// every array over a small alphabet, up to length 6
	for n := 0; n <= 6; n++ {
		for code := 0; code < pow(4, n); code++ {
			a := make([]float32, n)
			c := code
			for i := range a {
				a[i] = float32(c % 4)
				c /= 4
			}
			b := append([]float32{}, a...)
			checkSort(h, a)
			checkStars(h, b, h.Rng)
		}
	}
	for i := 0; i < h.N(6000); i++ {
		n := h.Rng.Intn(70)
		if i%50 == 0 {
			n = h.Rng.Intn(3000)
		}
		shape := h.Rng.Intn(10)
		checkSort(h, gen(h.Rng, n, shape))
		checkStars(h, gen(h.Rng, n, shape), h.Rng)
	}
	// sub-slices: neighbours outside the slice must survive
	for i := 0; i < h.N(500); i++ {
		n := h.Rng.Intn(40)
		full := gen(h.Rng, n+10, h.Rng.Intn(10))
		before := append([]float32{}, full...)
		h.Case("QSortFloat32 on [5:%d] of %v", n+5, shows(full))
		qsort.QSortFloat32(full[5 : n+5])
		for j := range full {
			if (j < 5 || j >= n+5) && full[j] != before[j] {
				h.Fail("sort-outside", "element %d outside the sorted slice changed", j)
			}
		}
	}
}

func pow(b, n int) int {
	r := 1
	for ; n > 0; n-- {
		r *= b
	}
	return r
}
