package p02

import (
	"math"
	"math/rand"
	"sort"
	"testing"

	"github.com/mlnoga/nightlight/internal/qsort"
	"github.com/mlnoga/nightlight/internal/zzverif/vlib"
)

func gen(r *rand.Rand, n, shape int) []float32 {
	a := make([]float32, n)
	for i := range a {
		switch shape {
		case 0:
			a[i] = float32(r.NormFloat64())
		case 1:
			a[i] = float32(r.Intn(3))
		case 2:
			a[i] = float32(i)
		case 3:
			a[i] = float32(n - i)
		case 4:
			a[i] = 7
		case 5:
			a[i] = float32(i & 1)
		case 6:
			if i < n/2 {
				a[i] = float32(i)
			} else {
				a[i] = float32(n - i)
			}
		case 7:
			if i > n/2 {
				a[i] = float32(i)
			} else {
				a[i] = float32(n - i)
			}
		case 8:
			a[i] = []float32{float32(math.Inf(1)), 1e30, -1e30, 0, 1e-45, -1e-45}[r.Intn(6)]
		default:
			a[i] = float32(r.Intn(n + 1))
		}
	}
	return a
}

func shows(a []float32) []float32 {
	if len(a) > 40 {
		return a[:40]
	}
	return a
}

func samePop(h *vlib.H, key string, got, sorted []float32) {
	g := append([]float32{}, got...)
	sort.Slice(g, func(i, j int) bool { return g[i] < g[j] })
	for i := range g {
		if g[i] != sorted[i] {
			h.Fail(key, "the selection changed the population of values: sorted index %d is %g, was %g", i, g[i], sorted[i])
			return
		}
	}
}

func checkAll(h *vlib.H, a []float32) {
	n := len(a)
	if n == 0 {
		return
	}
	s := append([]float32{}, a...)
	sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
	ks := []int{1, n, n/2 + 1, n/4 + 1, (n + 1) / 2, 1 + h.Rng.Intn(n)}
	if n <= 8 {
		ks = ks[:0]
		for k := 1; k <= n; k++ {
			ks = append(ks, k)
		}
	}
	for _, k := range ks {
		b := append([]float32{}, a...)
		h.Case("QSelectFloat32 k=%d len=%d %v", k, n, shows(a))
		h.Try("select", func() {
			if v := qsort.QSelectFloat32(b, k); v != s[k-1] {
				h.Fail("select-rank", "rank %d: got %g, want %g", k, v, s[k-1])
			}
			samePop(h, "select-perm", b, s)
		})
	}
	b := append([]float32{}, a...)
	h.Case("QSelectMedianFloat32 len=%d %v", n, shows(a))
	h.Try("median", func() {
		v := qsort.QSelectMedianFloat32(b)
		var w float32
		if n%2 == 1 {
			w = s[n/2]
		} else {
			w = 0.5 * (s[n/2-1] + s[n/2])
		}
		if !vlib.Same32(v, w) && !vlib.Close(float64(v), float64(w), 1e-6, 0) {
			h.Fail("median-value", "got %g, want %g", v, w)
		}
		samePop(h, "median-perm", b, s)
	})
	b = append([]float32{}, a...)
	h.Case("QSelectFirstQuartileFloat32 len=%d %v", n, shows(a))
	h.Try("quartile", func() {
		if v := qsort.QSelectFirstQuartileFloat32(b); v != s[n/4] {
			h.Fail("quartile-value", "got %g, want %g", v, s[n/4])
		}
		samePop(h, "quartile-perm", b, s)
	})
}

func TestVerifSelect(t *testing.T) {
	h := vlib.New()
	defer h.Done()
	for n := 1; n <= 6; n++ {
		p := 1
		for i := 0; i < n; i++ {
			p *= 4
		}
		for code := 0; code < p; code++ {
			a := make([]float32, n)
			c := code
			for i := range a {
				a[i] = float32(c % 4)
				c /= 4
			}
			checkAll(h, a)
		}
	}
	for i := 0; i < h.N(6000); i++ {
		n := 1 + h.Rng.Intn(70)
		if i%50 == 0 {
			n = 1 + h.Rng.Intn(3000)
		}
		checkAll(h, gen(h.Rng, n, h.Rng.Intn(10)))
	}
}
