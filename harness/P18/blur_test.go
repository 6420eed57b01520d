package p18

import (
	"io"
	"math"
	"testing"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/hsl"
	"github.com/mlnoga/nightlight/internal/ops/stretch"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/internal/zzverif/vlib"
)

func mirror(n, x int) int {
	x = ((x % (2 * n)) + 2*n) % (2 * n)
	if x >= n {
		x = 2*n - 1 - x
	}
	return x
}

// separable convolution with mirrored borders, in double precision
func blur(d []float32, w int, k []float32) []float64 {
	ht, r := len(d)/w, len(k)/2
	t, o := make([]float64, len(d)), make([]float64, len(d))
	for y := 0; y < ht; y++ {
		for x := 0; x < w; x++ {
			for i := -r; i <= r; i++ {
				t[y*w+x] += float64(d[y*w+mirror(w, x+i)]) * float64(k[i+r])
			}
		}
	}
	for y := 0; y < ht; y++ {
		for x := 0; x < w; x++ {
			for i := -r; i <= r; i++ {
				o[y*w+x] += t[mirror(ht, y+i)*w+x] * float64(k[i+r])
			}
		}
	}
	return o
}

func random(h *vlib.H, n int) []float32 {
	d := make([]float32, n)
	for i := range d {
		d[i] = h.Rng.Float32()
		if h.Rng.Intn(30) == 0 {
			d[i] = 5
		}
	}
	return d
}

func sigma(h *vlib.H) float32 {
	switch h.Rng.Intn(4) {
	case 0:
		return 0.01 + 0.3*h.Rng.Float32()
	case 1:
		return 3 + 12*h.Rng.Float32()
	}
	return 0.3 + 3*h.Rng.Float32()
}

func TestVerifKernel(t *testing.T) {
	h := vlib.New()
	defer h.Done()
	for i := 0; i < h.N(200); i++ {
		s := sigma(h)
		h.Case("gaussian kernel of sigma %g", s)
		h.Try("Kernel", func() {
			k := stretch.GaussianKernel1D(s)
			if len(k)%2 != 1 {
				h.Fail("Kernel-odd", "sigma %g: %d values", s, len(k))
				return
			}
			r, sum := len(k)/2, 0.0
			g := make([]float64, len(k))
			for j := range k {
				lo, hi := float64(j-r)-0.5, float64(j-r)+0.5
				g[j] = 0.5 * (math.Erf(hi/float64(s)/math.Sqrt2) - math.Erf(lo/float64(s)/math.Sqrt2))
				sum += g[j]
			}
			if math.Erf((float64(r)+1.5)/float64(s)/math.Sqrt2) < 0.975 { // one step wider, less than one percent is left out on each side
				h.Fail("Kernel-width", "sigma %g: %d values hold only %g of the gaussian", s, len(k), sum)
			}
			tot := 0.0
			for j := range k {
				tot += float64(k[j])
				if !vlib.Close(float64(k[j]), g[j]/sum, 1e-3, 1e-5) || k[j] != k[len(k)-1-j] {
					h.Fail("Kernel-value", "sigma %g: value %d of %d is %g, want %g", s, j, len(k), k[j], g[j]/sum)
					return
				}
			}
			if math.Abs(tot-1) > 1e-5 {
				h.Fail("Kernel-sum", "sigma %g: sum %g", s, tot)
			}
		})
	}
}

func TestVerifBlur(t *testing.T) {
	h := vlib.New()
	defer h.Done()
	for i := 0; i < h.N(120); i++ {
		w, ht := 1+h.Rng.Intn(40), 1+h.Rng.Intn(40)
		s := sigma(h)
		h.Case("blur of %d x %d pixels with sigma %g", w, ht, s)
		d := random(h, w*ht)
		before := append([]float32{}, d...)
		h.Try("Blur", func() {
			k := stretch.GaussianKernel1D(s)
			want := blur(before, w, k)
			res, tmp := make([]float32, len(d)), make([]float32, len(d))
			stretch.GaussFilter2D(res, tmp, d, w, s)
			for j := range d {
				if d[j] != before[j] {
					h.Fail("Filter-input", "pixel %d of the input changed", j)
					return
				}
				if !vlib.Close(float64(res[j]), want[j], 1e-4, 1e-5) {
					h.Fail("Filter-value", "%d x %d pixels, sigma %g: pixel %d,%d is %g, want %g", w, ht, s, j%w, j/w, res[j], want[j])
					return
				}
			}
			out := stretch.GaussianBlur(d, w, s)
			for j := range out {
				if !vlib.Close(float64(out[j]), want[j], 1e-4, 1e-5) || out[j] != d[j] {
					h.Fail("Blur-value", "%d x %d pixels, sigma %g: pixel %d,%d is %g, want %g", w, ht, s, j%w, j/w, out[j], want[j])
					return
				}
			}
		})
	}
}

func sharpen(v, b, gain, lo, hi, thr float64) float64 {
	if v < thr {
		return v
	}
	return math.Min(math.Max(v+(v-b)*gain, lo), hi)
}

func TestVerifOperators(t *testing.T) {
	h := vlib.New()
	defer h.Done()
	stats.LSEstimator = stats.LSEMeanStdDev // the other estimators draw random samples
	defer func() { stats.LSEstimator = stats.LSESCMedianQn }()
	for i := 0; i < h.N(120); i++ {
		w, ht, planes := 2+h.Rng.Intn(30), 2+h.Rng.Intn(30), 1+2*h.Rng.Intn(2)
		s, gain, thr := sigma(h), float32(h.Rng.NormFloat64()*2), float32(h.Rng.NormFloat64())
		kind := h.Rng.Intn(3)
		if kind == 2 {
			planes = 3
		}
		nax := []int32{int32(w), int32(ht)}
		if planes == 3 {
			nax = append(nax, 3)
		}
		n := w * ht
		d := random(h, n*planes)
		before := append([]float32{}, d...)
		f := fits.NewImageFromNaxisn(nax, d)
		f.Stats.Location()
		f.Stats.Noise()
		c := ops.NewContext(io.Discard, 64, stats.LSESCMedianQn)
		st := stats.NewStats(before, int32(w))
		if kind == 2 {
			st = stats.NewStatsForChannel(before, int32(w), 2, 3)
		}
		abs := float64(st.Location() + st.Scale()*thr)
		lo, hi := float64(st.Min()), float64(st.Max())
		h.Case("operator %d on %v, sigma %g gain %g threshold %g", kind, nax, s, gain, thr)
		if !h.Try("Operator", func() {
			switch kind {
			case 0:
				f, _ = stretch.NewOpGaussianBlur(s).Apply(f, c)
			case 1:
				f, _ = stretch.NewOpUnsharpMask(s, gain, thr).Apply(f, c)
			default:
				f, _ = hsl.NewOpHSLUnsharpMask(s, gain, thr).Apply(f, c)
			}
		}) {
			continue
		}
		k := stretch.GaussianKernel1D(s)
		for p := 0; p < planes; p++ {
			b := blur(before[p*n:(p+1)*n], w, k)
			for j := 0; j < n; j++ {
				v := float64(before[p*n+j])
				want := b[j]
				if kind != 0 {
					want = sharpen(v, b[j], float64(gain), lo, hi, abs)
					if math.Abs(v-abs) < 1e-4 {
						continue
					}
				}
				if kind == 2 && p != 2 {
					want = v
				}
				if g := float64(f.Data[p*n+j]); !vlib.Close(g, want, 1e-4, 1e-4) {
					h.Fail("Operator-value", "operator %d on %v, sigma %g gain %g: plane %d pixel %d,%d is %g, want %g", kind, nax, s, gain, p, j%w, j/w, g, want)
					p = planes
					break
				}
			}
		}
		r := stats.NewStats(f.Data, f.Naxisn[0])
		for q, p := range [][2]float32{{f.Stats.Min(), r.Min()}, {f.Stats.Max(), r.Max()}, {f.Stats.Mean(), r.Mean()}, {f.Stats.StdDev(), r.StdDev()}, {f.Stats.Location(), r.Location()}, {f.Stats.Noise(), r.Noise()}} {
			if !vlib.Close(float64(p[0]), float64(p[1]), 1e-4, 1e-4) && !(math.IsNaN(float64(p[0])) && math.IsNaN(float64(p[1]))) {
				h.Fail("Operator-stats", "operator %d on %v: statistic %d (min, max, mean, standard deviation, location, noise) is %g, of the data it is %g", kind, nax, q, p[0], p[1])
			}
		}
	}
}
