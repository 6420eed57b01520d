package p17

import (
	"math"
	"testing"
	"time"

	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/internal/zzverif/vlib"
)

func data(h *vlib.H, n, kind int) []float32 {
	// a slice of a larger array, so that the first value is not always aligned
	off := h.Rng.Intn(5)
	buf := make([]float32, off+n+h.Rng.Intn(9))
	for i := range buf {
		buf[i] = []float32{-1e9, 1e9, float32(math.Inf(1)), float32(math.Inf(-1))}[h.Rng.Intn(4)] // not part of the data
	}
	d := buf[off : off+n]
	for i := range d {
		switch kind {
		case 0:
			d[i] = h.Rng.Float32()
		case 1:
			d[i] = float32(h.Rng.NormFloat64()*50 + 1000)
		case 2:
			d[i] = -1 - h.Rng.Float32()*60000
		case 3:
			d[i] = float32(h.Rng.Intn(3) - 1)
		case 4:
			d[i] = 12345.25
		default:
			d[i] = float32(h.Rng.Intn(65536))
		}
	}
	if n > 0 && kind != 4 && h.Rng.Intn(2) == 0 { // extremes anywhere, also in the last values
		d[h.Rng.Intn(n)] = 200000
		d[n-1-h.Rng.Intn(imin(n, 5))] = -100000
		if h.Rng.Intn(2) == 0 {
			d[n-1] = 300000
		}
	}
	return d
}

type moments struct{ min, max, mean, sd, abs float64 }

func ref(d []float32) (m moments) {
	m.min, m.max = math.Inf(1), math.Inf(-1)
	for _, v := range d {
		m.min, m.max = math.Min(m.min, float64(v)), math.Max(m.max, float64(v))
		m.mean += float64(v)
		m.abs = math.Max(m.abs, math.Abs(float64(v)))
	}
	m.mean /= float64(len(d))
	for _, v := range d {
		m.sd += (float64(v) - m.mean) * (float64(v) - m.mean)
	}
	m.sd = math.Sqrt(m.sd / float64(len(d)))
	return m
}

func noise(d []float32, w int) float64 {
	ht := len(d) / w
	sum := 0.0
	for y := 1; y < ht-1; y++ {
		for x := 1; x < w-1; x++ {
			c := 0.0
			for dy := -1; dy <= 1; dy++ {
				for dx := -1; dx <= 1; dx++ {
					k := float64((2 - 3*dx*dx) * (2 - 3*dy*dy))
					c += k * float64(d[(y+dy)*w+x+dx])
				}
			}
			sum += math.Abs(c)
		}
	}
	return math.Sqrt(math.Pi/2) * sum / (6 * float64(w-2) * float64(ht-2))
}

func check(h *vlib.H, key string, s *stats.Stats, d []float32) {
	m := ref(d)
	if float64(s.Min()) != m.min || float64(s.Max()) != m.max {
		h.Fail(key+"-extremes", "%d values: minimum %g maximum %g, want %g %g", len(d), s.Min(), s.Max(), m.min, m.max)
	}
	if !vlib.Close(float64(s.Mean()), m.mean, 1e-5, 3e-6*m.abs) {
		h.Fail(key+"-mean", "%d values: mean %g, want %g", len(d), s.Mean(), m.mean)
	}
	if !vlib.Close(float64(s.StdDev()), m.sd, 1e-4, 1e-5*m.abs) {
		h.Fail(key+"-stddev", "%d values: standard deviation %g, want %g", len(d), s.StdDev(), m.sd)
	}
}

func TestVerifMoments(t *testing.T) {
	h := vlib.New()
	defer h.Done()
	for n := 1; n <= 300; n++ {
		for k := 0; k < 6; k++ {
			d := data(h, n, k)
			h.Case("moments of %d values of kind %d", n, k)
			h.Try("Moments", func() { check(h, "Moments", stats.NewStats(d, int32(n)), d) })
		}
	}
	for i := 0; i < h.N(20); i++ {
		d := data(h, 1000+h.Rng.Intn(100000), h.Rng.Intn(6))
		h.Case("moments of %d values", len(d))
		h.Try("Moments", func() { check(h, "Moments", stats.NewStats(d, int32(len(d))), d) })
		// each value may be asked for first
		for q := 0; q < 4; q++ {
			s, m := stats.NewStats(d, int32(len(d))), ref(d)
			var got, want float64
			switch q {
			case 0:
				got, want = float64(s.Max()), m.max
			case 1:
				got, want = float64(s.Mean()), m.mean
			case 2:
				got, want = float64(s.StdDev()), m.sd
			default:
				got, want = float64(s.Min()), m.min
			}
			if !vlib.Close(got, want, 1e-4, 1e-5*m.abs) {
				h.Fail("Moments-first", "value %d asked for first: %g, want %g", q, got, want)
			}
			check(h, "Moments-first", s, d)
		}
		// channels
		c := h.Rng.Intn(3)
		l := len(d) / 3
		h.Try("Channel", func() { check(h, "Channel", stats.NewStatsForChannel(d, int32(l), c, 3), d[c*l:(c+1)*l]) })
	}
}

func TestVerifNoise(t *testing.T) {
	h := vlib.New()
	defer h.Done()
	for w := 3; w <= 60; w++ {
		for _, ht := range []int{3, 4, 5, 9} {
			k := h.Rng.Intn(6)
			d := data(h, w*ht, k)
			h.Case("noise of %d x %d pixels of kind %d", w, ht, k)
			h.Try("Noise", func() {
				s := stats.NewStats(d, int32(w))
				if g, want := float64(s.Noise()), noise(d, w); !vlib.Close(g, want, 1e-3, 1e-5*ref(d).abs) {
					h.Fail("Noise-value", "%d x %d pixels: noise %g, want %g", w, ht, g, want)
				}
			})
		}
	}
}

// location and scale of every estimator on data with a known location and scale
func TestVerifLocationScale(t *testing.T) {
	h := vlib.New()
	defer h.Done()
	defer func() { stats.LSEstimator = stats.LSESCMedianQn }()
	for i := 0; i < h.N(6); i++ {
		for _, e := range []stats.LSEstimatorMode{stats.LSEMeanStdDev, stats.LSEMedianMAD, stats.LSEIKSS, stats.LSESCMedianQn, stats.LSEHistogram} {
			stats.LSEstimator = e
			n := 20000 + h.Rng.Intn(20000)
			mu, sd := 0.2+0.5*h.Rng.Float64(), 0.01+0.04*h.Rng.Float64()
			d := make([]float32, n)
			for j := range d {
				d[j] = float32(mu + sd*h.Rng.NormFloat64())
			}
			outl := 0
			if e != stats.LSEMeanStdDev && e != stats.LSEHistogram {
				outl = h.Rng.Intn(n / 40) // stars
				for j := 0; j < outl; j++ {
					d[h.Rng.Intn(n)] = 0.9 + 0.1*h.Rng.Float32()
				}
			}
			h.Case("estimator %d on %d normal values around %.3g +- %.3g, %d stars", e, n, mu, sd, outl)
			h.Try("LocScale", func() {
				before := append([]float32{}, d...)
				s := stats.NewStats(d, 100)
				l, sc := float64(s.Location()), float64(s.Scale())
				tl, ts := 0.1*sd, 0.15*sd
				if e == stats.LSEHistogram {
					tl, ts = 0.6*sd, 0.4*sd
				}
				if math.Abs(l-mu) > tl || math.Abs(sc-sd) > ts {
					h.Fail("LocScale-value", "estimator %d on %d normal values, %d stars: location %g scale %g, want %g %g", e, n, outl, l, sc, mu, sd)
				}
				if float64(s.Location()) != l || float64(s.Scale()) != sc {
					h.Fail("LocScale-cached", "estimator %d: location %g scale %g became %g %g", e, l, sc, s.Location(), s.Scale())
				}
				for j := range d {
					if d[j] != before[j] {
						h.Fail("LocScale-data", "estimator %d changed value %d of the data", e, j)
						break
					}
				}
			})
		}
	}
	// constant images, and images with many equal pixels
	for _, e := range []stats.LSEstimatorMode{stats.LSEMeanStdDev, stats.LSEMedianMAD, stats.LSEIKSS, stats.LSESCMedianQn, stats.LSEHistogram} {
		stats.LSEstimator = e
		for k := 0; k < 2; k++ {
			d := make([]float32, 5000)
			for j := range d {
				d[j] = 0.25
				if k == 1 && j%4 == 0 {
					d[j] = 0.2 + 0.1*h.Rng.Float32()
				}
			}
			h.Case("estimator %d, equal pixels, kind %d", e, k)
			done := make(chan [2]float64, 1)
			go func() {
				s := stats.NewStats(d, 50)
				done <- [2]float64{float64(s.Location()), float64(s.Scale())}
			}()
			select {
			case r := <-done:
				if math.Abs(r[0]-0.25) > 0.01 || !(r[1] >= 0) || (k == 0 && r[1] > 1e-3) || r[1] > 0.05 {
					h.Fail("LocScale-equal", "estimator %d, equal pixels, kind %d: location %g scale %g", e, k, r[0], r[1])
				}
			case <-time.After(20 * time.Second):
				h.Fail("LocScale-endless", "estimator %d, equal pixels, kind %d: no result after 20 s", e, k)
				return
			}
		}
	}
}

// cached values follow linear changes of the data, also by negative factors
func TestVerifCached(t *testing.T) {
	h := vlib.New()
	defer h.Done()
	stats.LSEstimator = stats.LSEMeanStdDev
	defer func() { stats.LSEstimator = stats.LSESCMedianQn }()
	for i := 0; i < h.N(60); i++ {
		w, ht := 8+h.Rng.Intn(30), 3+h.Rng.Intn(20)
		d := data(h, w*ht, h.Rng.Intn(2))
		s := stats.NewStats(d, int32(w))
		s.Min()
		s.StdDev()
		s.Location()
		s.Noise()
		m, o := float32(h.Rng.NormFloat64()*2), float32(h.Rng.NormFloat64()*10)
		h.Case("%d values times %g plus %g", len(d), m, o)
		for j := range d {
			d[j] = d[j]*m + o
		}
		s.UpdateCachedWith(m, o)
		r := stats.NewStats(d, int32(w))
		abs := 1e-5 * (ref(d).abs + 1)
		for k, p := range [][2]float32{{s.Min(), r.Min()}, {s.Max(), r.Max()}, {s.Mean(), r.Mean()}, {s.StdDev(), r.StdDev()}, {s.Location(), r.Location()}, {s.Scale(), r.Scale()}, {s.Noise(), r.Noise()}} {
			if !vlib.Close(float64(p[0]), float64(p[1]), 1e-3, abs) {
				h.Fail("Cached-linear", "factor %g offset %g: cached value %d (min, max, mean, standard deviation, location, scale, noise) is %g, of the data it is %g", m, o, k, p[0], p[1])
			}
		}
		// other data
		d2 := data(h, w*ht, 5)
		s.SetData(d2)
		check(h, "Cached-other", s, d2)
		d2[0] += 100000
		s.Clear()
		check(h, "Cached-clear", s, d2)
	}
}

func TestVerifPeak(t *testing.T) {
	h := vlib.New()
	defer h.Done()
	for i := 0; i < h.N(100); i++ {
		n := 2 + h.Rng.Intn(100)
		bins := make([]int32, n)
		at := h.Rng.Intn(n)
		if h.Rng.Intn(4) == 0 {
			at = n - 1
		}
		for j := range bins {
			bins[j] = int32(h.Rng.Intn(1000))
		}
		bins[at] = 2000
		lo := float32(h.Rng.NormFloat64())
		hi := lo + 1 + h.Rng.Float32()*100
		h.Case("peak in bin %d of %d", at, n)
		h.Try("Peak", func() {
			x, y := stats.GetPeak(bins, lo, hi)
			want := float64(lo) + (float64(at)+0.5)*float64(hi-lo)/float64(n-1)
			wy := float64(bins[at]+bins[imin(at+1, n-1)]) / 2
			if !vlib.Close(float64(x), want, 1e-4, 1e-4) || !vlib.Close(float64(y), wy, 1e-6, 0) {
				h.Fail("Peak-value", "peak in bin %d of %d: %g %g, want %g %g", at, n, x, y, want, wy)
			}
			stats.GetPerceptualHistogramPeak(bins, lo, hi)
		})
		// histogram of values counts each once, in its bin
		d := data(h, 1+h.Rng.Intn(500), h.Rng.Intn(3))
		m := ref(d)
		if m.min < m.max {
			hb := make([]int32, n)
			h.Try("Histogram", func() {
				stats.Histogram(d, float32(m.min), float32(m.max), hb)
				total := int32(0)
				for _, c := range hb {
					total += c
				}
				if int(total) != len(d) {
					h.Fail("Histogram-total", "%d values, %d counted", len(d), total)
				}
				if hb[n-1]+hb[n-2] < 1 || hb[0] < 1 {
					h.Fail("Histogram-ends", "the smallest and the largest value are not in the first and last bin")
				}
			})
		}
		// regression line through the mean with least squares
		xs, ys := make([]float32, n), make([]float32, n)
		a, b := h.Rng.NormFloat64(), h.Rng.NormFloat64()
		for j := range xs {
			xs[j] = float32(j)
			ys[j] = float32(a*float64(j) + b)
		}
		sl, ic, _, _, _, _ := stats.LinearRegression(xs, ys)
		if !vlib.Close(float64(sl), a, 1e-2, 1e-3) || !vlib.Close(float64(ic), b, 1e-2, 1e-2*(math.Abs(a)*float64(n)+1)) {
			h.Fail("Regression", "line %g %g through %d points, want %g %g", sl, ic, n, a, b)
		}
	}
}

func imin(a, b int) int {
	if a < b {
		return a
	}
	return b
}
