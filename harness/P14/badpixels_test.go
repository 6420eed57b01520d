package p14

import (
	"io"
	"math"
	"sort"
	"testing"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/internal/zzverif/vlib"
)

var cfas = []string{"RGGB", "GRBG", "GBRG", "BGGR"}

func med(v []float64) float64 {
	s := append([]float64{}, v...)
	sort.Float64s(s)
	n := len(s)
	if n%2 == 1 {
		return s[n/2]
	}
	return 0.5 * (s[n/2-1] + s[n/2])
}

// image with a smooth background, noise, and some hot and cold pixels, also along the border
func image(h *vlib.H, w, ht int) []float32 {
	d := make([]float32, w*ht)
	noise := []float64{0, 1, 5}[h.Rng.Intn(3)]
	for i := range d {
		d[i] = float32(1000 + float64(i%w) + noise*h.Rng.NormFloat64())
	}
	n := 1 + h.Rng.Intn(1+len(d)/25)
	for k := 0; k < n; k++ {
		i := h.Rng.Intn(len(d))
		if h.Rng.Intn(3) == 0 {
			i = h.Rng.Intn(ht) * w // first column
		} else if h.Rng.Intn(3) == 0 {
			i = h.Rng.Intn(w) // first row
		}
		d[i] = []float32{0, 30000, 65535, -2000, 5000}[h.Rng.Intn(5)]
	}
	return d
}

type verdict struct {
	med  float64
	kind int // 0 keep, 1 replace, 2 undecided by rounding
}

// local medians and verdicts for the sites listed, each with its neighbourhood
func judge(d []float32, sites []int, nb func(i int) []int, lo, hi float64, all []float64) map[int]verdict {
	del := map[int]verdict{}
	var ds []float64
	for _, i := range sites {
		var v []float64
		for _, k := range nb(i) {
			v = append(v, float64(d[k]))
		}
		m := med(v)
		del[i] = verdict{med: m}
		ds = append(ds, float64(d[i])-m)
	}
	ds = append(ds, all...)
	mean, s := 0.0, 0.0
	for _, v := range ds {
		mean += v
	}
	mean /= float64(len(ds))
	for _, v := range ds {
		s += (v - mean) * (v - mean)
	}
	sd := math.Sqrt(s / float64(len(ds)))
	for _, i := range sites {
		v := del[i]
		x := float64(d[i]) - v.med
		tol := 1e-3*(math.Abs(x)+sd) + 1e-3
		switch {
		case x < -lo*sd-tol || x > hi*sd+tol:
			v.kind = 1
		case x < -lo*sd+tol || x > hi*sd-tol:
			v.kind = 2
		}
		del[i] = v
	}
	return del
}

func stale(h *vlib.H, key string, f *fits.Image) {
	ref := stats.NewStats(f.Data, f.Naxisn[0])
	if f.Stats.Min() != ref.Min() || f.Stats.Max() != ref.Max() || f.Stats.Mean() != ref.Mean() || !vlib.Same32(f.Stats.StdDev(), ref.StdDev()) {
		h.Fail(key+"-stats", "statistics min %g max %g mean %g dev %g after removal, of the data min %g max %g mean %g dev %g", f.Stats.Min(), f.Stats.Max(), f.Stats.Mean(), f.Stats.StdDev(), ref.Min(), ref.Max(), ref.Mean(), ref.StdDev())
	}
}

func TestVerifBayer(t *testing.T) {
	h := vlib.New()
	defer h.Done()
	c := ops.NewContext(io.Discard, 1000, stats.LSESCMedianQn)
	n := h.N(1200)
	for i := 0; i < n; i++ {
		w, ht := 3+h.Rng.Intn(12), 3+h.Rng.Intn(12)
		if i%40 == 3 {
			w, ht = 20+h.Rng.Intn(60), 20+h.Rng.Intn(60)
		}
		cfa, ch := cfas[i&3], "RGB"[(i>>2)%3]
		d := image(h, w, ht)
		lo, hi := []float64{1, 2, 3}[h.Rng.Intn(3)], []float64{1.5, 3, 5}[h.Rng.Intn(3)]
		var sites []int
		for k := range d {
			if cfa[((k/w)&1)*2+(k%w)&1] == ch {
				sites = append(sites, k)
			}
		}
		offs := [][2]int{{-2, -2}, {-2, 0}, {-2, 2}, {0, -2}, {0, 0}, {0, 2}, {2, -2}, {2, 0}, {2, 2}}
		if ch == 'G' {
			offs = [][2]int{{-2, 0}, {-1, -1}, {-1, 1}, {0, -2}, {0, 0}, {0, 2}, {1, -1}, {1, 1}, {2, 0}}
		}
		nb := func(k int) (r []int) {
			for _, o := range offs {
				y, x := k/w+o[0], k%w+o[1]
				if y >= 0 && y < ht && x >= 0 && x < w {
					r = append(r, y*w+x)
				}
			}
			return
		}
		ref := judge(d, sites, nb, lo, hi, nil)
		orig := append([]float32{}, d...)
		f := fits.NewImageFromNaxisn([]int32{int32(w), int32(ht)}, d)
		f.Stats.Min()
		f.Stats.StdDev()
		h.Case("bayer %s %c %dx%d sigma %g %g", cfa, ch, w, ht, lo, hi)
		if !h.Try("bayer", func() {
			if i%3 == 0 {
				r, err := pre.NewOpBadPixel(float32(lo), float32(hi), pre.NewOpDebayer(string(ch), cfa)).Apply(f, c)
				if err != nil {
					h.Fail("bayer-error", "%v", err)
					return
				}
				stale(h, "bayer", r)
				return
			}
			nr, err := pre.CosmeticCorrectionBayer(d, int32(w), string(ch), cfa, float32(lo), float32(hi))
			if err != nil {
				h.Fail("bayer-error", "%v", err)
				return
			}
			min, max := 0, 0
			for _, v := range ref {
				if v.kind == 1 {
					min++
				}
				if v.kind >= 1 {
					max++
				}
			}
			if int(nr) < min || int(nr) > max {
				h.Fail("bayer-count", "%s %c %dx%d: %d pixels reported as removed, between %d and %d are outliers", cfa, ch, w, ht, nr, min, max)
			}
		}) {
			continue
		}
		for k := range d {
			v, is := ref[k]
			same := vlib.Same32(d[k], orig[k])
			repl := is && math.Abs(float64(d[k])-v.med) <= 1e-6*math.Abs(v.med)
			if !is && !same {
				h.Fail("bayer-other", "%s %c %dx%d: pixel (%d,%d) of another colour changed from %g to %g", cfa, ch, w, ht, k%w, k/w, orig[k], d[k])
				break
			}
			if is && (v.kind == 0 && !same || v.kind == 1 && !repl || v.kind == 2 && !same && !repl) {
				h.Fail("bayer-verdict", "%s %c %dx%d sigma %g %g: pixel (%d,%d) was %g with local median %g, outlier verdict %d, is now %g", cfa, ch, w, ht, lo, hi, k%w, k/w, orig[k], v.med, v.kind, d[k])
				break
			}
		}
	}
}

func TestVerifMono(t *testing.T) {
	h := vlib.New()
	defer h.Done()
	c := ops.NewContext(io.Discard, 1000, stats.LSESCMedianQn)
	n := h.N(900)
	for i := 0; i < n; i++ {
		w, ht := 3+h.Rng.Intn(20), 3+h.Rng.Intn(12)
		if i%40 == 3 {
			w, ht = 20+h.Rng.Intn(100), 20+h.Rng.Intn(60)
		}
		d := image(h, w, ht)
		lo, hi := []float64{1, 2, 3}[h.Rng.Intn(3)], []float64{1.5, 3, 5}[h.Rng.Intn(3)]
		var sites []int
		for k := range d {
			if k/w > 0 && k/w < ht-1 && k%w > 0 && k%w < w-1 {
				sites = append(sites, k)
			}
		}
		nb := func(k int) []int {
			return []int{k - w - 1, k - w, k - w + 1, k - 1, k, k + 1, k + w - 1, k + w, k + w + 1}
		}
		ref := judge(d, sites, nb, lo, hi, make([]float64, len(d)-len(sites))) // border pixels do not differ from their median
		orig := append([]float32{}, d...)
		h.Case("mono %dx%d sigma %g %g", w, ht, lo, hi)
		h.Try("mono", func() {
			bpm, st := pre.BadPixelMap(append([]float32{}, d...), int32(w), float32(lo), float32(hi))
			bad := map[int]bool{}
			for j, k := range bpm {
				if j > 0 && k <= bpm[j-1] {
					h.Fail("mono-order", "bad pixel %d is listed after %d", k, bpm[j-1])
				}
				bad[int(k)] = true
			}
			for k := range d {
				v := ref[k]
				if v.kind == 0 && bad[k] || v.kind == 1 && !bad[k] {
					h.Fail("mono-map", "%dx%d sigma %g %g: pixel (%d,%d) is %g with local median %g, outlier verdict %d, in the map %v", w, ht, lo, hi, k%w, k/w, d[k], v.med, v.kind, bad[k])
					return
				}
			}
			if st == nil {
				h.Fail("mono-diffstats", "no statistics of the differences")
			}
			want := make([]float64, len(d))
			for k := range d {
				want[k] = float64(d[k])
			}
			for _, k := range bpm { // one after the other, so a pixel repaired before counts with its new value
				var v []float64
				for _, q := range nb(int(k)) {
					v = append(v, want[q])
				}
				want[k] = med(v)
			}
			f := fits.NewImageFromNaxisn([]int32{int32(w), int32(ht)}, d)
			f.Stats.Min()
			f.Stats.StdDev()
			r, err := pre.NewOpBadPixel(float32(lo), float32(hi), nil).Apply(f, c)
			if err != nil {
				h.Fail("mono-error", "%v", err)
				return
			}
			for k := range want {
				if !bad[k] && !vlib.Same32(r.Data[k], orig[k]) {
					h.Fail("mono-other", "%dx%d: good pixel (%d,%d) changed from %g to %g", w, ht, k%w, k/w, orig[k], r.Data[k])
					return
				}
				if float64(r.Data[k]) != want[k] {
					h.Fail("mono-value", "%dx%d: pixel (%d,%d) became %g, the median around it is %g", w, ht, k%w, k/w, r.Data[k], want[k])
					return
				}
			}
			stale(h, "mono", r)
		})
	}
	h.Case("off")
	f := fits.NewImageFromNaxisn([]int32{3, 3}, []float32{1, 1, 1, 1, 900, 1, 1, 1, 1})
	r, err := pre.NewOpBadPixel(0, 0, nil).Apply(f, c)
	if err != nil || r.Data[4] != 900 {
		h.Fail("off", "with sigma 0 the operator must leave the image alone")
	}
}
