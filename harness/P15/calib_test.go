package p15

import (
	"fmt"
	"io"
	"math"
	"os"
	"sync"
	"testing"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/internal/zzverif/vlib"
)

func frame(h *vlib.H, w, ht int, kind int) []float32 {
	d := make([]float32, w*ht)
	for i := range d {
		switch kind {
		case 0: // light
			d[i] = float32(500 + h.Rng.Intn(60000))
		case 1: // dark
			d[i] = float32(h.Rng.Intn(1200))
		default: // flat with degenerate pixels
			d[i] = float32(20000 + h.Rng.Intn(30000))
			if h.Rng.Intn(7) == 0 {
				d[i] = []float32{0, -5, -1e-3, 1, 1e-3}[h.Rng.Intn(5)]
			}
		}
	}
	return d
}

func want(l, d, f []float32, k int) float64 {
	v := float64(l[k])
	if d != nil {
		v = float64(float32(v - float64(d[k])))
	}
	if f != nil && f[k] > 0 {
		max := math.Inf(-1)
		for _, x := range f {
			max = math.Max(max, float64(x))
		}
		v = v * max / float64(f[k])
	}
	return v
}

func compare(h *vlib.H, key string, r *fits.Image, l, d, f []float32) {
	if len(r.Data) != len(l) {
		h.Fail(key+"-size", "%d pixels became %d", len(l), len(r.Data))
		return
	}
	for k := range r.Data {
		w := want(l, d, f, k)
		if !vlib.Close(float64(r.Data[k]), w, 1e-5, 1e-5) {
			h.Fail(key+"-value", "pixel %d of %d (row length %d): light %g dark %v flat %v give %g, want %g", k, len(l), r.Naxisn[0], l[k], at(d, k), at(f, k), r.Data[k], w)
			return
		}
	}
	ref := stats.NewStats(r.Data, r.Naxisn[0])
	if r.Stats.Min() != ref.Min() || r.Stats.Max() != ref.Max() || r.Stats.Mean() != ref.Mean() {
		h.Fail(key+"-stats", "statistics min %g max %g mean %g, of the data min %g max %g mean %g", r.Stats.Min(), r.Stats.Max(), r.Stats.Mean(), ref.Min(), ref.Max(), ref.Mean())
	}
}

func at(d []float32, k int) string {
	if d == nil {
		return "none"
	}
	return fmt.Sprint(d[k])
}

func img(w, ht int, d []float32) *fits.Image {
	return fits.NewImageFromNaxisn([]int32{int32(w), int32(ht)}, append([]float32{}, d...))
}

func TestVerifCalibrate(t *testing.T) {
	h := vlib.New()
	defer h.Done()
	if err := os.Chdir(h.Scratch); err != nil { // the program loads from below its working directory only
		t.Fatal(err)
	}
	n := h.N(400)
	for i := 0; i < n; i++ {
		w, ht := 1+h.Rng.Intn(20), 1+h.Rng.Intn(20)
		l, d, f := frame(h, w, ht, 0), frame(h, w, ht, 1), frame(h, w, ht, 2)
		if i&1 == 0 {
			d = nil
		}
		if i&2 == 0 {
			f = nil
		}
		files := i%8 >= 4
		h.Case("calibrate %dx%d dark %v flat %v from files %v", w, ht, d != nil, f != nil, files)
		h.Try("calibrate", func() {
			c := ops.NewContext(io.Discard, 1000, stats.LSESCMedianQn)
			op := pre.NewOpCalibrate("", "")
			if files {
				for _, x := range []struct {
					d    []float32
					name string
					to   *string
				}{{d, "dark.fits", &op.Dark}, {f, "flat.fits", &op.Flat}} {
					if x.d == nil {
						continue
					}
					p := x.name
					if err := img(w, ht, x.d).WriteFile(p); err != nil {
						h.Fail("write", "%v", err)
						return
					}
					*x.to = p
				}
			} else {
				if d != nil {
					c.DarkFrame = img(w, ht, d)
				}
				if f != nil {
					c.FlatFrame = img(w, ht, f)
				}
			}
			// several lights through one operator, at the same time
			const nl = 3
			var rs [nl]*fits.Image
			var errs [nl]error
			var wg sync.WaitGroup
			for k := 0; k < nl; k++ {
				wg.Add(1)
				go func(k int) {
					defer wg.Done()
					li := img(w, ht, l)
					li.Stats.Min()
					rs[k], errs[k] = op.Apply(li, c)
				}(k)
			}
			wg.Wait()
			for k := 0; k < nl; k++ {
				if errs[k] != nil {
					h.Fail("calibrate-error", "%v", errs[k])
					return
				}
				compare(h, "calibrate", rs[k], l, d, f)
			}
			for k, x := range []*fits.Image{c.DarkFrame, c.FlatFrame} {
				src := [][]float32{d, f}[k]
				if src == nil {
					continue
				}
				for j := range src {
					if x == nil || x.Data[j] != src[j] {
						h.Fail("calibrate-frames", "the calibration frame itself changed")
						return
					}
				}
			}
		})
		// other dimensions are refused
		h.Try("mismatch", func() {
			c := ops.NewContext(io.Discard, 1000, stats.LSESCMedianQn)
			w2, ht2 := w+1+h.Rng.Intn(3), ht
			if h.Rng.Intn(2) == 0 {
				w2, ht2 = w, ht+1+h.Rng.Intn(3)
			}
			if h.Rng.Intn(2) == 0 {
				w, ht, w2, ht2 = w2, ht2, w, ht
			}
			o := img(w2, ht2, make([]float32, w2*ht2))
			if i%2 == 0 {
				c.DarkFrame = o
			} else {
				c.FlatFrame = o
			}
			h.Case("light %dx%d with frame %dx%d", w, ht, w2, ht2)
			if _, err := pre.NewOpCalibrate("", "").Apply(img(w, ht, make([]float32, w*ht)), c); err == nil {
				h.Fail("mismatch", "a light of %dx%d was calibrated with a frame of %dx%d", w, ht, w2, ht2)
			}
		})
	}
	h.Case("missing file")
	h.Try("missing", func() {
		c := ops.NewContext(io.Discard, 1000, stats.LSESCMedianQn)
		for _, op := range []*pre.OpCalibrate{pre.NewOpCalibrate("no.fits", ""), pre.NewOpCalibrate("", "no.fits")} {
			for k := 0; k < 2; k++ {
				if _, err := op.Apply(img(2, 2, []float32{1, 2, 3, 4}), c); err == nil {
					h.Fail("missing", "a calibration file which does not exist went unnoticed (light %d)", k)
				}
			}
		}
	})
}
