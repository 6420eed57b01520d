package p06

import (
	"fmt"
	"io"
	"testing"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/stack"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/internal/zzverif/vlib"
)

// Pixel k of the stacked frames is 1 in frame k and 0 elsewhere, so that the weighted mean at pixel k
// is the share of frame k in the sum of the weights.
func shares(h *vlib.H, key string, exposures, hfrs []float32, st []*stats.Stats, weighting stack.StackWeighting) ([]float64, error, bool) {
	n := len(exposures)
	w, ht := n, 1
	imgs := make([]*fits.Image, n)
	for k := range imgs {
		d := make([]float32, w*ht)
		d[k] = 1
		imgs[k] = fits.NewImageFromNaxisn([]int32{int32(w), int32(ht)}, d)
		imgs[k].ID = k
		imgs[k].Exposure = exposures[k]
		imgs[k].HFR = hfrs[k]
		if st != nil {
			imgs[k].Stats = st[k]
		}
	}
	var out *fits.Image
	var err error
	op := stack.NewOpStack(stack.StMean, weighting, 2, 2)
	c := ops.NewContext(io.Discard, 1024, stats.LSEMeanStdDev)
	if !h.Try(key, func() { out, err = op.Apply(imgs, c) }) {
		return nil, nil, false
	}
	if err != nil {
		return nil, err, true
	}
	r := make([]float64, n)
	for i := range r {
		r[i] = float64(out.Data[i])
	}
	return r, nil, true
}

// checkShares compares with the reference weights up to a common factor.
func checkShares(h *vlib.H, key string, got []float64, ref []float64) {
	sum := 0.0
	for _, x := range ref {
		sum += x
	}
	for k := range ref {
		if !vlib.Close(got[k], ref[k]/sum, 2e-4, 1e-7) {
			h.Fail(key, "frame %d has share %g, expected %g (weights %v)", k, got[k], ref[k]/sum, ref)
			return
		}
	}
}

// oneToFive is the documented weighting of smaller-is-better measures: best frame 1, worst frame 1/5.
func oneToFive(v []float32) []float64 {
	mn, mx := v[0], v[0]
	for _, x := range v {
		if x < mn {
			mn = x
		}
		if x > mx {
			mx = x
		}
	}
	r := make([]float64, len(v))
	for i, x := range v {
		if mn == mx {
			r[i] = 1
		} else {
			r[i] = 1 / (1 + 4*(float64(x)-float64(mn))/(float64(mx)-float64(mn)))
		}
	}
	return r
}

func TestVerifWeights(t *testing.T) {
	h := vlib.New()
	defer h.Done()
	for it := 0; it < h.N(1500); it++ {
		n := 1 + h.Rng.Intn(12)
		exp, hfr, noise := make([]float32, n), make([]float32, n), make([]float32, n)
		equal := h.Rng.Intn(4) == 0
		for k := range exp {
			exp[k] = float32(1 + h.Rng.Intn(600))
			if h.Rng.Intn(3) == 0 {
				exp[k] = h.Rng.Float32()*100 + 0.01
			}
			hfr[k] = 1 + h.Rng.Float32()*6
			if equal {
				exp[k], hfr[k] = exp[0], hfr[0]
			}
		}
		st := make([]*stats.Stats, n)
		for k := range st {
			w, ht := 16, 16
			d := make([]float32, w*ht)
			amp := 1 + float32(h.Rng.Intn(50))
			seed := h.Rng.Int63()
			if equal {
				amp, seed = 10, 77
			}
			rg := vlib.New().Rng
			rg.Seed(seed)
			for i := range d {
				d[i] = 100 + amp*float32(rg.NormFloat64())
			}
			st[k] = stats.NewStats(d, int32(w))
			noise[k] = st[k].Noise()
			if h.Rng.Intn(2) == 0 {
				st[k] = stats.NewStats(d, int32(w)) // noise not cached yet
			}
		}
		mode := h.Rng.Intn(4)
		fault := ""
		if h.Rng.Intn(5) == 0 {
			switch mode {
			case 1:
				fault = "exposure"
				exp[h.Rng.Intn(n)] = 0
			case 2:
				fault = "stats"
				st[h.Rng.Intn(n)] = nil
			}
		}
		h.Case("weighting=%d frames=%d exposures=%v HFR=%v noise=%v missing=%q", mode, n, exp, hfr, noise, fault)
		key := fmt.Sprintf("weighting%d", mode)
		got, err, ok := shares(h, key, exp, hfr, st, stack.StackWeighting(mode))
		if !ok {
			continue
		}
		if fault != "" {
			if err == nil {
				h.Fail(key+"-missing-"+fault, "no error although %s is missing", fault)
			}
			continue
		}
		if err != nil {
			h.Fail(key+"-error", "unexpected error %v", err)
			continue
		}
		ref := make([]float64, n)
		switch mode {
		case 0:
			for k := range ref {
				ref[k] = 1
			}
		case 1:
			for k := range ref {
				ref[k] = float64(exp[k])
			}
		case 2:
			ref = oneToFive(noise)
		case 3:
			ref = oneToFive(hfr)
		}
		checkShares(h, key+"-share", got, ref)
	}
	// unknown weightings are refused
	for _, m := range []int{-1, 4, 17} {
		h.Case("weighting=%d", m)
		_, err, ok := shares(h, "unknown", []float32{1, 2}, []float32{1, 2}, nil, stack.StackWeighting(m))
		if ok && err == nil {
			h.Fail("unknown-weighting", "weighting %d accepted", m)
		}
	}
}
