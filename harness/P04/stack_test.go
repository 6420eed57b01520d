package p04

import (
	"fmt"
	"io"
	"math"
	"sort"
	"testing"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/stack"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/internal/zzverif/vlib"
)

func draw(h *vlib.H, n, px int) [][]float32 {
	r := h.Rng
	shape := r.Intn(4)
	pNaN := []float64{0, 0.1, 0.5, 0.9}[r.Intn(4)]
	f := make([][]float32, n)
	for k := range f {
		f[k] = make([]float32, px)
		for i := range f[k] {
			switch shape {
			case 0:
				f[k][i] = float32(1000 + 50*r.NormFloat64())
			case 1:
				f[k][i] = float32(r.Intn(4))
			case 2:
				f[k][i] = float32(r.NormFloat64())
			default:
				f[k][i] = float32(r.Intn(65536))
			}
			if r.Float64() < pNaN {
				f[k][i] = vlib.NaN()
			}
		}
	}
	return f
}

// want is the reference: median, mean or weighted mean of the valid samples of pixel i.
func want(f [][]float32, w []float32, mode int, i int, ref float32) (v, mag float64) {
	var s []float64
	sum, ws := 0.0, 0.0
	for k := range f {
		x := float64(f[k][i])
		if x != x {
			continue
		}
		s = append(s, x)
		g := 1.0
		if w != nil {
			g = float64(w[k])
		}
		sum += x * g
		ws += g
		mag = math.Max(mag, math.Abs(x))
	}
	if len(s) == 0 {
		return float64(ref), 0
	}
	if mode == 0 {
		sort.Float64s(s)
		if len(s)%2 == 1 {
			return s[len(s)/2], mag
		}
		return 0.5 * (s[len(s)/2-1] + s[len(s)/2]), mag
	}
	return sum / ws, mag
}

func compare(h *vlib.H, key string, got []float32, f [][]float32, w []float32, mode int, ref float32) {
	for i := range got {
		v, mag := want(f, w, mode, i, ref)
		if !(math.Abs(float64(got[i])-v) <= mag*1e-5*float64(1+len(f)/8)) {
			var col []float32
			for k := range f {
				col = append(col, f[k][i])
			}
			h.Fail(key, "pixel %d: got %g, want %g, samples %v, weights %v, reference location %g", i, got[i], v, col, w, ref)
			return
		}
	}
}

func TestVerifStack(t *testing.T) {
	h := vlib.New()
	defer h.Done()
	for it := 0; it < h.N(1500); it++ {
		n, px := 1+h.Rng.Intn(30), 1+h.Rng.Intn(20)
		f := draw(h, n, px)
		in := make([][]float32, n)
		for k := range f {
			in[k] = append([]float32{}, f[k]...)
		}
		w := make([]float32, n)
		for k := range w {
			w[k] = 0.1 + 10*h.Rng.Float32()
		}
		ref := float32(h.Rng.Intn(3)) * 111
		for mode := 0; mode < 3; mode++ {
			res := make([]float32, px)
			for i := range res {
				res[i] = vlib.NaN()
			}
			h.Case("mode=%d frames=%v weights=%v refLoc=%g", mode, f, w, ref)
			ok := h.Try("stack", func() {
				switch mode {
				case 0:
					stack.StackMedian(f, ref, res)
				case 1:
					stack.StackMean(f, ref, res)
				default:
					stack.StackMeanWeighted(f, w, ref, res)
				}
			})
			if !ok {
				continue
			}
			var ww []float32
			if mode == 2 {
				ww = w
			}
			compare(h, fmt.Sprintf("stack-value-%d", mode), res, f, ww, mode, ref)
			for k := range f {
				for i := range f[k] {
					if math.Float32bits(f[k][i]) != math.Float32bits(in[k][i]) {
						h.Fail("stack-input", "frame %d pixel %d was changed", k, i)
					}
				}
			}
		}
	}
	// the operator: splitting the image among threads must not change any pixel
	for it := 0; it < h.N(250); it++ {
		n := 1 + h.Rng.Intn(5)
		wd, ht := 1+h.Rng.Intn(40), 1+h.Rng.Intn(40)
		if it%25 == 0 {
			wd, ht = 300+h.Rng.Intn(200), 200
		}
		f := draw(h, n, wd*ht)
		var imgs []*fits.Image
		exp := float32(0)
		w := make([]float32, n)
		for k := range f {
			im := fits.NewImageFromNaxisn([]int32{int32(wd), int32(ht)}, append([]float32{}, f[k]...))
			im.Exposure = float32(1 + h.Rng.Intn(600))
			w[k] = im.Exposure
			exp += im.Exposure
			imgs = append(imgs, im)
		}
		mode, weighting := stack.StackMode(h.Rng.Intn(2)), stack.StWeightNone
		var ww []float32
		if mode == stack.StMean && h.Rng.Intn(2) == 0 {
			weighting, ww = stack.StWeightExposure, w
		}
		op := stack.NewOpStack(mode, weighting, 2.75, 2.75)
		op.RefFrameLoc = float32(h.Rng.Intn(100))
		if it%3 == 0 && mode == stack.StMean {
			op.Mode = stack.StAuto // five frames at most: plain mean
		}
		h.Case("OpStack frames=%d size=%dx%d mode=%d weighting=%d refLoc=%g", n, wd, ht, op.Mode, weighting, op.RefFrameLoc)
		c := ops.NewContext(io.Discard, 1024, stats.LSEMeanStdDev)
		var out *fits.Image
		var err error
		if !h.Try("opstack", func() { out, err = op.Apply(imgs, c) }) {
			continue
		}
		if err != nil {
			h.Fail("opstack-error", "unexpected error %v", err)
			continue
		}
		if len(out.Data) != wd*ht || len(out.Naxisn) != 2 || out.Naxisn[0] != int32(wd) || out.Naxisn[1] != int32(ht) {
			h.Fail("opstack-shape", "got %d pixels, axes %v", len(out.Data), out.Naxisn)
			continue
		}
		if !vlib.Close(float64(out.Exposure), float64(exp), 1e-6, 0) {
			h.Fail("opstack-exposure", "got exposure %g, frames sum to %g", out.Exposure, exp)
		}
		compare(h, "opstack-value", out.Data, f, ww, int(mode), op.RefFrameLoc)
	}
}
