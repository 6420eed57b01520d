package p13

import (
	"io"
	"math"
	"testing"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/internal/zzverif/vlib"
)

// colour of the sensor site in row y and column x
func colour(cfa string, y, x int) byte {
	return cfa[(y&1)*2+x&1]
}

var cfas = []string{"RGGB", "GRBG", "GBRG", "BGGR"}

func check(h *vlib.H, key, cfa string, ch byte, data []float32, w int, rs []float32, aw int) {
	ht := len(data) / w
	xo, yo := 0, 0 // where the first red site is
	for i := 0; i < 4; i++ {
		if cfa[i] == 'R' {
			yo, xo = i/2, i%2
		}
	}
	eaw, eah := (w-xo)/2*2, (ht-yo)/2*2
	if aw != eaw || len(rs) != eaw*eah {
		h.Fail(key+"-size", "%s channel %c %dx%d: result width %d, %d pixels, want %dx%d", cfa, ch, w, ht, aw, len(rs), eaw, eah)
		return
	}
	for y := 0; y < eah; y++ {
		for x := 0; x < eaw; x++ {
			sy, sx := y+yo, x+xo
			got := rs[y*aw+x]
			if colour(cfa, sy, sx) == ch {
				if !vlib.Same32(got, data[sy*w+sx]) {
					h.Fail(key+"-site", "%s channel %c %dx%d: pixel (%d,%d) is a site of that colour with %g, result %g", cfa, ch, w, ht, sx, sy, data[sy*w+sx], got)
					return
				}
				continue
			}
			lo, hi, sum, n := math.Inf(1), math.Inf(-1), 0.0, 0
			for dy := -1; dy <= 1; dy++ {
				for dx := -1; dx <= 1; dx++ {
					yy, xx := sy+dy, sx+dx
					if yy < 0 || yy >= ht || xx < 0 || xx >= w || colour(cfa, yy, xx) != ch {
						continue
					}
					v := float64(data[yy*w+xx])
					lo, hi, sum, n = math.Min(lo, v), math.Max(hi, v), sum+v, n+1
				}
			}
			tol := 1e-5 * math.Max(math.Abs(lo), math.Abs(hi))
			if n == 0 || float64(got) < lo-tol || float64(got) > hi+tol || got != got {
				h.Fail(key+"-range", "%s channel %c %dx%d: pixel (%d,%d) is %g, the sites of that colour around it range from %g to %g", cfa, ch, w, ht, sx, sy, got, lo, hi)
				return
			}
			if sx > 0 && sy > 0 && sx < w-1 && sy < ht-1 {
				if math.Abs(float64(got)-sum/float64(n)) > tol {
					h.Fail(key+"-mean", "%s channel %c %dx%d: pixel (%d,%d) is %g, the mean of the %d sites of that colour around it is %g", cfa, ch, w, ht, sx, sy, got, n, sum/float64(n))
					return
				}
			}
		}
	}
}

func TestVerifDebayer(t *testing.T) {
	h := vlib.New()
	defer h.Done()
	c := ops.NewContext(io.Discard, 1000, stats.LSESCMedianQn)
	n := h.N(900)
	for i := 0; i < n; i++ {
		w, ht := 2+h.Rng.Intn(9), 2+h.Rng.Intn(9)
		if i%50 == 7 {
			w, ht = 2+h.Rng.Intn(200), 2+h.Rng.Intn(100)
		}
		cfa := cfas[i&3]
		ch := "RGB"[(i>>2)%3]
		data := make([]float32, w*ht)
		for k := range data {
			switch (i >> 4) % 3 {
			case 0:
				data[k] = float32(h.Rng.Intn(65536))
			case 1:
				data[k] = float32(h.Rng.NormFloat64())
			default:
				data[k] = float32(k)
			}
		}
		orig := append([]float32{}, data...)
		name, arr := string(ch), cfa
		if h.Rng.Intn(2) == 0 {
			name = string(ch + 32)
		}
		if h.Rng.Intn(2) == 0 {
			arr = map[string]string{"RGGB": "rggb", "GRBG": "grbg", "GBRG": "gbrg", "BGGR": "bggr"}[cfa]
		}
		h.Case("DebayerBilinear %s %s %dx%d shape %d", name, arr, w, ht, (i>>4)%3)
		if !h.Try("debayer", func() {
			rs, aw, err := pre.DebayerBilinear(data, int32(w), name, arr)
			if err != nil {
				h.Fail("debayer-error", "%s %s: %v", name, arr, err)
				return
			}
			check(h, "debayer", cfa, ch, data, w, rs, int(aw))
		}) {
			continue
		}
		for k := range data {
			if !vlib.Same32(data[k], orig[k]) {
				h.Fail("debayer-input", "input pixel %d changed", k)
				break
			}
		}
		// the operator
		f := fits.NewImageFromNaxisn([]int32{int32(w), int32(ht)}, append([]float32{}, data...))
		f.Stats.Min()
		f.Stats.StdDev()
		h.Try("operator", func() {
			r, err := pre.NewOpDebayer(name, arr).Apply(f, c)
			small := (w-boolInt(cfa[0] != 'R' && cfa[2] != 'R')) < 2 || (ht-boolInt(cfa[0] != 'R' && cfa[1] != 'R')) < 2
			if small {
				if err == nil {
					h.Fail("operator-small", "%s %dx%d leaves no block, but no error", cfa, w, ht)
				}
				return
			}
			if err != nil {
				h.Fail("operator-error", "%v", err)
				return
			}
			check(h, "operator", cfa, ch, orig, w, r.Data, int(r.Naxisn[0]))
			if int(r.Pixels) != len(r.Data) || int(r.Naxisn[0])*int(r.Naxisn[1]) != len(r.Data) {
				h.Fail("operator-dims", "axes %v, %d pixels, %d values", r.Naxisn, r.Pixels, len(r.Data))
			}
			ref := stats.NewStats(r.Data, r.Naxisn[0])
			if r.Stats.Min() != ref.Min() || r.Stats.Max() != ref.Max() || r.Stats.Mean() != ref.Mean() || !vlib.Same32(r.Stats.StdDev(), ref.StdDev()) {
				h.Fail("operator-stats", "statistics min %g max %g mean %g dev %g, of the data min %g max %g mean %g dev %g", r.Stats.Min(), r.Stats.Max(), r.Stats.Mean(), r.Stats.StdDev(), ref.Min(), ref.Max(), ref.Mean(), ref.StdDev())
			}
		})
	}
	for _, bad := range [][2]string{{"X", "RGGB"}, {"R", "RGBG"}, {"L", "BGGR"}, {"R", "xtrans"}, {"RG", "RGGB"}} {
		h.Case("unknown %v", bad)
		h.Try("unknown", func() {
			f := fits.NewImageFromNaxisn([]int32{4, 4}, make([]float32, 16))
			if _, err := pre.NewOpDebayer(bad[0], bad[1]).Apply(f, c); err == nil {
				h.Fail("unknown", "channel %q of array %q is accepted", bad[0], bad[1])
			}
		})
	}
	for _, none := range [][2]string{{"", "RGGB"}, {"R", ""}} {
		h.Case("off %v", none)
		h.Try("off", func() {
			f := fits.NewImageFromNaxisn([]int32{3, 3}, []float32{1, 2, 3, 4, 5, 6, 7, 8, 9})
			r, err := pre.NewOpDebayer(none[0], none[1]).Apply(f, c)
			if err != nil || len(r.Data) != 9 || r.Naxisn[0] != 3 || r.Data[4] != 5 {
				h.Fail("off", "without channel or array the image must stay as it is")
			}
		})
	}
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}
