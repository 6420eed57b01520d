package p03

import (
	"math"
	"math/rand"
	"sort"
	"testing"

	"github.com/mlnoga/nightlight/internal/median"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/zzverif/vlib"
)

func val(r *rand.Rand, shape int) float32 {
	switch shape {
	case 0:
		return float32(r.NormFloat64())
	case 1:
		return float32(r.Intn(3))
	case 2:
		return float32(r.Intn(2)) * 65535
	case 3:
		return []float32{float32(math.Inf(1)), float32(math.Inf(-1)), math.MaxFloat32, -math.MaxFloat32, 0, 1e-45, -1}[r.Intn(7)]
	default:
		return float32(r.Intn(65536)) - 1000
	}
}

func med(v []float32) float32 {
	s := append([]float32{}, v...)
	sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
	n := len(s)
	if n == 0 {
		return vlib.NaN()
	}
	if n%2 == 1 {
		return s[n/2]
	}
	return 0.5 * (s[n/2-1] + s[n/2])
}

func check3x3(h *vlib.H, w, ht, shape int) {
	n := w * ht
	data := make([]float32, n)
	for i := range data {
		data[i] = val(h.Rng, shape)
	}
	orig := append([]float32{}, data...)
	const guard = 24
	buf := make([]float32, n+2*guard)
	for i := range buf {
		buf[i] = -12345
	}
	out := buf[guard : guard+n]
	show := data
	if len(show) > 60 {
		show = show[:60]
	}
	h.Case("MedianFilter3x3 width=%d height=%d data=%v", w, ht, show)
	if !h.Try("filter3x3", func() { median.MedianFilter3x3(out, data, int32(w)) }) {
		return
	}
	for y := 0; y < ht; y++ {
		for x := 0; x < w; x++ {
			want := orig[y*w+x]
			if x > 0 && y > 0 && x < w-1 && y < ht-1 {
				var v []float32
				for dy := -1; dy <= 1; dy++ {
					v = append(v, orig[(y+dy)*w+x-1], orig[(y+dy)*w+x], orig[(y+dy)*w+x+1])
				}
				want = med(v)
			}
			if got := out[y*w+x]; !(got == want) {
				key := "filter3x3-inner"
				if x == 0 || y == 0 || x == w-1 || y == ht-1 {
					key = "filter3x3-border"
				}
				h.Fail(key, "pixel (%d,%d): got %g, want %g", x, y, got, want)
				return
			}
		}
	}
	for i := range data {
		if data[i] != orig[i] {
			h.Fail("filter3x3-input", "input pixel %d changed", i)
			return
		}
	}
	for i := 0; i < guard; i++ {
		if buf[i] != -12345 || buf[guard+n+i] != -12345 {
			h.Fail("filter3x3-outside", "memory outside the output image was written")
			return
		}
	}
}

func checkMedian(h *vlib.H, v []float32) {
	want := med(v)
	h.Case("MedianFloat32 %v", v)
	var got float32
	if h.Try("median", func() { got = median.MedianFloat32(append([]float32{}, v...)) }) && !vlib.Same32(got, want) {
		h.Fail("median-value", "got %g, want %g", got, want)
	}
}

func checkSparse(h *vlib.H, shape int) {
	r := h.Rng
	w, ht := 3+r.Intn(9), 3+r.Intn(9)
	if r.Intn(6) == 0 {
		w, ht = 1+r.Intn(3), 1+r.Intn(3)
	}
	data := make([]float32, w*ht)
	for i := range data {
		data[i] = val(r, shape)
		if data[i] != data[i] || math.IsInf(float64(data[i]), 0) {
			data[i] = 0
		}
	}
	var mask []int32
	for dy := -1; dy <= 1; dy++ {
		for dx := -1; dx <= 1; dx++ {
			if r.Intn(4) > 0 || dx == 0 && dy == 0 {
				mask = append(mask, int32(dy*w+dx))
			}
		}
	}
	var idx []int32
	for i := range data {
		if r.Intn(3) == 0 {
			idx = append(idx, int32(i))
		}
	}
	gather := func(d []float32, i int32) float32 {
		var v []float32
		for _, m := range mask {
			if k := i + m; k >= 0 && int(k) < len(d) {
				v = append(v, d[k])
			}
		}
		return med(v)
	}
	h.Case("MedianFilterSparse width=%d indices=%v mask=%v data=%v", w, idx, mask, data)
	ref := append([]float32{}, data...)
	for _, i := range idx {
		ref[i] = gather(ref, i)
	}
	got := append([]float32{}, data...)
	if h.Try("sparse", func() { pre.MedianFilterSparse(got, idx, mask) }) {
		for i := range got {
			if got[i] != ref[i] {
				h.Fail("sparse-value", "pixel %d: got %g, want %g", i, got[i], ref[i])
				break
			}
		}
	}
	full := make([]float32, len(data))
	if h.Try("masked", func() { pre.MedianFilter(full, data, mask) }) {
		for i := range full {
			if want := gather(data, int32(i)); full[i] != want {
				h.Fail("masked-value", "pixel %d: got %g, want %g", i, full[i], want)
				break
			}
		}
	}
}

func TestVerifMedian(t *testing.T) {
	h := vlib.New()
	defer h.Done()
	for shape := 0; shape < 5; shape++ {
		for w := 3; w <= 70; w++ {
			check3x3(h, w, 3+w%4, shape)
		}
		for i := 0; i < h.N(150); i++ {
			check3x3(h, 3+h.Rng.Intn(60), 3+h.Rng.Intn(12), shape)
		}
	}
	// every 0-1 pattern of nine values: by the 0-1 principle this settles a comparator network
	for m := 0; m < 512; m++ {
		v := make([]float32, 9)
		for i := range v {
			v[i] = float32(m >> uint(i) & 1)
		}
		checkMedian(h, v)
	}
	for i := 0; i < h.N(4000); i++ {
		v := make([]float32, h.Rng.Intn(26))
		s := h.Rng.Intn(5)
		if s == 3 {
			s = 0
		}
		for k := range v {
			v[k] = val(h.Rng, s)
		}
		checkMedian(h, v)
	}
	for i := 0; i < h.N(1500); i++ {
		checkSparse(h, i%5)
	}
}
