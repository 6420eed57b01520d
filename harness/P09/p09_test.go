package p09

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"testing"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/zzverif/vlib"
)

func number(hd *fits.Header, k string) (float32, bool) {
	if v, ok := hd.Ints[k]; ok {
		return float32(v), true
	}
	v, ok := hd.Floats[k]
	return v, ok
}

const printable = " !\"#$%()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~"

func TestVerifRoundTrip(t *testing.T) {
	h := vlib.New()
	defer h.Done()
	for it := 0; it < h.N(260); it++ {
		var dims []int32
		switch h.Rng.Intn(5) {
		case 0:
			dims = []int32{int32(1 + h.Rng.Intn(9))}
		case 1:
			dims = []int32{int32(1 + h.Rng.Intn(20)), int32(1 + h.Rng.Intn(20)), 3}
		case 2:
			dims = []int32{4096, 1 + int32(h.Rng.Intn(2))}
		default:
			dims = []int32{int32(1 + h.Rng.Intn(120)), int32(1 + h.Rng.Intn(120))}
		}
		f := fits.NewImageFromNaxisn(dims, nil)
		for i := range f.Data {
			switch h.Rng.Intn(12) {
			case 0:
				f.Data[i] = math.Float32frombits(h.Rng.Uint32())
			case 1:
				f.Data[i] = []float32{0, float32(math.Copysign(0, -1)), vlib.NaN(), float32(math.Inf(1)), float32(math.Inf(-1)), math.MaxFloat32, math.SmallestNonzeroFloat32}[h.Rng.Intn(7)]
			default:
				f.Data[i] = float32(h.Rng.NormFloat64() * 1000)
			}
		}
		want := append([]float32{}, f.Data...)
		if h.Rng.Intn(2) == 0 {
			f.Exposure = []float32{30, 0.5, 1e-5, 1.5e7, 123.456, 3600, 0.00025, 1}[h.Rng.Intn(8)]
		}
		bools, nums, strs := map[string]bool{}, map[string]float32{}, map[string]string{}
		for k := h.Rng.Intn(12); k > 0; k-- {
			key := fmt.Sprintf("K%c-%d_", 'A'+rune(h.Rng.Intn(26)), k)
			switch h.Rng.Intn(4) {
			case 0:
				bools[key] = h.Rng.Intn(2) == 0
				f.Header.Bools[key] = bools[key]
			case 1:
				v := int32(h.Rng.Uint32()) >> uint(h.Rng.Intn(31))
				nums[key] = float32(v)
				f.Header.Ints[key] = v
			case 2:
				v := float32(h.Rng.NormFloat64() * math.Pow(10, float64(h.Rng.Intn(60)-30)))
				if h.Rng.Intn(4) == 0 {
					v = []float32{0, 1, -1, 1e-5, 1e10, 1e20, 1e21, 1e-38, 100000, 16777216, 1e6, 1e-45}[h.Rng.Intn(12)]
				}
				nums[key] = v
				f.Header.Floats[key] = v
			default:
				n := h.Rng.Intn(20)
				if h.Rng.Intn(3) == 0 {
					n = h.Rng.Intn(260)
				}
				b := []byte{}
				for ; n > 0; n-- {
					if h.Rng.Intn(9) == 0 {
						b = append(b, '\'')
					} else {
						b = append(b, printable[h.Rng.Intn(len(printable))])
					}
				}
				if len(b) > 0 && b[len(b)-1] == '&' {
					b = b[:len(b)-1]
				}
				strs[key] = string(b)
				f.Header.Strings[key] = string(b)
			}
		}
		mode := h.Rng.Intn(4)
		h.Case("axes %v, exposure %g, bools %v, numbers %v, strings %q, via %d (seed %d, case %d)", dims, f.Exposure, bools, nums, strs, mode, h.Seed, it)
		g := fits.NewImage()
		exp := f.Exposure
		ok := h.Try("roundtrip", func() {
			switch mode {
			case 0, 1:
				name := filepath.Join(h.Scratch, []string{"x.fits", "x.fits.gz"}[mode])
				if err := f.WriteFile(name); err != nil {
					h.Fail("write", "cannot write: %v", err)
					return
				}
				if err := g.ReadFile(name, true, io.Discard); err != nil {
					h.Fail("readback", "cannot read back: %v", err)
				}
				os.Remove(name)
			default:
				var b bytes.Buffer
				if err := f.Write(&b); err != nil {
					h.Fail("write", "cannot write: %v", err)
					return
				}
				if err := g.Read(&b, true, io.Discard); err != nil {
					h.Fail("readback", "cannot read back: %v", err)
				}
			}
		})
		if !ok || g.Data == nil {
			continue
		}
		if fmt.Sprint(g.Naxisn) != fmt.Sprint(dims) || len(g.Data) != len(want) {
			h.Fail("axes", "axes %v, %d values", g.Naxisn, len(g.Data))
			continue
		}
		for i, v := range want {
			if v != v {
				v = 0
			}
			if math.Float32bits(g.Data[i]) != math.Float32bits(v) && !(v == 0 && g.Data[i] == 0) {
				h.Fail("value", "pixel %d: wrote %x, read %x", i, math.Float32bits(v), math.Float32bits(g.Data[i]))
				break
			}
			if math.Float32bits(f.Data[i]) != math.Float32bits(want[i]) {
				h.Fail("input", "writing changed the image in memory at %d", i)
				break
			}
		}
		if g.Exposure != exp {
			h.Fail("exposure", "exposure %g, want %g", g.Exposure, exp)
		}
		for k, v := range bools {
			if w, ok := g.Header.Bools[k]; !ok || w != v {
				h.Fail("bool", "%s is %v (present %v), want %v", k, w, ok, v)
			}
		}
		for k, v := range nums {
			if w, ok := number(&g.Header, k); !ok || w != v {
				h.Fail("number", "%s is %g (present %v), want %g", k, w, ok, v)
			}
		}
		for k, v := range strs {
			if w, ok := g.Header.Strings[k]; !ok || w != v {
				h.Fail("string", "%s is %q (present %v), want %q", k, w, ok, v)
			}
		}
		if e := len(g.Header.Bools) + len(g.Header.Ints) + len(g.Header.Floats) + len(g.Header.Strings) + len(g.Header.Dates); e > len(bools)+len(nums)+len(strs)+1 {
			h.Fail("extra", "%d header entries read, %d written: %v %v %v %v", e, len(bools)+len(nums)+len(strs), g.Header.Bools, g.Header.Ints, g.Header.Floats, g.Header.Strings)
		}
	}
}
