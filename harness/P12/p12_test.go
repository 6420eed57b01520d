package p12

import (
	"bytes"
	"errors"
	"image"
	"image/jpeg"
	"math"
	"os"
	"path/filepath"
	"testing"

	"golang.org/x/image/tiff"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/zzverif/vlib"
)

func level(v, min, max, gamma float32) float64 {
	x := float64(v-min) * float64(1.0/(max-min))
	if !(x > 0) {
		x = 0
	}
	if x > 1 {
		x = 1
	}
	return math.Pow(x, 1/float64(gamma))
}

type failing struct{ left int }

func (f *failing) Write(p []byte) (int, error) {
	if len(p) > f.left {
		return 0, errors.New("disk full")
	}
	f.left -= len(p)
	return len(p), nil
}

func random(h *vlib.H, min, max float32) float32 {
	switch h.Rng.Intn(12) {
	case 0:
		return vlib.NaN()
	case 1:
		return min
	case 2:
		return max
	case 3:
		return min - h.Rng.Float32()*1000
	case 4:
		return max + h.Rng.Float32()*1000
	case 5:
		return []float32{float32(math.Inf(1)), float32(math.Inf(-1)), math.MaxFloat32, -math.MaxFloat32}[h.Rng.Intn(4)]
	}
	return min + h.Rng.Float32()*(max-min)
}

func TestVerifExport(t *testing.T) {
	h := vlib.New()
	defer h.Done()
	for it := 0; it < h.N(300); it++ {
		w, ht := 1+h.Rng.Intn(40), 1+h.Rng.Intn(40)
		color := h.Rng.Intn(2) == 0
		ch := 1
		dims := []int32{int32(w), int32(ht)}
		if color {
			ch = 3
			dims = append(dims, 3)
		}
		min := []float32{0, 0, -5, 1000, 0.25}[h.Rng.Intn(5)]
		max := min + []float32{1, 65535, 3.5, 0.001, 1e5}[h.Rng.Intn(5)]
		gamma := []float32{1, 1, 2.2, 0.5, 3, 1.0001}[h.Rng.Intn(6)]
		f := fits.NewImageFromNaxisn(dims, nil)
		for i := range f.Data {
			f.Data[i] = random(h, min, max)
		}
		before := append([]float32{}, f.Data...)
		file := h.Rng.Intn(3) == 0
		h.Case("TIFF of %dx%d pixels, %d channels, range %g to %g, gamma %g, file %v (seed %d, case %d)", w, ht, ch, min, max, gamma, file, h.Seed, it)
		var b bytes.Buffer
		h.Try("tiff", func() {
			var err error
			if file {
				name := filepath.Join(h.Scratch, "o.tif")
				os.WriteFile(name, bytes.Repeat([]byte{'Z'}, h.Rng.Intn(50000)), 0644)
				if color {
					err = f.WriteTIFF16ToFile(name, min, max, gamma)
				} else {
					err = f.WriteMonoTIFF16ToFile(name, min, max, gamma)
				}
				x, _ := os.ReadFile(name)
				b.Write(x)
				os.Remove(name)
			} else if color {
				err = f.WriteTIFF16(&b, min, max, gamma)
			} else {
				err = f.WriteMonoTIFF16(&b, min, max, gamma)
			}
			if err != nil {
				h.Fail("tiff-error", "%v", err)
			}
		})
		img, err := tiff.Decode(bytes.NewReader(b.Bytes()))
		if err != nil {
			h.Fail("tiff-decode", "output does not decode: %v", err)
			continue
		}
		if img.Bounds() != image.Rect(0, 0, w, ht) {
			h.Fail("tiff-size", "output has bounds %v", img.Bounds())
			continue
		}
	pix:
		for y := 0; y < ht; y++ {
			for x := 0; x < w; x++ {
				r, g, bl, a := img.At(x, y).RGBA()
				got := []uint32{r, g, bl}
				if a != 65535 {
					h.Fail("tiff-alpha", "pixel (%d,%d) has alpha %d", x, y, a)
					break pix
				}
				for k := 0; k < 3; k++ {
					v := before[(k%ch)*w*ht+y*w+x]
					want := level(v, min, max, gamma) * 65535
					tol := 1.5 + 65535*3e-6*(1+math.Abs(float64(min))/float64(max-min))
					if v == v && !math.IsInf(float64(v), 0) && (v <= min || v >= max) {
						tol = 0.01
						if v >= max && v < max+(max-min)*1e-4+float32(math.Abs(float64(max)))*1e-5 {
							tol = 1.5
						}
					}
					if math.Abs(float64(got[k])-want) > tol {
						h.Fail("tiff-value", "pixel (%d,%d) channel %d: value %g is stored as %d, want %.1f", x, y, k, v, got[k], want)
						break pix
					}
				}
			}
		}
		for i := range before {
			if math.Float32bits(before[i]) != math.Float32bits(f.Data[i]) {
				h.Fail("input-changed", "exporting changed pixel %d", i)
				break
			}
		}
		// storage failures
		cut := h.Rng.Intn(b.Len())
		h.Case("TIFF of %dx%d pixels, %d channels to a writer failing after %d of %d bytes (seed %d, case %d)", w, ht, ch, cut, b.Len(), h.Seed, it)
		h.Try("tiff-fault", func() {
			if color {
				err = f.WriteTIFF16(&failing{cut}, min, max, gamma)
			} else {
				err = f.WriteMonoTIFF16(&failing{cut}, min, max, gamma)
			}
			if err == nil {
				h.Fail("tiff-fault-ignored", "success reported")
			}
		})
	}
	// JPG: uniform blocks survive compression
	for it := 0; it < h.N(120); it++ {
		bx, by := 1+h.Rng.Intn(3), 1+h.Rng.Intn(3)
		w, ht := 16*bx, 16*by
		color := h.Rng.Intn(2) == 0
		ch := 1
		dims := []int32{int32(w), int32(ht)}
		if color {
			ch = 3
			dims = append(dims, 3)
		}
		min := []float32{0, -5, 1000}[h.Rng.Intn(3)]
		max := min + []float32{1, 65535, 3.5}[h.Rng.Intn(3)]
		gamma := []float32{1, 2.2, 0.5}[h.Rng.Intn(3)]
		f := fits.NewImageFromNaxisn(dims, nil)
		vals := make([]float32, ch*bx*by)
		for i := range vals {
			vals[i] = random(h, min, max)
		}
		for k := 0; k < ch; k++ {
			for y := 0; y < ht; y++ {
				for x := 0; x < w; x++ {
					f.Data[k*w*ht+y*w+x] = vals[k*bx*by+y/16*bx+x/16]
				}
			}
		}
		file := h.Rng.Intn(3) == 0
		h.Case("JPG of %dx%d pixels, %d channels, range %g to %g, gamma %g, blocks %v (seed %d, case %d)", w, ht, ch, min, max, gamma, vals, h.Seed, it)
		var b bytes.Buffer
		h.Try("jpg", func() {
			var err error
			if file {
				name := filepath.Join(h.Scratch, "o.jpg")
				if color {
					err = f.WriteJPGToFile(name, min, max, gamma, 100)
				} else {
					err = f.WriteMonoJPGToFile(name, min, max, gamma, 100)
				}
				x, _ := os.ReadFile(name)
				b.Write(x)
				os.Remove(name)
			} else if color {
				err = f.WriteJPG(&b, min, max, gamma, 100)
			} else {
				err = f.WriteMonoJPG(&b, min, max, gamma, 100)
			}
			if err != nil {
				h.Fail("jpg-error", "%v", err)
			}
		})
		img, err := jpeg.Decode(bytes.NewReader(b.Bytes()))
		if err != nil || img.Bounds() != image.Rect(0, 0, w, ht) {
			h.Fail("jpg-decode", "output does not decode to %dx%d: %v", w, ht, err)
			continue
		}
		for i := 0; i < bx*by; i++ {
			r, g, bl, _ := img.At(i%bx*16+8, i/bx*16+8).RGBA()
			got := []uint32{r >> 8, g >> 8, bl >> 8}
			for k := 0; k < 3; k++ {
				v := vals[(k%ch)*bx*by+i]
				want := level(v, min, max, gamma) * 255
				if math.Abs(float64(got[k])-want) > 6 {
					h.Fail("jpg-value", "block %d channel %d: value %g is shown as %d, want %.1f", i, k, v, got[k], want)
				}
			}
		}
	}
	for _, ext := range []string{"tif", "jpg"} {
		link := filepath.Join(h.Scratch, "full."+ext)
		if os.Symlink("/dev/full", link) != nil {
			continue
		}
		for _, ch := range []int32{1, 3} {
			f := fits.NewImageFromNaxisn([]int32{8, 8, ch}, nil)
			h.Case("writing 8x8 pixels, %d channels, to a full device as %s", ch, ext)
			h.Try("full", func() {
				var err error
				switch {
				case ext == "tif" && ch == 1:
					err = f.WriteMonoTIFF16ToFile(link, 0, 1, 1)
				case ext == "tif":
					err = f.WriteTIFF16ToFile(link, 0, 1, 1)
				case ch == 1:
					err = f.WriteMonoJPGToFile(link, 0, 1, 1, 90)
				default:
					err = f.WriteJPGToFile(link, 0, 1, 1, 90)
				}
				if err == nil {
					h.Fail("full-ignored", "writing to a full device reports success")
				}
			})
		}
		os.Remove(link)
	}
}
