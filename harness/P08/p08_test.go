package p08

import (
	"bytes"
	"compress/gzip"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"testing"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/zzverif/vlib"
)

func card(s string) string { return fmt.Sprintf("%-80s", s) }

// chunky returns data in pieces as io.Reader allows: short reads, empty reads, the end together with data.
type chunky struct {
	b    []byte
	mode int
	h    *vlib.H
	err  error
}

func (c *chunky) Read(p []byte) (int, error) {
	if len(c.b) == 0 {
		return 0, c.err
	}
	n := len(p)
	switch c.mode {
	case 1:
		n = 1
	case 2:
		n = 1 + c.h.Rng.Intn(7)
	case 3:
		n = c.h.Rng.Intn(5000)
	case 4:
		n = c.h.Rng.Intn(3)
	case 5:
		n = len(p) - c.h.Rng.Intn(4)
	}
	if n < 0 {
		n = 0
	}
	if n > len(p) {
		n = len(p)
	}
	if n > len(c.b) {
		n = len(c.b)
	}
	copy(p, c.b[:n])
	c.b = c.b[n:]
	if len(c.b) == 0 && c.mode >= 3 {
		return n, c.err
	}
	return n, nil
}

func close32(a float32, b, scale float64) bool {
	if math.IsNaN(b) {
		return a != a
	}
	if math.IsInf(b, 0) || math.Abs(b) > 3e38 {
		return true
	}
	return math.Abs(float64(a)-b) <= 4e-7*(math.Abs(b)+scale)+1e-38
}

func TestVerifRead(t *testing.T) {
	h := vlib.New()
	defer h.Done()
	bitpixes := []int{8, 16, 32, 64, -32, -64}
	for it := 0; it < h.N(240); it++ {
		bp := bitpixes[it%6]
		var dims []int
		switch h.Rng.Intn(6) {
		case 0:
			dims = []int{1 + h.Rng.Intn(5)}
		case 1:
			dims = []int{1 + h.Rng.Intn(6), 1 + h.Rng.Intn(6)}
		case 2:
			dims = []int{1 + h.Rng.Intn(40), 1 + h.Rng.Intn(40), 3}
		case 3:
			dims = []int{16384, 1}
		default:
			dims = []int{60 + h.Rng.Intn(100), 60 + h.Rng.Intn(100)}
		}
		n := 1
		for _, d := range dims {
			n *= d
		}
		bzero, bscale := 0.0, 1.0
		hdr := card("SIMPLE  =                    T / standard") + card(fmt.Sprintf("BITPIX  = %20d", bp)) + card(fmt.Sprintf("NAXIS   = %20d", len(dims)))
		for i, d := range dims {
			hdr += card(fmt.Sprintf("%-8s= %20d / axis", fmt.Sprintf("NAXIS%d", i+1), d))
		}
		switch h.Rng.Intn(6) {
		case 0:
			bzero = 32768
			hdr += card("BZERO   =                32768 / offset") + card("BSCALE  =                    1")
		case 1:
			bzero, bscale = 2147483648, 1
			hdr += card("BSCALE  =                  1.0 / scale") + card("BZERO   =           2147483648")
		case 2:
			bzero, bscale = -0.25, 2.5
			hdr += card("BZERO   =              -2.5E-1 / offset") + card("BSCALE  =                2.5 / scale")
		case 3:
			bzero, bscale = 1000, 1e-05
			hdr += card("BZERO   =                1.0D3 / offset") + card("BSCALE  =                1E-05 / scale")
		case 4:
			bzero, bscale = 0.5, 0.125
			hdr += card("BZERO   =                  .5 ") + card("BSCALE  =                1.25e-1/scale")
		}
		exp := 0.0
		switch h.Rng.Intn(4) {
		case 0:
			exp = 120
			hdr += card("EXPOSURE=                  120 / seconds")
		case 1:
			exp = 30.5
			hdr += card("EXPTIME =                 30.5 / seconds")
		case 2:
			exp = 60
			hdr += card("EXPTIME =                 99.5 / seconds") + card("EXPOSURE=                 60. / seconds")
		}
		for k := h.Rng.Intn(60); k > 0; k-- {
			hdr += card(fmt.Sprintf("COMMENT filler line %d", k))
		}
		hdr += card("END")
		for len(hdr)%2880 != 0 {
			hdr += " "
		}
		raw := make([]float64, n)
		var data bytes.Buffer
		for i := range raw {
			switch bp {
			case 8:
				v := uint8(h.Rng.Intn(256))
				raw[i] = float64(v)
				data.WriteByte(v)
			case 16:
				v := int16(h.Rng.Intn(65536) - 32768)
				raw[i] = float64(v)
				binary.Write(&data, binary.BigEndian, v)
			case 32:
				v := int32(h.Rng.Uint32())
				raw[i] = float64(v)
				binary.Write(&data, binary.BigEndian, v)
			case 64:
				v := int64(h.Rng.Uint64()) >> uint(h.Rng.Intn(60))
				raw[i] = float64(v)
				binary.Write(&data, binary.BigEndian, v)
			case -32:
				v := float32(h.Rng.NormFloat64() * math.Pow(10, float64(h.Rng.Intn(20)-10)))
				if h.Rng.Intn(50) == 0 {
					v = vlib.NaN()
				}
				raw[i] = float64(v)
				binary.Write(&data, binary.BigEndian, v)
			case -64:
				v := h.Rng.NormFloat64() * math.Pow(10, float64(h.Rng.Intn(20)-10))
				raw[i] = v
				binary.Write(&data, binary.BigEndian, v)
			}
		}
		pad := h.Rng.Intn(2) == 0
		file := append([]byte(hdr), data.Bytes()...)
		for pad && len(file)%2880 != 0 {
			file = append(file, 0)
		}
		mode := h.Rng.Intn(6)
		if n > 3000 && mode == 1 && it%5 != 0 {
			mode = 5
		}
		how := h.Rng.Intn(8)
		h.Case("BITPIX %d, axes %v, BZERO %g, BSCALE %g, exposure %g, reader mode %d, padded %v, via %d (seed %d, case %d)", bp, dims, bzero, bscale, exp, mode, pad, how, h.Seed, it)
		if how == 7 { // a failure in the middle of the data must be reported
			cut := len(hdr) + h.Rng.Intn(data.Len())
			c := &chunky{b: append([]byte{}, file[:cut]...), mode: mode, h: h, err: io.EOF}
			if h.Rng.Intn(2) == 0 {
				c.err = errors.New("disk on fire")
			}
			h.Try("truncated", func() {
				f := fits.NewImage()
				if err := f.Read(c, true, io.Discard); err == nil {
					h.Fail("truncated-accepted", "a file ending (%v) after %d of %d data bytes is read without an error", c.err, cut-len(hdr), data.Len())
				}
			})
			continue
		}
		f := fits.NewImage()
		var err error
		ok := h.Try("read", func() {
			switch how {
			case 0, 1:
				name := filepath.Join(h.Scratch, "a.fits")
				b := file
				if how == 1 {
					name += ".gz"
					var z bytes.Buffer
					g := gzip.NewWriter(&z)
					g.Write(file)
					g.Close()
					b = z.Bytes()
				}
				os.WriteFile(name, b, 0644)
				f, err = fits.NewImageFromFile(name, 1, io.Discard)
				os.Remove(name)
			default:
				c := &chunky{b: append(append([]byte{}, file...), make([]byte, 777)...), mode: mode, h: h, err: io.EOF}
				err = f.Read(c, true, io.Discard)
				if left, rest := len(c.b), len(file)-len(hdr)-data.Len()+777; err == nil && left != rest {
					h.Fail("consumed", "%d bytes behind the data are consumed as well", rest-left)
				}
			}
		})
		if !ok {
			continue
		}
		if err != nil {
			h.Fail("read-error", "a valid file is refused: %v", err)
			continue
		}
		if len(f.Data) != n || int(f.Pixels) != n || len(f.Naxisn) != len(dims) {
			h.Fail("size", "got %d values, %d pixels, axes %v, want %d, axes %v", len(f.Data), f.Pixels, f.Naxisn, n, dims)
			continue
		}
		for i, d := range dims {
			if int(f.Naxisn[i]) != d {
				h.Fail("axes", "got axes %v, want %v", f.Naxisn, dims)
			}
		}
		for i := range raw {
			want := raw[i]*bscale + bzero
			if !close32(f.Data[i], want, math.Abs(raw[i]*bscale)+math.Abs(bzero)) {
				h.Fail("value", "pixel %d: stored %g, got %g, want %g", i, raw[i], f.Data[i], want)
				break
			}
		}
		if f.Bzero != 0 || f.Bscale != 1 {
			h.Fail("rescale", "BZERO %g BSCALE %g remain after being applied", f.Bzero, f.Bscale)
		}
		if math.Abs(float64(f.Exposure)-exp) > 1e-4 {
			h.Fail("exposure", "exposure is %g, want %g", f.Exposure, exp)
		}
		nan := false
		mn, mx, sum := float32(math.MaxFloat32), float32(-math.MaxFloat32), 0.0
		for _, v := range f.Data {
			nan = nan || v != v || math.IsInf(float64(v), 0)
			if v < mn {
				mn = v
			}
			if v > mx {
				mx = v
			}
			sum += float64(v)
		}
		if f.Stats == nil {
			h.Fail("stats", "no statistics after reading")
		} else if !nan {
			if f.Stats.Min() != mn || f.Stats.Max() != mx || !vlib.Close(float64(f.Stats.Mean()), sum/float64(n), 1e-5, 1e-5*math.Max(math.Abs(float64(mn)), math.Abs(float64(mx)))) {
				h.Fail("stats", "statistics min %g max %g mean %g, want %g %g %g", f.Stats.Min(), f.Stats.Max(), f.Stats.Mean(), mn, mx, sum/float64(n))
			}
		}
		// metadata only
		m := fits.NewImage()
		if err := m.Read(&chunky{b: file, mode: mode, h: h, err: io.EOF}, false, io.Discard); err != nil || int(m.Pixels) != n || int(m.Bitpix) != bp || m.Data != nil {
			h.Fail("metadata", "reading metadata only: %v, %d pixels, BITPIX %d, %d values", err, m.Pixels, m.Bitpix, len(m.Data))
		} else if !vlib.Close(float64(m.Bzero), bzero, 1e-6, 0) || !vlib.Close(float64(m.Bscale), bscale, 1e-6, 0) {
			h.Fail("scaling", "BZERO %g BSCALE %g, want %g %g", m.Bzero, m.Bscale, bzero, bscale)
		}
	}
}
