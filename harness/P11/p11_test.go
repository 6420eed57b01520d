package p11

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"io"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"testing"

	"golang.org/x/image/tiff"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/zzverif/vlib"
)

func card(s string) string { return fmt.Sprintf("%-80s", s) }

func pad(s string) []byte {
	for len(s)%2880 != 0 {
		s += " "
	}
	return []byte(s)
}

// verdict reads b and checks that the result is an error or a consistent image.
func verdict(h *vlib.H, b []byte, readData bool) {
	h.Try("read", func() {
		f := fits.NewImage()
		if err := f.Read(bytes.NewReader(b), readData, io.Discard); err != nil {
			return
		}
		n := int64(1)
		for _, a := range f.Naxisn {
			n *= int64(a)
			if a < 0 {
				h.Fail("negative-axis", "accepted with axes %v", f.Naxisn)
			}
		}
		if n != int64(f.Pixels) {
			h.Fail("pixels", "accepted with axes %v and %d pixels", f.Naxisn, f.Pixels)
		}
		if readData && int64(len(f.Data)) != n {
			h.Fail("data", "accepted with axes %v and %d values", f.Naxisn, len(f.Data))
		}
		if readData && (f.Stats == nil || len(f.Data) == 0) {
			h.Fail("empty", "accepted without pixels or statistics")
		}
	})
}

func header(cards ...string) []byte {
	s := ""
	for _, c := range cards {
		s += card(c)
	}
	return pad(s)
}

func TestVerifMalformed(t *testing.T) {
	debug.SetGCPercent(20)
	h := vlib.New()
	defer h.Done()
	// systematic header defects
	naxis := []string{"-1", "0", "1", "2", "3", "1000000000", "2147483647", "2147483648", "-2147483648", "99999999999999999999", "1.5", "'x'", "T", ""}
	axes := []string{"0", "1", "3", "-1", "-3", "4294967297", "65536", "1.0E1", "''", "F"}
	for _, bp := range []string{"8", "16", "32", "64", "-32", "-64", "0", "7", "-16", "128"} {
		for _, n := range naxis {
			for k := 0; k < 12; k++ {
				a, b := axes[h.Rng.Intn(len(axes))], axes[h.Rng.Intn(len(axes))]
				if a == "65536" && b == "65536" && k%2 == 0 {
					b = "32767"
				}
				hd := header("SIMPLE  = T", "BITPIX  = "+bp, "NAXIS   = "+n, "NAXIS1  = "+a, "NAXIS2  = "+b, "NAXIS3  = 2", "END")
				size := 200
				h.Case("BITPIX=%s NAXIS=%s NAXIS1=%s NAXIS2=%s, %d bytes of data", bp, n, a, b, size)
				if (a == "65536" && b != "1" && b != "0" && b != "3") || b == "65536" && a != "1" && a != "0" && a != "3" { // keep memory within bounds
					verdict(h, hd, false)
					continue
				}
				verdict(h, append(hd, make([]byte, size)...), k%3 > 0)
			}
		}
	}
	// missing mandatory cards
	all := []string{"SIMPLE  = T", "BITPIX  = 8", "NAXIS   = 2", "NAXIS1  = 4", "NAXIS2  = 5", "END"}
	for m := 0; m < len(all); m++ {
		c := append([]string{}, all...)
		c = append(c[:m], c[m+1:]...)
		h.Case("header without %q", all[m])
		h.Try("missing", func() {
			f := fits.NewImage()
			if err := f.Read(bytes.NewReader(append(header(c...), make([]byte, 20)...)), true, io.Discard); err == nil {
				h.Fail("missing-accepted", "a header without %q is accepted", all[m])
			}
		})
	}
	// cards which make the file unreadable
	for _, r := range [][2]string{{"0", "SIMPLE  = F"}, {"0", "SIMPLE  = 1"}, {"0", "SIMPLE  = 'T'"}, {"0", "COMMENT SIMPLE  = T"}, {"1", "BITPIX  = 9"}, {"1", "BITPIX  = -8"}, {"1", "BITPIX  = 8.0"}, {"1", "BITPIX  = T"}, {"1", "BITPIX  = '8'"}, {"2", "NAXIS   = 3"}, {"2", "NAXIS   = 0"}, {"2", "NAXIS   = -2"}, {"2", "NAXIS   = 2.0"}, {"3", "NAXIS1  = 0"}, {"3", "NAXIS1  = -4"}, {"4", "NAXIS2  = 'x'"}, {"4", "NAXIS2  = 2.5"}, {"4", "NAXIS2  = 600000000"}} {
		c := append([]string{}, all...)
		c[r[0][0]-'0'] = r[1]
		h.Case("header with %q", r[1])
		h.Try("unreadable", func() {
			f := fits.NewImage()
			if err := f.Read(bytes.NewReader(append(header(c...), make([]byte, 2880)...)), true, io.Discard); err == nil {
				h.Fail("unreadable-accepted", "a header with %q is accepted", r[1])
			}
		})
	}
	// every truncation, and random mutations, of a valid file
	valid := append(header("SIMPLE  =                    T", "BITPIX  =                  -32", "NAXIS   =                    2", "NAXIS1  =                   12", "NAXIS2  =                   11", "BZERO   =                  0.0", "OBJECT  = 'It''s long &'", "CONTINUE  'more'", "HISTORY x", "COMMENT y", "DATE-OBS= 2020-01-01T00:00:00.5", "END"), make([]byte, 12*11*4)...)
	for k := 0; k < len(valid); k += 1 + h.Rng.Intn(40) {
		h.Case("valid file cut after %d bytes", k)
		h.Try("cut", func() {
			f := fits.NewImage()
			if err := f.Read(bytes.NewReader(valid[:k]), true, io.Discard); err == nil {
				h.Fail("cut-accepted", "a file cut after %d of %d bytes is accepted", k, len(valid))
			}
		})
	}
	const soup = "=/'&+-.0123456789EDTF NAXISBTPEMLCOUR\x00\xff\n"
	for it := 0; it < h.N(1500); it++ {
		b := append([]byte{}, valid...)
		var m []string
		for k := 1 + h.Rng.Intn(6); k > 0; k-- {
			p := h.Rng.Intn(960)
			if p >= 160 && p < 400 && p%80 >= 10 { // keep axis sizes small
				continue
			}
			b[p] = soup[h.Rng.Intn(len(soup))]
			m = append(m, fmt.Sprintf("%d:%q", p, b[p]))
		}
		h.Case("valid file with bytes replaced: %s", strings.Join(m, " "))
		verdict(h, b, true)
	}
	// TIFF files of all color models, and damaged ones
	name := filepath.Join(h.Scratch, "a.tif")
	for it := 0; it < h.N(400); it++ {
		w, ht := 1+h.Rng.Intn(9), 1+h.Rng.Intn(9)
		r := image.Rect(0, 0, w, ht)
		var img image.Image
		kind := h.Rng.Intn(7)
		set := func(f func(x, y int, c color.Color)) {
			for y := 0; y < ht; y++ {
				for x := 0; x < w; x++ {
					f(x, y, color.RGBA64{uint16(h.Rng.Intn(65536)), uint16(h.Rng.Intn(65536)), uint16(h.Rng.Intn(65536)), 65535})
				}
			}
		}
		chans := 3
		switch kind {
		case 0:
			m := image.NewGray(r)
			set(func(x, y int, c color.Color) { m.Set(x, y, c) })
			img, chans = m, 1
		case 1:
			m := image.NewGray16(r)
			set(func(x, y int, c color.Color) { m.Set(x, y, c) })
			img, chans = m, 1
		case 2:
			m := image.NewRGBA(r)
			set(func(x, y int, c color.Color) { m.Set(x, y, c) })
			img = m
		case 3:
			m := image.NewRGBA64(r)
			set(func(x, y int, c color.Color) { m.Set(x, y, c) })
			img = m
		case 4:
			m := image.NewNRGBA(r)
			set(func(x, y int, c color.Color) { m.Set(x, y, c) })
			img = m
		case 5:
			m := image.NewNRGBA64(r)
			set(func(x, y int, c color.Color) { m.Set(x, y, c) })
			img = m
		case 6:
			m := image.NewPaletted(r, color.Palette{color.Black, color.White})
			img, chans = m, 0
		}
		var b bytes.Buffer
		if tiff.Encode(&b, img, nil) != nil {
			continue
		}
		raw := b.Bytes()
		damaged := it%2 == 1
		if damaged {
			for k := 1 + h.Rng.Intn(3); k > 0; k-- {
				raw[h.Rng.Intn(len(raw))] = byte(h.Rng.Intn(256))
			}
			if h.Rng.Intn(2) == 0 {
				raw = raw[:h.Rng.Intn(len(raw))]
			}
		}
		h.Case("TIFF of %dx%d pixels, color model %d, damaged %v (seed %d, case %d)", w, ht, kind, damaged, h.Seed, it)
		os.WriteFile(name, raw, 0644)
		h.Try("tiff", func() {
			f, err := fits.NewImageFromFile(name, 0, io.Discard)
			if err != nil {
				if !damaged && chans > 0 {
					h.Fail("tiff-refused", "%v", err)
				}
				return
			}
			n := 1
			for _, a := range f.Naxisn {
				n *= int(a)
			}
			if n != len(f.Data) || n != int(f.Pixels) || n == 0 {
				h.Fail("tiff-size", "axes %v, %d pixels, %d values", f.Naxisn, f.Pixels, len(f.Data))
				return
			}
			if damaged {
				return
			}
			if chans == 0 {
				h.Fail("tiff-palette", "paletted image accepted with axes %v", f.Naxisn)
				return
			}
			for y := 0; y < ht; y++ {
				for x := 0; x < w; x++ {
					c := color.NRGBA64Model.Convert(img.At(x, y)).(color.NRGBA64)
					v := []uint16{c.R, c.G, c.B}
					for k := 0; k < chans; k++ {
						want := float32(v[k])
						if f.Bitpix == 8 {
							want = float32(v[k] >> 8)
						}
						if got := f.Data[k*w*ht+y*w+x]; got != want {
							h.Fail("tiff-value", "channel %d pixel (%d,%d): got %g, want %g", k, x, y, got, want)
							return
						}
					}
				}
			}
		})
	}
	os.Remove(name)
	// garbage files by extension
	for _, ext := range []string{".fits", ".gz", ".tif", ".fits.gz"} {
		for it := 0; it < 30; it++ {
			b := make([]byte, h.Rng.Intn(4000))
			h.Rng.Read(b)
			p := filepath.Join(h.Scratch, "g"+ext)
			os.WriteFile(p, b, 0644)
			h.Case("random %d bytes as %s (seed %d)", len(b), ext, h.Seed)
			h.Try("garbage", func() {
				if _, err := fits.NewImageFromFile(p, 0, io.Discard); err == nil {
					h.Fail("garbage-accepted", "random bytes are accepted")
				}
			})
			os.Remove(p)
		}
	}
}
