package p10

import (
	"bytes"
	"compress/gzip"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"testing"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/zzverif/vlib"
)

// check parses b independently of the program under test and verifies the structure of a FITS file.
func check(b []byte, dims []int32, data []float32) error {
	if len(b)%2880 != 0 {
		return fmt.Errorf("file length %d is not a multiple of 2880", len(b))
	}
	seen := map[string]int{}
	end := -1
	var cards []string
	for p := 0; p+80 <= len(b); p += 80 {
		c := string(b[p : p+80])
		for _, x := range []byte(c) {
			if x < 32 || x > 126 {
				return fmt.Errorf("byte %d in header card %q", x, c)
			}
		}
		if c == fmt.Sprintf("%-80s", "END") {
			end = p + 80
			break
		}
		cards = append(cards, c)
		if strings.HasPrefix(c, "CONTINUE  '") {
			continue
		}
		if c[8:10] != "= " {
			return fmt.Errorf("card %q has no value indicator", c)
		}
		k := strings.TrimRight(c[:8], " ")
		seen[k]++
		if seen[k] > 1 {
			return fmt.Errorf("keyword %s appears %d times", k, seen[k])
		}
	}
	if end < 0 {
		return fmt.Errorf("no END card")
	}
	val := func(i int, key string) (string, error) {
		if i >= len(cards) || strings.TrimRight(cards[i][:8], " ") != key {
			return "", fmt.Errorf("card %d is not %s", i, key)
		}
		return strings.TrimSpace(strings.SplitN(cards[i][10:], "/", 2)[0]), nil
	}
	num := func(i int, key string, want int) error {
		v, err := val(i, key)
		if err != nil {
			return err
		}
		if n, err := strconv.Atoi(v); err != nil || n != want || len(strings.TrimRight(cards[i][:30], " ")) != 30 {
			return fmt.Errorf("card %q, want %d right-justified in columns 11 to 30", cards[i], want)
		}
		return nil
	}
	if v, err := val(0, "SIMPLE"); err != nil || v != "T" {
		return fmt.Errorf("first card is not SIMPLE=T: %v", err)
	}
	if err := num(1, "BITPIX", -32); err != nil {
		return err
	}
	if err := num(2, "NAXIS", len(dims)); err != nil {
		return err
	}
	n := 1
	for i, d := range dims {
		if err := num(3+i, fmt.Sprintf("NAXIS%d", i+1), int(d)); err != nil {
			return err
		}
		n *= int(d)
	}
	p := end
	for p%2880 != 0 {
		if b[p] != ' ' {
			return fmt.Errorf("header fill byte %d", b[p])
		}
		p++
	}
	if want := p + (n*4+2879)/2880*2880; len(b) != want {
		return fmt.Errorf("file has %d bytes, want %d", len(b), want)
	}
	for i := 0; i < n; i++ {
		u := uint32(b[p])<<24 | uint32(b[p+1])<<16 | uint32(b[p+2])<<8 | uint32(b[p+3])
		v := data[i]
		if v != v {
			v = 0
		}
		if u != math.Float32bits(v) {
			return fmt.Errorf("pixel %d is stored as %08x, want %08x", i, u, math.Float32bits(v))
		}
		p += 4
	}
	for ; p < len(b); p++ {
		if b[p] != 0 {
			return fmt.Errorf("data fill byte %d", b[p])
		}
	}
	return nil
}

type failing struct {
	left int
	h    *vlib.H
}

func (f *failing) Write(p []byte) (int, error) {
	if len(p) > f.left {
		n := f.left
		f.left = 0
		return n, errors.New("disk full")
	}
	f.left -= len(p)
	return len(p), nil
}

func image(h *vlib.H) (*fits.Image, []int32) {
	var dims []int32
	switch h.Rng.Intn(5) {
	case 0:
		dims = []int32{int32(1 + h.Rng.Intn(800))}
	case 1:
		dims = []int32{720, int32(1 + h.Rng.Intn(3))} // exactly full blocks
	case 2:
		dims = []int32{int32(1 + h.Rng.Intn(30)), int32(1 + h.Rng.Intn(30)), 3}
	case 3:
		dims = []int32{4096, int32(1 + h.Rng.Intn(3))} // exactly the write buffer
	default:
		dims = []int32{int32(1 + h.Rng.Intn(150)), int32(1 + h.Rng.Intn(150))}
	}
	f := fits.NewImageFromNaxisn(dims, nil)
	for i := range f.Data {
		f.Data[i] = float32(h.Rng.NormFloat64() * 100)
		if h.Rng.Intn(40) == 0 {
			f.Data[i] = []float32{0, vlib.NaN(), float32(math.Inf(1)), math.MaxFloat32}[h.Rng.Intn(4)]
		}
	}
	f.Exposure = float32(h.Rng.Intn(3)) * 12.5
	for k := h.Rng.Intn(90); k > 0; k-- {
		key := fmt.Sprintf("KEY%d", k)
		switch h.Rng.Intn(4) {
		case 0:
			f.Header.Bools[key] = true
		case 1:
			f.Header.Ints[key] = int32(h.Rng.Uint32())
		case 2:
			f.Header.Floats[key] = float32(h.Rng.NormFloat64() * math.Pow(10, float64(h.Rng.Intn(60)-30)))
		default:
			f.Header.Strings[key] = strings.Repeat("It's "[:1+h.Rng.Intn(5)], h.Rng.Intn(40))
		}
	}
	return f, dims
}

func TestVerifStructure(t *testing.T) {
	h := vlib.New()
	defer h.Done()
	for it := 0; it < h.N(220); it++ {
		f, dims := image(h)
		h.Case("axes %v, %d strings (seed %d, case %d)", dims, len(f.Header.Strings), h.Seed, it)
		var b bytes.Buffer
		h.Try("write", func() {
			if err := f.Write(&b); err != nil {
				h.Fail("write-error", "%v", err)
			}
		})
		if err := check(b.Bytes(), dims, f.Data); err != nil {
			h.Fail("structure", "%v", err)
		}
		// every point at which the storage may fail is reported
		k := h.Rng.Intn(b.Len())
		if h.Rng.Intn(4) == 0 {
			k = b.Len() - 1
		}
		h.Case("axes %v, writer failing after %d of %d bytes (seed %d, case %d)", dims, k, b.Len(), h.Seed, it)
		h.Try("write-fault", func() {
			if err := f.Write(&failing{left: k}); err == nil {
				h.Fail("fault-ignored", "writing reports success although only %d of %d bytes could be written", k, b.Len())
			}
		})
		// files replace whatever was there before
		name := filepath.Join(h.Scratch, "out.fits")
		gz := h.Rng.Intn(3) == 0
		if gz {
			name += ".gz"
		}
		old := make([]byte, h.Rng.Intn(3*b.Len()))
		for i := range old {
			old[i] = 'Z'
		}
		h.Case("axes %v, overwriting a file of %d bytes, gzip %v (seed %d, case %d)", dims, len(old), gz, h.Seed, it)
		os.WriteFile(name, old, 0644)
		h.Try("writefile", func() {
			if err := f.WriteFile(name); err != nil {
				h.Fail("write-error", "%v", err)
			}
		})
		got, _ := os.ReadFile(name)
		if gz {
			z, err := gzip.NewReader(bytes.NewReader(got))
			if err == nil {
				got, err = io.ReadAll(z)
			}
			if err != nil {
				h.Fail("gzip", "not a complete gzip file: %v", err)
				continue
			}
		}
		if err := check(got, dims, f.Data); err != nil {
			h.Fail("file-structure", "%v", err)
		}
		os.Remove(name)
	}
	// a device without space
	for _, ext := range []string{".fits", ".fits.gz"} {
		link := filepath.Join(h.Scratch, "full"+ext)
		if os.Symlink("/dev/full", link) != nil {
			continue
		}
		f := fits.NewImageFromNaxisn([]int32{10, 10}, nil)
		h.Case("writing 10x10 pixels to a full device as %s", ext)
		h.Try("full", func() {
			if err := f.WriteFile(link); err == nil {
				h.Fail("full-ignored", "writing to a full device reports success")
			}
		})
		os.Remove(link)
	}
}
