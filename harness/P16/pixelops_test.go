package p16

import (
	"io"
	"math"
	"testing"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/hsl"
	"github.com/mlnoga/nightlight/internal/ops/rgb"
	"github.com/mlnoga/nightlight/internal/ops/stretch"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/internal/zzverif/vlib"
)

type px = [3]float64

// an operation: what it does to an image, and what it should do to a pixel (r,g,b or h,s,l; all three alike for mono)
type oper struct {
	name string
	do   func(f *fits.Image)
	want func(p px) px
	kind int // 0 each value alike (any image), 1 three channels, 2 three channels holding HSLuv
	tol  float64
}

func each(f func(v float64) float64) func(p px) px {
	return func(p px) px { return px{f(p[0]), f(p[1]), f(p[2])} }
}

func only(ch int, f func(v float64) float64) func(p px) px {
	return func(p px) px { p[ch] = f(p[ch]); return p }
}

func mtf(v, m float64) float64 { return v * (m - 1) / ((2*m-1)*v - m) }

func midtones(v, m, b float64) float64 {
	lo := mtf(b, m)
	return (math.Min(math.Max(mtf(v, m), lo), 1) - lo) / (1 - lo)
}

func partial(v, from, to, g float64) float64 {
	if v > from && v < to {
		return from + math.Pow((v-from)/(to-from), 1/g)*(to-from)
	}
	return v
}

func inhue(h, from, to float64) bool {
	if from <= to {
		return h > from && h < to
	}
	return h > from || h < to
}

func shift(v, before, after float64) float64 {
	black := (after - before) / (after - 1)
	return math.Max(0, (v-black)/(1-black))
}

func unit(v float64) float64 { return math.Max(0, math.Min(1, v)) }

func operations(h *vlib.H) []oper {
	f := func(lo, hi float64) float64 { return float64(float32(lo + (hi-lo)*h.Rng.Float64())) }
	s, o, g := f(-3, 3), f(-1, 1), f(0.3, 4)
	from := f(0, 0.5)
	to := f(from+0.05, 1)
	mid, black := f(0.02, 0.95), f(0, 0.4)
	ch := h.Rng.Intn(3)
	thr := f(0, 1)
	low := f(0, 0.6)
	high := f(low+0.01, 1)
	hf, ht := f(0, 360), f(0, 360)
	fac := f(0, 3)
	off := f(-100, 100)
	bef := f(0.2, 0.9)
	aft := f(0, bef-0.1)
	a, b, c := f(-0.5, 1.5), f(-0.5, 1.5), f(-0.5, 1.5)
	ax, bx, cx := f(-0.3, 2), f(-0.3, 2), f(-0.3, 2)
	q := func(v float64) float32 { return float32(v) }
	return []oper{
		{"ApplyScaleOffset", func(i *fits.Image) { i.ApplyScaleOffset(q(s), q(o)) }, each(func(v float64) float64 { return v*s + o }), 0, 1e-5},
		{"ApplyScaleOffsetToChannel", func(i *fits.Image) { i.ApplyScaleOffsetToChannel(ch, q(s), q(o)) }, only(ch, func(v float64) float64 { return v*s + o }), 1, 1e-5},
		{"ApplyGamma", func(i *fits.Image) { i.ApplyGamma(q(g)) }, each(func(v float64) float64 { return math.Pow(v, 1/g) }), 0, 1e-4},
		{"ApplyGammaToChannel", func(i *fits.Image) { i.ApplyGammaToChannel(ch, q(g)) }, only(ch, func(v float64) float64 { return math.Pow(v, 1/g) }), 1, 1e-4},
		{"ApplyPartialGamma", func(i *fits.Image) { i.ApplyPartialGamma(q(from), q(to), q(g)) }, each(func(v float64) float64 { return partial(v, from, to, g) }), 0, 3e-3},
		{"ApplyPartialGammaToChannel", func(i *fits.Image) { i.ApplyPartialGammaToChannel(ch, q(from), q(to), q(g)) }, only(ch, func(v float64) float64 { return partial(v, from, to, g) }), 1, 3e-3},
		{"ApplyMidtones", func(i *fits.Image) { i.ApplyMidtones(q(mid), q(black)) }, each(func(v float64) float64 { return midtones(v, mid, black) }), 0, 1e-4},
		{"ApplyMidtonesToChannel", func(i *fits.Image) { i.ApplyMidtonesToChannel(ch, q(mid), q(black)) }, only(ch, func(v float64) float64 { return midtones(v, mid, black) }), 1, 1e-4},
		{"AdjustChroma", func(i *fits.Image) { i.AdjustChroma(q(g), q(thr)) }, func(p px) px {
			if p[2] >= thr {
				p[1] = math.Pow(p[1], 1/g)
			}
			return p
		}, 2, 1e-4},
		{"NeutralizeBackground", func(i *fits.Image) { i.NeutralizeBackground(q(low), q(high)) }, func(p px) px {
			if p[2] < low {
				p[1] = 0
			} else if p[2] < high {
				p[1] *= (p[2] - low) / (high - low)
			}
			return p
		}, 2, 1e-4},
		{"AdjustChromaForHues", func(i *fits.Image) { i.AdjustChromaForHues(q(hf), q(ht), q(fac)) }, func(p px) px {
			if inhue(p[0], hf, ht) {
				p[1] = unit(p[1] * fac)
			}
			return p
		}, 2, 1e-5},
		{"RotateColors", func(i *fits.Image) { i.RotateColors(q(hf), q(ht), q(off), q(thr)) }, func(p px) px {
			if p[2] >= thr && inhue(p[0], hf, ht) {
				p[0] += off
			}
			return p
		}, 2, 1e-3},
		{"OffsetRGB", func(i *fits.Image) { i.OffsetRGB(q(a), q(b), q(c)) }, func(p px) px { return px{p[0] + a, p[1] + b, p[2] + c} }, 1, 1e-5},
		{"ScaleRGB", func(i *fits.Image) { i.ScaleRGB(q(ax), q(bx), q(cx)) }, func(p px) px {
			return px{math.Min(1, p[0]*ax), math.Min(1, p[1]*bx), math.Min(1, p[2]*cx)}
		}, 1, 1e-5},
		{"ScaleOffsetClampRGB", func(i *fits.Image) { i.ScaleOffsetClampRGB(q(ax), q(a), q(bx), q(b), q(cx), q(c)) }, func(p px) px {
			return px{unit(ax*p[0] + a), unit(bx*p[1] + b), unit(cx*p[2] + c)}
		}, 1, 1e-5},
		{"ShiftBlackToMove", func(i *fits.Image) { i.ShiftBlackToMove(q(bef), q(aft)) }, each(func(v float64) float64 { return shift(v, bef, aft) }), 0, 1e-4},
		{"ShiftBlackToMoveChannel", func(i *fits.Image) { i.ShiftBlackToMoveChannel(ch, q(bef), q(aft)) }, only(ch, func(v float64) float64 { return shift(v, bef, aft) }), 1, 1e-4},
		{"RGBToHSLuv and back", func(i *fits.Image) { i.RGBToHSLuv(); i.HSLuvToRGB() }, func(p px) px { return p }, 1, 2e-3},
		{"ToXyy and back", func(i *fits.Image) { i.ToXyy(); i.XyyToRGB() }, func(p px) px { return p }, 1, 2e-3},
		{"SCNR", func(i *fits.Image) { i.RGBToHSLuv(); i.SCNR(0); i.HSLuvToRGB() }, func(p px) px { return p }, 1, 3e-3},
		{"MonoToHSLuvLum", func(i *fits.Image) { i.MonoToHSLuvLum() }, each(lum), 0, 1e-3},
		{"MatchLocation", nil, nil, 0, 1e-3},
		{"MatchHistogram", nil, nil, 0, 1e-3},
	}
}

// lightness of a gray of the given linear value
func lum(v float64) float64 {
	if v <= 216.0/24389 {
		return v * 24389 / 27 / 100
	}
	return 1.16*math.Cbrt(v) - 0.16
}

func image(h *vlib.H, kind int) *fits.Image {
	sizes := []int{1, 2, 3, 7, 31, 64, 65, 255, 256, 257, 513, 1000, 4099}
	w, ht := sizes[h.Rng.Intn(len(sizes))], 1+h.Rng.Intn(3)
	n := w * ht
	planes := 3
	if kind == 0 && h.Rng.Intn(2) == 0 {
		planes = 1
	}
	d := make([]float32, n*planes)
	for i := range d {
		d[i] = float32(0.002 + 0.996*h.Rng.Float64())
		if kind == 2 && i < n {
			d[i] *= 360
		}
		if kind == 0 && h.Rng.Intn(20) == 0 {
			d[i] = float32(h.Rng.Intn(2))
		}
	}
	nax := []int32{int32(w), int32(ht)}
	if planes == 3 {
		nax = append(nax, 3)
	}
	return fits.NewImageFromNaxisn(nax, d)
}

func warm(f *fits.Image) {
	f.Stats.Min()
	f.Stats.Max()
	f.Stats.Mean()
	f.Stats.StdDev()
	if warmed++; warmed%7 == 0 { // location and scale are slow to estimate
		f.Stats.Location()
		f.Stats.Scale()
		f.Stats.Noise()
	}
}

var warmed int

func fresh(h *vlib.H, key string, f *fits.Image) {
	ref := stats.NewStats(f.Data, f.Naxisn[0])
	tol := 1e-4 * (1 + math.Abs(float64(ref.Min())) + math.Abs(float64(ref.Max())))
	type pair struct {
		n    string
		a, b float32
		tol  float64
	}
	span := float64(ref.StdDev())
	for _, p := range []pair{{"min", f.Stats.Min(), ref.Min(), tol}, {"max", f.Stats.Max(), ref.Max(), tol}, {"mean", f.Stats.Mean(), ref.Mean(), 3 * tol},
		{"standard deviation", f.Stats.StdDev(), ref.StdDev(), 3 * tol}} {
		if !vlib.Close(float64(p.a), float64(p.b), 1e-3, p.tol) {
			h.Fail(key+"-stats", "%d pixels: the %s of the image is reported as %g, of the data it is %g", len(f.Data), p.n, p.a, p.b)
			return
		}
	}
	if warmed%7 == 0 && len(f.Data) >= 1000 {
		if a, b := f.Stats.Location(), ref.Location(); !vlib.Close(float64(a), float64(b), 1e-3, 0.3*span+tol) {
			h.Fail(key+"-stats", "%d pixels: the location of the image is reported as %g, of the data it is %g", len(f.Data), a, b)
		}
	}
}

// like compare, leaving out pixels where the outcome hangs on rounding
func compareSkip(h *vlib.H, key string, before []float32, f *fits.Image, want func(p px) px, tol float64, skip func(p px) bool) {
	compare(h, key, before, f, func(p px) px {
		if skip(p) {
			return px{math.NaN(), math.NaN(), math.NaN()}
		}
		return want(p)
	}, tol)
}

func pixel(d []float32, n, i int) px {
	if len(d) == 3*n {
		return px{float64(d[i]), float64(d[i+n]), float64(d[i+2*n])}
	}
	return px{float64(d[i]), float64(d[i]), float64(d[i])}
}

func compare(h *vlib.H, key string, before []float32, f *fits.Image, want func(p px) px, tol float64) {
	n := int(f.Naxisn[0] * f.Naxisn[1])
	if len(f.Data) != len(before) {
		h.Fail(key+"-size", "%d pixels became %d", len(before), len(f.Data))
		return
	}
	for i := 0; i < n; i++ {
		p := pixel(before, n, i)
		w, g := want(p), pixel(f.Data, n, i)
		for c := range w {
			if !math.IsNaN(w[c]) && !vlib.Close(g[c], w[c], tol, tol) {
				h.Fail(key+"-value", "pixel %d of %d (row length %d), channel %d of %d: %v became %v, want %v", i, n, f.Naxisn[0], c, len(before)/n, p, g, w)
				return
			}
		}
	}
}

func TestVerifPixelOperators(t *testing.T) {
	h := vlib.New()
	defer h.Done()
	for it := 0; it < h.N(20); it++ {
		for _, o := range operations(h) {
			f := image(h, o.kind)
			if o.kind == 0 && len(f.Data) < 3 {
				continue
			}
			h.Case("%s on %d pixels of %v", o.name, len(f.Data), f.Naxisn)
			warm(f)
			before := append([]float32{}, f.Data...)
			if o.do == nil {
				if h.Rng.Intn(3) != 0 {
					continue
				}
				loc, sc := float64(f.Stats.Location()), float64(f.Stats.Scale())
				if !(math.Abs(loc) > 1e-3) || !(sc > 1e-3) {
					continue
				}
				if o.name == "MatchLocation" {
					o.do = func(i *fits.Image) { i.MatchLocation(0.25) }
					o.want = each(func(v float64) float64 { return v * 0.25 / loc })
				} else {
					r := image(h, 0)
					rl, rs := float64(r.Stats.Location()), float64(r.Stats.Scale())
					o.do = func(i *fits.Image) { i.MatchHistogram(r.Stats) }
					o.want = each(func(v float64) float64 { return (v-loc)*rs/sc + rl })
				}
			}
			if !h.Try(o.name, func() { o.do(f) }) {
				continue
			}
			compare(h, o.name, before, f, o.want, o.tol)
			fresh(h, o.name, f)
		}
	}
}

// the operators around the pixel functions: what they pass on, and the statistics they leave behind
func TestVerifOperators(t *testing.T) {
	h := vlib.New()
	defer h.Done()
	stats.LSEstimator = stats.LSEMeanStdDev // the other estimators draw random samples
	defer func() { stats.LSEstimator = stats.LSESCMedianQn }()
	for it := 0; it < h.N(40); it++ {
		r := func(lo, hi float64) float64 { return float64(float32(lo + (hi-lo)*h.Rng.Float64())) }
		g, sg, md, bl, loc, fac, off := r(0.4, 3), r(-0.5, 1), r(0.1, 1.5), r(-0.5, 1), r(0.05, 0.6), r(0, 2), r(-60, 60)
		hf, ht := r(0, 360), r(0, 360)
		sl := r(-1, 0.5)
		sh := r(sl+0.1, 2)
		ch := h.Rng.Intn(3)
		s, o := r(-2, 2), r(-0.5, 0.5)
		q := func(v float64) float32 { return float32(v) }
		type opc struct {
			name string
			op   interface {
				Apply(f *fits.Image, c *ops.Context) (*fits.Image, error)
			}
			kind int
			chn  int // channel whose statistics count, -1 for the whole image
			want func(p px, l, sc float64) px
		}
		only2 := func(c int, f func(v, l, sc float64) float64) func(p px, l, sc float64) px {
			return func(p px, l, sc float64) px { p[c] = f(p[c], l, sc); return p }
		}
		all := func(f func(v, l, sc float64) float64) func(p px, l, sc float64) px {
			return func(p px, l, sc float64) px { return px{f(p[0], l, sc), f(p[1], l, sc), f(p[2], l, sc)} }
		}
		gam := func(v, l, sc float64) float64 { return math.Pow(v, 1/g) }
		gpp := func(v, l, sc float64) float64 { return partial(v, l+sg*sc, 1, g) }
		mid := func(v, l, sc float64) float64 { return midtones(v, md*sc, l-bl*sc) }
		blk := func(v, l, sc float64) float64 {
			if l > loc {
				return shift(v, l, loc)
			}
			return v
		}
		list := []opc{
			{"OpGamma", stretch.NewOpGamma(q(g)), 0, -1, all(gam)},
			{"OpGammaPP", stretch.NewOpGammaPP(q(g), q(sg)), 0, -1, all(gpp)},
			{"OpMidtones", stretch.NewOpMidtones(q(md), q(bl)), 0, -1, all(mid)},
			{"OpScaleBlack", stretch.NewOpScaleBlack(q(loc)), 0, -1, all(blk)},
			{"OpHSLGamma", hsl.NewOpHSLGamma(q(g)), 2, 2, only2(2, gam)},
			{"OpHSLGammaPP", hsl.NewOpHSLGammaPP(q(g), q(sg)), 2, 2, only2(2, gpp)},
			{"OpHSLMidtones", hsl.NewOpHSLMidtones(q(md), q(bl)), 2, 2, only2(2, mid)},
			{"OpHSLScaleOffsetChannel", hsl.NewOpHSLScaleOffsetChannel(ch, q(s), q(o)), 2, 2, only2(ch, func(v, l, sc float64) float64 { return v*s + o })},
			{"OpHSLSelectiveSaturation", hsl.NewOpHSLSelectiveSaturation(q(hf), q(ht), q(fac)), 2, 2, func(p px, l, sc float64) px {
				if inhue(p[0], hf, ht) {
					p[1] = unit(p[1] * fac)
				}
				return p
			}},
			{"OpHSLRotateHue", hsl.NewOpHSLRotateHue(q(hf), q(ht), q(off), q(sg)), 2, 2, func(p px, l, sc float64) px {
				if p[2] >= l+sg*sc && inhue(p[0], hf, ht) {
					p[0] += off
				}
				return p
			}},
			{"OpHSLSaturationGamma", hsl.NewOpHSLSaturationGamma(q(g), q(sg)), 2, 2, func(p px, l, sc float64) px {
				if p[2] >= l+sg*sc {
					p[1] = math.Pow(p[1], 1/g)
				}
				return p
			}},
			{"OpHSLNeutralizeBackground", hsl.NewOpHSLNeutralizeBackground(q(sl), q(sh)), 2, 2, func(p px, l, sc float64) px {
				if sl <= 0 && sh <= 0 {
					return p
				}
				a, b := l+sl*sc, l+sh*sc
				if p[2] < a {
					p[1] = 0
				} else if p[2] < b {
					p[1] *= (p[2] - a) / (b - a)
				}
				return p
			}},
		}
		for _, o := range list {
			f := image(h, o.kind)
			if len(f.Data) < 30 {
				continue
			}
			h.Case("%s on %d pixels of %v", o.name, len(f.Data), f.Naxisn)
			c := ops.NewContext(io.Discard, 64, stats.LSESCMedianQn)
			warm(f)
			l, sc := float64(f.Stats.Location()), float64(f.Stats.Scale())
			if o.chn >= 0 {
				st := stats.NewStatsForChannel(f.Data, f.Naxisn[0], o.chn, 3)
				l, sc = float64(st.Location()), float64(st.Scale())
			}
			before := append([]float32{}, f.Data...)
			var out *fits.Image
			var err error
			if !h.Try(o.name, func() { out, err = o.op.Apply(f, c) }) {
				continue
			}
			if err != nil || out == nil {
				h.Fail(o.name+"-error", "%v", err)
				continue
			}
			near := 2e-3
			{
				compareSkip(h, o.name, before, out, func(p px) px { return o.want(p, l, sc) }, near, func(p px) bool {
					return math.Abs(p[2]-(l+sg*sc)) < 1e-4 || math.Abs(p[2]-(l+sl*sc)) < 1e-4
				})
			}
			fresh(h, o.name, out)
		}
		// range normalisation and the iterative stretch keep [0,1]
		for k, op := range []interface {
			Apply(f *fits.Image, c *ops.Context) (*fits.Image, error)
		}{stretch.NewOpNormalizeRange(), stretch.NewOpStretchIterative(q(r(0.02, 0.3)), q(r(0.002, 0.1)))} {
			f := image(h, 0)
			if len(f.Data) < 3 {
				continue
			}
			if k == 0 {
				for i := range f.Data {
					f.Data[i] = f.Data[i]*60000 - 500
				}
				f.Stats.Clear()
			}
			warm(f)
			before := append([]float32{}, f.Data...)
			h.Case("range operator %d on %d pixels", k, len(f.Data))
			var out *fits.Image
			if !h.Try("OpRange", func() { out, _ = op.Apply(f, ops.NewContext(io.Discard, 64, stats.LSESCMedianQn)) }) {
				continue
			}
			lo, hi := stats.NewStats(before, 1).Min(), stats.NewStats(before, 1).Max()
			for i, v := range out.Data {
				if !(v >= -1e-5 && v <= 1+1e-5) {
					h.Fail("OpRange-range", "operator %d: pixel %d of %d: %g became %g", k, i, len(out.Data), before[i], v)
					break
				}
				if w := float64(before[i]-lo) / float64(hi-lo); k == 0 && hi > lo && !vlib.Close(float64(v), w, 1e-4, 1e-4) {
					h.Fail("OpNormalizeRange-value", "pixel %d of %d: %g in [%g,%g] became %g", i, len(out.Data), before[i], lo, hi, v)
					break
				}
			}
			// brighter stays brighter
			for i := 1; i < len(before); i++ {
				if before[i] > before[i-1] && out.Data[i] < out.Data[i-1]-1e-6 {
					h.Fail("OpRange-order", "operator %d: pixels %g and %g became %g and %g", k, before[i-1], before[i], out.Data[i-1], out.Data[i])
					break
				}
			}
			fresh(h, "OpRange", out)
		}
		// colour space operators
		f := image(h, 1)
		before := append([]float32{}, f.Data...)
		warm(f)
		h.Case("RGB to HSLuv and back on %d pixels", len(f.Data))
		c := ops.NewContext(io.Discard, 64, stats.LSESCMedianQn)
		h.Try("OpRGBToHSLuv", func() {
			rgb.NewOpRGBToHSLuv().Apply(f, c)
			n := len(f.Data) / 3
			for i := range f.Data {
				lim := float32(1.0001)
				if i < n {
					lim = 360.001
				}
				if !(f.Data[i] >= -1e-4 && f.Data[i] <= lim) {
					h.Fail("OpRGBToHSLuv-range", "pixel %d channel %d: %g", i%n, i/n, f.Data[i])
					break
				}
			}
			fresh(h, "OpRGBToHSLuv", f)
			rgb.NewOpHSLuvToRGB().Apply(f, c)
			compare(h, "OpHSLuvToRGB", before, f, func(p px) px { return p }, 2e-3)
			fresh(h, "OpHSLuvToRGB", f)
		})
		// a luminance frame replaces the luminance
		f = image(h, 2)
		lumf := fits.NewImageFromNaxisn([]int32{f.Naxisn[0], f.Naxisn[1]}, nil)
		lumf.Data = make([]float32, len(f.Data)/3)
		for i := range lumf.Data {
			lumf.Data[i] = h.Rng.Float32()
		}
		lumf.Stats = stats.NewStats(lumf.Data, lumf.Naxisn[0])
		ld := append([]float32{}, lumf.Data...)
		before = append([]float32{}, f.Data...)
		warm(f)
		h.Case("luminance applied to %d pixels", len(ld))
		c.LumFrame = lumf
		h.Try("OpHSLApplyLum", func() { hsl.NewOpHSLApplyLum().Apply(f, c) })
		n := len(ld)
		for i := range ld {
			if f.Data[i] != before[i] || f.Data[i+n] != before[i+n] || !vlib.Close(float64(f.Data[i+2*n]), lum(float64(ld[i])), 1e-3, 1e-3) {
				h.Fail("OpHSLApplyLum-value", "pixel %d of %d: luminance %g, got %v", i, n, ld[i], pixel(f.Data, n, i))
				break
			}
		}
		fresh(h, "OpHSLApplyLum", f)
	}
}

// green noise reduction: green goes down to the mean of red and blue, luminance and the order of red and blue stay
func TestVerifSCNR(t *testing.T) {
	h := vlib.New()
	defer h.Done()
	for it := 0; it < h.N(20); it++ {
		f := image(h, 1)
		n := len(f.Data) / 3
		// colors where green fades into the mean lie where the library that converts colors has trouble: equal u and v
		before := append([]float32{}, f.Data...)
		h.Case("green noise reduction on %d pixels", n)
		if !h.Try("SCNR", func() { f.RGBToHSLuv() }) {
			continue
		}
		l := append([]float32{}, f.Data[2*n:]...)
		if !h.Try("SCNR", func() { f.SCNR(1) }) {
			continue
		}
		for i := range l {
			if f.Data[2*n+i] != l[i] {
				h.Fail("SCNR-luminance", "pixel %d: luminance %g became %g", i, l[i], f.Data[2*n+i])
				break
			}
		}
		// the color at the old luminance is that of green limited to the mean: compare hue and saturation with a conversion of the limited color
		ref := fits.NewImageFromNaxisn(append([]int32{}, f.Naxisn...), append([]float32{}, before...))
		for i := 0; i < n; i++ {
			m := (before[i] + before[i+2*n]) / 2
			if ref.Data[i+n] > m {
				ref.Data[i+n] = m
			}
		}
		ref.RGBToHSLuv()
		for i := 0; i < n; i++ {
			dh := math.Abs(float64(f.Data[i] - ref.Data[i]))
			dh = math.Min(dh, 360-dh)
			if l[i] < 0.999 && (dh*float64(ref.Data[i+n]) > 1 || math.Abs(float64(f.Data[i+n]-ref.Data[i+n])) > 0.02) {
				h.Fail("SCNR-value", "pixel %d: color %v became hue %g saturation %g, want %g %g", i, pixel(before, n, i), f.Data[i], f.Data[i+n], ref.Data[i], ref.Data[i+n])
				break
			}
		}
	}
}

// black and white point clip about the given percentages
func TestVerifBlackWhite(t *testing.T) {
	h := vlib.New()
	defer h.Done()
	for it := 0; it < h.N(60); it++ {
		n := 5000 + h.Rng.Intn(20000)
		d := make([]float32, n)
		kind := h.Rng.Intn(4)
		for i := range d {
			switch kind {
			case 0:
				d[i] = h.Rng.Float32()
			case 1:
				d[i] = float32(h.Rng.NormFloat64()*0.05 + 0.2)
			case 2:
				d[i] = h.Rng.Float32() * 60000
			default:
				d[i] = 0.5
			}
		}
		b, w := h.Rng.Float32()*20, h.Rng.Float32()*20
		if h.Rng.Intn(5) == 0 {
			b = 0
		}
		if h.Rng.Intn(5) == 0 {
			w = 0
		}
		f := fits.NewImageFromNaxisn([]int32{int32(n), 1}, append([]float32{}, d...))
		warm(f)
		h.Case("clip %.2f%% black and %.2f%% white of %d pixels, distribution %d", b, w, n, kind)
		if !h.Try("SetBlackWhite", func() { f.SetBlackWhite(b, w, nil) }) {
			continue
		}
		if kind == 3 {
			for i, v := range f.Data {
				if v != d[i] {
					h.Fail("SetBlackWhite-constant", "the constant %g became %g", d[i], v)
					break
				}
			}
			continue
		}
		black, white := 0, 0
		for i, v := range f.Data {
			if v <= 0 {
				black++
			}
			if v >= 1 {
				white++
			}
			if !(v >= 0 && v <= 1) {
				h.Fail("SetBlackWhite-range", "pixel %d: %g became %g", i, d[i], v)
				break
			}
		}
		tol := 0.01*float64(n) + 3
		if math.Abs(float64(black)-float64(b)/100*float64(n)) > tol || math.Abs(float64(white)-float64(w)/100*float64(n)) > tol {
			h.Fail("SetBlackWhite-share", "of %d pixels (distribution %d) %d black and %d white, want %.2f%% and %.2f%%", n, kind, black, white, b, w)
		}
		for i := 1; i < n; i++ {
			if d[i] > d[i-1] && f.Data[i] < f.Data[i-1] {
				h.Fail("SetBlackWhite-order", "%g and %g became %g and %g", d[i-1], d[i], f.Data[i-1], f.Data[i])
				break
			}
		}
		fresh(h, "SetBlackWhite", f)
	}
}
