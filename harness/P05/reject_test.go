package p05

import (
	"fmt"
	"io"
	"math"
	"sort"
	"testing"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/stack"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/internal/zzverif/vlib"
)

const (
	mSigma = iota
	mSigmaW
	mMAD
	mWinsor
	mWinsorW
	mLinear
	numModes
)

var names = []string{"sigma", "sigma-weighted", "mad", "winsor", "winsor-weighted", "linearfit"}

func run(mode int, f [][]float32, w []float32, ref, lo, hi float32, res []float32) (cl, ch int32) {
	switch mode {
	case mSigma:
		return stack.StackSigma(f, ref, lo, hi, res)
	case mSigmaW:
		return stack.StackSigmaWeighted(f, w, ref, lo, hi, res)
	case mMAD:
		return stack.StackMADSigma(f, ref, lo, hi, res)
	case mWinsor:
		return stack.StackWinsorSigma(f, ref, lo, hi, res)
	case mWinsorW:
		return stack.StackWinsorSigmaWeighted(f, w, ref, lo, hi, res)
	}
	return stack.StackLinearFit(f, ref, lo, hi, res)
}

type smp struct{ v, w float64 }

func meanStd(s []smp) (m, sd float64) {
	for _, x := range s {
		m += x.v
	}
	m /= float64(len(s))
	for _, x := range s {
		sd += (x.v - m) * (x.v - m)
	}
	return m, math.Sqrt(sd / float64(len(s)))
}
func wmean(s []smp) float64 {
	a, b := 0.0, 0.0
	for _, x := range s {
		a += x.v * x.w
		b += x.w
	}
	return a / b
}
func median(s []smp) float64 {
	v := []float64{}
	for _, x := range s {
		v = append(v, x.v)
	}
	sort.Float64s(v)
	n := len(v)
	if n%2 == 1 {
		return v[n/2]
	}
	return 0.5 * (v[n/2-1] + v[n/2])
}

// reference runs the documented rejection rule in double precision. ok is false where a
// decision is so close to a bound that single precision may decide it differently.
func reference(mode int, in []smp, lo, hi float64) (v float64, cl, ch int, ok bool) {
	s := append([]smp{}, in...)
	scale := 0.0
	for _, x := range s {
		scale = math.Max(scale, math.Abs(x.v))
	}
	margin := 1e-4*scale + 1e-12
	near := func(a, b float64) bool { return math.Abs(a-b) < margin }
	ok = true
	cut := func(l, h float64) (n int) {
		var keep []smp
		for _, x := range s {
			if near(x.v, l) || near(x.v, h) {
				ok = false
			}
			if x.v < l {
				cl++
			} else if x.v > h {
				ch++
			} else {
				keep = append(keep, x)
				continue
			}
			n++
		}
		s = keep
		return
	}
	switch mode {
	case mSigma, mSigmaW, mWinsor, mWinsorW:
		for it := 0; it < 100; it++ {
			med := median(s)
			mean, sd := meanStd(s)
			if mode == mWinsor || mode == mWinsorW {
				w := append([]smp{}, s...)
				for k := 0; k < 1000; k++ {
					changed := 0
					for i := range w {
						l, h := med-1.5*sd, med+1.5*sd
						if near(w[i].v, l) || near(w[i].v, h) {
							if k == 0 {
								ok = false
							}
						}
						if w[i].v < l {
							w[i].v = l
							changed++
						} else if w[i].v > h {
							w[i].v = h
							changed++
						}
					}
					old := sd
					_, sd = meanStd(w)
					sd *= 1.134
					fac := math.Abs(sd-old) / old
					if changed == 0 || fac <= 0.0005 {
						break
					}
				}
				margin = 1e-4*scale + 2e-3*sd*math.Max(lo, hi) + 1e-12
			}
			n := cut(med-lo*sd, med+hi*sd)
			if !ok {
				return
			}
			if n == 0 || len(s) <= 1 {
				v = mean
				if mode == mSigmaW || mode == mWinsorW {
					v = wmean(s)
					if len(s) == 0 {
						v = med
					}
				}
				return
			}
		}
		ok = false
	case mMAD:
		med := median(s)
		ad := []smp{}
		for _, x := range s {
			ad = append(ad, smp{math.Abs(x.v - med), 1})
		}
		sd := median(ad) * 1.4826
		cut(med-lo*sd, med+hi*sd)
		if len(s) == 0 {
			return med, cl, ch, ok
		}
		v, _ = meanStd(s)
	case mLinear:
		for it := 0; it < 100; it++ {
			sort.Slice(s, func(i, j int) bool { return s[i].v < s[j].v })
			n := float64(len(s))
			mx := (n - 1) / 2
			my, _ := meanStd(s)
			sxx, sxy := 0.0, 0.0
			for i, x := range s {
				sxx += (float64(i) - mx) * (float64(i) - mx)
				sxy += (float64(i) - mx) * (x.v - my)
			}
			sl := 0.0
			if sxx > 0 {
				sl = sxy / sxx
			}
			ic := my - sl*mx
			sig := 0.0
			for i, x := range s {
				sig += math.Abs(x.v - ic - sl*float64(i))
			}
			sig /= n
			v = my
			var keep []smp
			for i, x := range s {
				d := x.v - ic - sl*float64(i)
				if near(-d, lo*sig) || near(d, hi*sig) {
					ok = false
				}
				if -d > lo*sig {
					cl++
				} else if d > hi*sig {
					ch++
				} else {
					keep = append(keep, x)
				}
			}
			if !ok || len(keep) == len(s) || len(keep) == 0 || len(s) < 3 {
				return
			}
			s = keep
		}
		ok = false
	}
	return
}

func col(f [][]float32, w []float32, i int) (s []smp) {
	for k := range f {
		if x := float64(f[k][i]); x == x {
			s = append(s, smp{x, float64(w[k])})
		}
	}
	return
}

func TestVerifReject(t *testing.T) {
	h := vlib.New()
	defer h.Done()
	r := h.Rng
	for it := 0; it < h.N(9000); it++ {
		mode := it % numModes
		n, px := 1+r.Intn(32), 1
		if it%7 == 0 {
			px = 2 + r.Intn(6)
		}
		shape := r.Intn(7)
		pNaN := []float64{0, 0, 0.2, 0.8}[r.Intn(4)]
		f := make([][]float32, n)
		w := make([]float32, n)
		eq := r.Intn(3) == 0
		for k := range f {
			f[k] = make([]float32, px)
			w[k] = 0.2 + 5*r.Float32()
			if eq {
				w[k] = 1
			}
		}
		for i := 0; i < px; i++ {
			for k := range f {
				v := 1000 + 30*r.NormFloat64()
				switch shape {
				case 0:
					v = 500
				case 1: // outliers far above
					if r.Intn(8) == 0 {
						v = 1e4 + 100*r.NormFloat64()
					}
				case 2: // outliers far below
					if r.Intn(8) == 0 {
						v = -1e4 + 100*r.NormFloat64()
					}
				case 3: // both
					if q := r.Intn(10); q == 0 {
						v = 20000
					} else if q == 1 {
						v = -20000
					}
				case 4:
					v = float64(r.Intn(3))
				case 5:
					v = r.NormFloat64()
				}
				f[k][i] = float32(v)
				if r.Float64() < pNaN {
					f[k][i] = vlib.NaN()
				}
			}
		}
		lo, hi := []float32{2.75, 2, 1.5, 3, 5, 1e6, 0.7, 0.3}[r.Intn(8)], []float32{2.75, 2, 1.5, 3, 5, 1e6, 0.7, 0.3}[r.Intn(8)]
		ref := float32(777)
		in := make([][]float32, n)
		for k := range f {
			in[k] = append([]float32{}, f[k]...)
		}
		res := make([]float32, px)
		for i := range res {
			res[i] = vlib.NaN()
		}
		h.Case("%s sigmaLow=%g sigmaHigh=%g frames=%v weights=%v", names[mode], lo, hi, f, w)
		var cl, ch int32
		if !h.Try("reject-"+names[mode], func() { cl, ch = run(mode, f, w, ref, lo, hi, res) }) {
			continue
		}
		total, ok := 0, true
		wl, wh := 0, 0
		for i := range res {
			s := col(f, w, i)
			total += len(s)
			if len(s) == 0 {
				if res[i] != ref {
					h.Fail("reject-refloc-"+names[mode], "pixel %d has no valid sample: got %g, want the reference location %g", i, res[i], ref)
				}
				continue
			}
			mn, mx := math.Inf(1), math.Inf(-1)
			for _, x := range s {
				mn, mx = math.Min(mn, x.v), math.Max(mx, x.v)
			}
			tol := 2e-5 * math.Max(math.Abs(mn), math.Abs(mx))
			if g := float64(res[i]); !(g >= mn-tol && g <= mx+tol) {
				h.Fail("reject-range-"+names[mode], "pixel %d: result %g outside the range %g..%g of its valid samples %v", i, g, mn, mx, s)
			}
			v, a, b, sure := reference(mode, s, float64(lo), float64(hi))
			wl, wh = wl+a, wh+b
			if !sure {
				ok = false
				continue
			}
			if g := float64(res[i]); !(math.Abs(g-v) <= tol*5+1e-9) {
				h.Fail("reject-value-"+names[mode], "pixel %d: got %g, want %g (sigma %g/%g, samples and weights %v)", i, g, v, lo, hi, s)
			}
		}
		if cl < 0 || ch < 0 || int(cl)+int(ch) > total {
			h.Fail("reject-counters-"+names[mode], "clip counters %d/%d with %d valid samples", cl, ch, total)
		} else if ok && (int(cl) != wl || int(ch) != wh) {
			h.Fail("reject-counted-"+names[mode], "clip counters low %d high %d, want %d and %d", cl, ch, wl, wh)
		}
		for k := range f {
			for i := range f[k] {
				if math.Float32bits(f[k][i]) != math.Float32bits(in[k][i]) {
					h.Fail("reject-input-"+names[mode], "frame %d pixel %d was changed", k, i)
				}
			}
		}
	}
	// the operator selects the right kernel for every mode and number of frames, on every work package
	for it := 0; it < h.N(150); it++ {
		n := 1 + r.Intn(30)
		wd, ht := 5+r.Intn(30), 5+r.Intn(30)
		var imgs []*fits.Image
		f := make([][]float32, n)
		w := make([]float32, n)
		for k := range f {
			f[k] = make([]float32, wd*ht)
			for i := range f[k] {
				f[k][i] = float32(100 + 10*r.NormFloat64())
				if r.Intn(20) == 0 {
					f[k][i] += 5000
				}
			}
			im := fits.NewImageFromNaxisn([]int32{int32(wd), int32(ht)}, f[k])
			im.Exposure = float32(1 + r.Intn(60))
			w[k] = im.Exposure
			imgs = append(imgs, im)
		}
		modes := map[stack.StackMode]int{stack.StSigma: mSigma, stack.StWinsorSigma: mWinsor, stack.StMADSigma: mMAD, stack.StLinearFit: mLinear}
		op := stack.NewOpStack([]stack.StackMode{stack.StSigma, stack.StWinsorSigma, stack.StMADSigma, stack.StLinearFit, stack.StAuto}[r.Intn(5)], stack.StWeightNone, 2.75, 2.5)
		m, known := modes[op.Mode]
		if !known { // automatic: the documented thresholds 6, 15 and 25
			switch {
			case n >= 25:
				m = mLinear
			case n >= 15:
				m = mWinsor
			case n >= 6:
				m = mSigma
			default:
				continue
			}
		}
		if r.Intn(2) == 0 && (m == mSigma || m == mWinsor) {
			op.Weighting = stack.StWeightExposure
			m++
		}
		h.Case("OpStack mode=%d weighting=%d frames=%d size=%dx%d", op.Mode, op.Weighting, n, wd, ht)
		want := make([]float32, wd*ht)
		run(m, f, w, 0, 2.75, 2.5, want)
		c := ops.NewContext(io.Discard, 1024, stats.LSEMeanStdDev)
		var out *fits.Image
		var err error
		if !h.Try("opstack", func() { out, err = op.Apply(imgs, c) }) {
			continue
		}
		if err != nil || len(out.Data) != len(want) {
			h.Fail("opstack-error", "error %v", err)
			continue
		}
		for i := range want {
			if out.Data[i] != want[i] {
				h.Fail(fmt.Sprintf("opstack-value-%d", op.Mode), "pixel %d: operator %g, kernel on the whole image %g", i, out.Data[i], want[i])
				break
			}
		}
	}
}
