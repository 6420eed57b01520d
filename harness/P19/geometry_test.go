package p19

import (
	"io"
	"math"
	"testing"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/post"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/internal/zzverif/vlib"
)

// rotation, scale, mirroring and shift
func random(h *vlib.H, size float64) star.Transform2D {
	a, s := 2*math.Pi*h.Rng.Float64(), 0.7+0.6*h.Rng.Float64()
	c, n := s*math.Cos(a), s*math.Sin(a)
	m := 1.0
	if h.Rng.Intn(3) == 0 {
		m = -1
	}
	cx, cy := size/2, size/2
	dx, dy := size*0.3*(h.Rng.Float64()-0.5), size*0.3*(h.Rng.Float64()-0.5)
	return star.Transform2D{A: float32(c), B: float32(-n * m), C: float32(cx - c*cx + n*m*cy + dx), D: float32(n), E: float32(c * m), F: float32(cy - n*cx - c*m*cy + dy)}
}

func apply(t star.Transform2D, x, y float64) (float64, float64) {
	return float64(t.A)*x + float64(t.B)*y + float64(t.C), float64(t.D)*x + float64(t.E)*y + float64(t.F)
}

func TestVerifTransform(t *testing.T) {
	h := vlib.New()
	defer h.Done()
	for i := 0; i < h.N(400); i++ {
		tr := random(h, 100)
		h.Case("transformation %v", tr)
		h.Try("Transform", func() {
			inv, err := tr.Invert()
			if err != nil {
				h.Fail("Invert-refused", "%v: %v", tr, err)
				return
			}
			ps := make([]star.Point2D, 1+h.Rng.Intn(5))
			for j := range ps {
				ps[j] = star.Point2D{X: 200 * (h.Rng.Float32() - 0.5), Y: 200 * (h.Rng.Float32() - 0.5)}
			}
			qs := tr.ApplySlice(ps)
			if len(qs) != len(ps) {
				h.Fail("ApplySlice-length", "%d points for %d", len(qs), len(ps))
				return
			}
			for j, p := range ps {
				x, y := apply(tr, float64(p.X), float64(p.Y))
				if math.Abs(float64(qs[j].X)-x) > 1e-3 || math.Abs(float64(qs[j].Y)-y) > 1e-3 || tr.Apply(p) != qs[j] {
					h.Fail("Apply-value", "%v of %v is %v, want (%g, %g)", tr, p, qs[j], x, y)
					return
				}
				r := inv.Apply(qs[j])
				if math.Abs(float64(r.X-p.X)) > 0.01 || math.Abs(float64(r.Y-p.Y)) > 0.01 {
					h.Fail("Invert-value", "%v: %v returns as %v", tr, p, r)
					return
				}
			}
			p := [3]star.Point2D{}
			for {
				for j := range p {
					p[j] = star.Point2D{X: 100 * h.Rng.Float32(), Y: 100 * h.Rng.Float32()}
				}
				ar := (p[1].X-p[0].X)*(p[2].Y-p[0].Y) - (p[2].X-p[0].X)*(p[1].Y-p[0].Y)
				if (ar > 500 || ar < -500) && math.Abs(float64(p[1].Y-p[0].Y)) > 5 {
					break
				}
			}
			q := [3]star.Point2D{tr.Apply(p[0]), tr.Apply(p[1]), tr.Apply(p[2])}
			nt, err := star.NewTransform2D(p[0], p[1], p[2], q[0], q[1], q[2])
			if err != nil {
				h.Fail("Three-refused", "%v -> %v: %v", p, q, err)
				return
			}
			for j := range p {
				r := nt.Apply(p[j])
				if math.Abs(float64(r.X-q[j].X)) > 0.1 || math.Abs(float64(r.Y-q[j].Y)) > 0.1 {
					h.Fail("Three-value", "%v -> %v: point %d is mapped to %v", p, q, j, r)
					return
				}
			}
		})
		if i%10 == 0 {
			f := h.Rng.Float32()
			s := star.Transform2D{A: 1, B: f, D: 2, E: 2 * f}
			if _, err := s.Invert(); err == nil {
				h.Fail("Invert-singular", "%v has been inverted", s)
			}
		}
	}
}

// image whose channels are planes, which interpolation keeps
func ramp(h *vlib.H, w, ht, ch int) (f *fits.Image, co [][3]float64) {
	n := []int32{int32(w), int32(ht)}
	if ch > 1 {
		n = append(n, int32(ch))
	}
	f = fits.NewImageFromNaxisn(n, nil)
	co = make([][3]float64, ch)
	for c := range co {
		co[c] = [3]float64{h.Rng.Float64() - 0.5, h.Rng.Float64() - 0.5, 100 + 10*h.Rng.Float64()}
		for j := 0; j < w*ht; j++ {
			f.Data[c*w*ht+j] = float32(co[c][0]*float64(j%w) + co[c][1]*float64(j/w) + co[c][2])
		}
	}
	return f, co
}

func TestVerifProject(t *testing.T) {
	h := vlib.New()
	defer h.Done()
	for i := 0; i < h.N(200); i++ {
		w, ht, ch := 1+h.Rng.Intn(40), 1+h.Rng.Intn(40), 1
		if h.Rng.Intn(3) == 0 {
			ch = 3
		}
		dw, dh := 1+h.Rng.Intn(40), 1+h.Rng.Intn(40)
		tr := random(h, 30)
		h.Case("projection of %d x %d x %d to %d x %d with %v", w, ht, ch, dw, dh, tr)
		h.Try("Project", func() {
			f, co := ramp(h, w, ht, ch)
			f.ID, f.Exposure = 7, 12
			before := append([]float32{}, f.Data...)
			dn := []int32{int32(dw), int32(dh)}
			if ch > 1 {
				dn = append(dn, int32(ch))
			}
			g, err := f.Project(dn, tr, -1000)
			if err != nil {
				h.Fail("Project-error", "%v: %v", tr, err)
				return
			}
			if g.Naxisn[0] != dn[0] || g.Naxisn[1] != dn[1] || len(g.Data) != dw*dh*ch || int(g.Pixels) != dw*dh*ch || g.ID != 7 || g.Exposure != 12 {
				h.Fail("Project-size", "result %v %d values, id %d, exposure %g", g.Naxisn, len(g.Data), g.ID, g.Exposure)
				return
			}
			for j := range before {
				if before[j] != f.Data[j] {
					h.Fail("Project-input", "the projected image changed")
					return
				}
			}
			det := float64(tr.A)*float64(tr.E) - float64(tr.B)*float64(tr.D)
			for c := 0; c < ch; c++ {
				for j := 0; j < dw*dh; j++ {
					x, y := float64(j%dw)-float64(tr.C), float64(j/dw)-float64(tr.F)
					sx, sy := (float64(tr.E)*x-float64(tr.B)*y)/det, (float64(tr.A)*y-float64(tr.D)*x)/det
					v := float64(g.Data[c*dw*dh+j])
					const e = 0.01
					if sx < -e || sy < -e || sx > float64(w-1)+e || sy > float64(ht-1)+e {
						if v != -1000 {
							h.Fail("Project-outside", "%d x %d: pixel %d,%d from (%g, %g) is %g", w, ht, j%dw, j/dw, sx, sy, v)
							return
						}
					} else if sx > e && sy > e && sx < float64(w-1)-e && sy < float64(ht-1)-e {
						if want := co[c][0]*sx + co[c][1]*sy + co[c][2]; math.Abs(v-want) > 0.02 {
							h.Fail("Project-value", "%d x %d x %d: channel %d pixel %d,%d from (%g, %g) is %g, want %g", w, ht, ch, c, j%dw, j/dw, sx, sy, v, want)
							return
						}
					}
				}
			}
			// whole shifts move the values exactly
			sx, sy := h.Rng.Intn(7)-3, h.Rng.Intn(7)-3
			for j := range f.Data {
				f.Data[j] = h.Rng.Float32()
			}
			g, err = f.Project(dn, star.Transform2D{A: 1, C: float32(sx), E: 1, F: float32(sy)}, -1)
			if err != nil {
				h.Fail("Shift-error", "%v", err)
				return
			}
			for j := range g.Data {
				x, y, c := j%dw-sx, j/dw%dh-sy, j/(dw*dh)
				if x >= 0 && y >= 0 && x < w-1 && y < ht-1 && g.Data[j] != f.Data[c*w*ht+y*w+x] {
					h.Fail("Shift-value", "shift by %d,%d: value %d is %g, want %g", sx, sy, j, g.Data[j], f.Data[c*w*ht+y*w+x])
					return
				}
			}
		})
	}
}

func TestVerifBin(t *testing.T) {
	h := vlib.New()
	defer h.Done()
	for i := 0; i < h.N(200); i++ {
		n := 2 + h.Rng.Intn(5)
		w, ht, ch := n+h.Rng.Intn(20), n+h.Rng.Intn(20), 1
		if h.Rng.Intn(3) == 0 {
			ch = 3
		}
		h.Case("binning of %d x %d x %d by %d", w, ht, ch, n)
		h.Try("Bin", func() {
			f, _ := ramp(h, w, ht, ch)
			for j := range f.Data {
				f.Data[j] = h.Rng.Float32()
			}
			op := pre.NewOpBin(int32(n))
			g, err := op.Apply(f, &ops.Context{Log: io.Discard})
			if err != nil {
				h.Fail("Bin-error", "%v", err)
				return
			}
			bw, bh := w/n, ht/n
			if int(g.Naxisn[0]) != bw || int(g.Naxisn[1]) != bh || len(g.Data) != bw*bh*ch || len(g.Naxisn) != len(f.Naxisn) {
				h.Fail("Bin-size", "%v by %d: %v, %d values", f.Naxisn, n, g.Naxisn, len(g.Data))
				return
			}
			lo := float32(2)
			for j := range g.Data {
				x, y, c, sum := j%bw, j/bw%bh, j/(bw*bh), 0.0
				for k := 0; k < n*n; k++ {
					sum += float64(f.Data[c*w*ht+(y*n+k/n)*w+x*n+k%n])
				}
				if !vlib.Close(float64(g.Data[j]), sum/float64(n*n), 1e-5, 1e-6) {
					h.Fail("Bin-value", "%d x %d x %d by %d: value %d is %g, want %g", w, ht, ch, n, j, g.Data[j], sum/float64(n*n))
					return
				}
				if g.Data[j] < lo {
					lo = g.Data[j]
				}
			}
			if g.Stats.Min() != lo {
				h.Fail("Bin-stats", "minimum %g, want %g", g.Stats.Min(), lo)
			}
		})
	}
}

func TestVerifNearest(t *testing.T) {
	h := vlib.New()
	defer h.Done()
	for i := 0; i < h.N(300); i++ {
		n, m := 1+h.Rng.Intn(60), 5+h.Rng.Intn(40)
		h.Case("nearest of %d points", n)
		h.Try("Nearest", func() {
			var t2 star.KDTree2 = make([]star.Point2D, n)
			var t3 star.KDTree3P = make([]star.Point3DPayload, n)
			grid := h.Rng.Intn(2) == 0 // equal coordinates
			co := func() float32 {
				if grid {
					return float32(h.Rng.Intn(6))
				}
				return h.Rng.Float32()
			}
			for j := range t2 {
				t2[j] = star.Point2D{X: co(), Y: co()}
				t3[j] = star.Point3DPayload{Point3D: star.Point3D{X: co(), Y: co(), Z: co()}, Payload: int32(j)}
			}
			p2, p3 := append([]star.Point2D{}, t2...), append([]star.Point3DPayload{}, t3...)
			t2.Make()
			t3.Make()
			for k := 0; k < m; k++ {
				q := star.Point2D{X: co(), Y: co()}
				best := float32(math.MaxFloat32)
				for _, p := range p2 {
					if d := star.Dist2DSquared(p, q); d < best {
						best = d
					}
				}
				p, d := t2.NearestNeighbor(q)
				ok := false
				for _, o := range p2 {
					ok = ok || o == p
				}
				if d != best || star.Dist2DSquared(p, q) != best || !ok {
					h.Fail("Nearest-2", "%d points: nearest to %v is %v at %g, want distance %g", n, q, p, d, best)
					return
				}
				q3 := star.Point3D{X: co(), Y: co(), Z: co()}
				best = math.MaxFloat32
				for _, p := range p3 {
					if d := star.Dist3DSquared(p.Point3D, q3); d < best {
						best = d
					}
				}
				r, d := t3.NearestNeighbor(q3)
				if id, good := r.Payload.(int32); d != best || !good || id < 0 || int(id) >= n || p3[id].Point3D != r.Point3D || star.Dist3DSquared(r.Point3D, q3) != best {
					h.Fail("Nearest-3", "%d points: nearest to %v is %v at %g, want distance %g", n, q3, r, d, best)
					return
				}
			}
		})
	}
}

func TestVerifAlign(t *testing.T) {
	h := vlib.New()
	defer h.Done()
	for i := 0; i < h.N(25); i++ {
		size, n := 1000.0, 25+h.Rng.Intn(30)
		a := 2 * math.Pi * h.Rng.Float64()
		if h.Rng.Intn(2) == 0 {
			a *= 0.01
		}
		c, s := math.Cos(a), math.Sin(a)
		dx, dy := 80*(h.Rng.Float64()-0.5), 80*(h.Rng.Float64()-0.5)
		tr := star.Transform2D{A: float32(c), B: float32(-s), C: float32(size/2 - c*size/2 + s*size/2 + dx), D: float32(s), E: float32(c), F: float32(size/2 - s*size/2 - c*size/2 + dy)}
		h.Case("alignment of %d stars with %v", n, tr)
		h.Try("Align", func() {
			stars, ref := make([]star.Star, n), make([]star.Star, n)
			for j := range stars {
				x, y := size*h.Rng.Float64(), size*h.Rng.Float64()
				rx, ry := apply(tr, x, y)
				stars[j] = star.Star{X: float32(x), Y: float32(y), Mass: float32(1000 - j)}
				ref[j] = star.Star{X: float32(rx), Y: float32(ry), Mass: float32(1000 - j)}
			}
			nx := []int32{int32(size), int32(size)}
			c := &ops.Context{Log: io.Discard, AlignNaxisn: nx, AlignStars: ref}
			op := post.NewOpAlign(12, 1, post.OOBModeNaN)
			mk := func(st []star.Star) *fits.Image {
				f := fits.NewImageFromNaxisn([]int32{60, 60}, nil)
				f.Naxisn = []int32{60, 60}
				f.Stars = st
				return f
			}
			f := mk(stars)
			f.Naxisn = nx
			al := star.NewAligner(nx, ref, 12)
			got, residual := al.Align(nx, stars, 0)
			if residual > 0.5 {
				h.Fail("Align-found", "%d stars: residual %g with %v, want %v", n, residual, got, tr)
				return
			}
			for j := range stars {
				p := got.Apply(star.Point2D{X: stars[j].X, Y: stars[j].Y})
				if d := star.Dist2D(p, star.Point2D{X: ref[j].X, Y: ref[j].Y}); d > 2 {
					h.Fail("Align-value", "%d stars: star %d is %g pixels from its reference, %v, want %v", n, j, d, got, tr)
					return
				}
			}
			// frames without stars, or whose stars do not match, are skipped
			r, err := op.Apply(mk(nil), c)
			if r != nil || err != nil {
				h.Fail("Align-nostars", "frame without stars: %v %v", r, err)
			}
			other := make([]star.Star, n)
			for j := range other {
				other[j] = star.Star{X: float32(size * h.Rng.Float64()), Y: float32(size * h.Rng.Float64()), Mass: float32(1000 - j)}
			}
			op = post.NewOpAlign(12, 1e-6, post.OOBModeNaN)
			r, err = op.Apply(mk(other), c)
			if r != nil || err != nil {
				h.Fail("Align-threshold", "frame above the threshold of the residual: %v %v", r != nil, err)
			}
			// the reference frame itself stays as it is
			f = mk(ref)
			r, err = op.Apply(f, c)
			if r != f || err != nil || f.Trans != star.IdentityTransform2D() {
				h.Fail("Align-reference", "reference frame: %v %v", f.Trans, err)
			}
		})
	}
}
