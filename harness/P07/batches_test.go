package p07

import (
	"errors"
	"io"
	"sync"
	"testing"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/stack"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/internal/zzverif/vlib"
)

const w, ht = 512, 512 // one MiB per frame

// TestVerifBatches stacks frames under tight memory limits. Every frame holds 1 at its own pixel and a
// constant elsewhere, so the result shows how often and with which weight each frame took part.
func TestVerifBatches(t *testing.T) {
	h := vlib.New()
	defer h.Done()
	for it := 0; it < h.N(60); it++ {
		n := 1 + h.Rng.Intn(25)
		c := ops.NewContext(io.Discard, 1024, stats.LSEMeanStdDev)
		c.StackMemoryMB = 3 + h.Rng.Intn(30)
		if h.Rng.Intn(3) == 0 {
			c.DarkFrame = fits.NewImageFromNaxisn([]int32{w, ht}, nil)
		}
		if h.Rng.Intn(4) == 0 {
			c.FlatFrame = fits.NewImageFromNaxisn([]int32{w, ht}, nil)
		}
		consts := make([]float64, n)
		exps := make([]float64, n)
		var mu sync.Mutex
		maxSeen := 0
		ins := make([]ops.Promise, n)
		expSum, constSum := 0.0, 0.0
		for k := range ins {
			k := k
			consts[k] = float64(h.Rng.Intn(1000))
			exps[k] = float64(1 + h.Rng.Intn(600))
			expSum += exps[k]
			constSum += consts[k]
			ins[k] = func() (*fits.Image, error) {
				f := fits.NewImageFromNaxisn([]int32{w, ht}, nil)
				for i := range f.Data {
					f.Data[i] = float32(consts[k])
				}
				for i := 0; i < 100; i++ {
					f.Data[i] = 0
				}
				f.Data[k] = 1
				f.ID = k
				f.Exposure = float32(exps[k])
				return f, nil
			}
		}
		_ = maxSeen
		fault := -1
		if h.Rng.Intn(8) == 0 {
			fault = h.Rng.Intn(n)
			ins[fault] = func() (*fits.Image, error) { return nil, errors.New("cannot read this frame") }
		}
		batches := 0
		per := ops.NewOpSequence(&counter{Operator: stack.NewOpStack(stack.StMean, stack.StWeightNone, 2, 2), f: func() { mu.Lock(); batches++; mu.Unlock() }})
		mem := c.StackMemoryMB
		h.Case("frames=%d memory=%d MiB for 1 MiB frames dark=%v flat=%v unreadable frame=%d", n, mem, c.DarkFrame != nil, c.FlatFrame != nil, fault)
		var out *fits.Image
		var err error
		op := stack.NewOpStackBatches(per)
		if !h.Try("batches", func() {
			var ps []ops.Promise
			ps, err = op.MakePromises(ins, c)
			if err == nil {
				out, err = ps[0]()
			}
		}) {
			continue
		}
		if fault >= 0 {
			if err == nil {
				h.Fail("unreadable-frame", "a frame that cannot be read was dropped without an error")
			}
			continue
		}
		if err != nil {
			if mem >= 16+8+n+6 {
				h.Fail("refused", "error %v although memory is sufficient", err)
			}
			continue
		}
		// memory: even a single thread leaves room for mem-1 frames at most
		if batches*(mem-1) < n {
			h.Fail("memory", "%d frames in %d batches do not fit %d MiB", n, batches, mem)
		}
		if len(out.Data) != w*ht {
			h.Fail("shape", "%d pixels", len(out.Data))
			continue
		}
		if !vlib.Close(float64(out.Exposure), expSum, 1e-5, 0) {
			h.Fail("exposure", "stack exposure %g, frames sum to %g (%d batches)", out.Exposure, expSum, batches)
		}
		for k := 0; k < n; k++ {
			if !vlib.Close(float64(out.Data[k]), 1/float64(n), 1e-4, 0) {
				h.Fail("share", "frame %d of %d has share %g instead of %g (%d batches)", k, n, out.Data[k], 1/float64(n), batches)
				break
			}
		}
		for i := 100; i < w*ht; i += 997 {
			if !vlib.Close(float64(out.Data[i]), constSum/float64(n), 1e-4, 1e-4) {
				h.Fail("mean", "pixel %d is %g instead of %g (%d batches)", i, out.Data[i], constSum/float64(n), batches)
				break
			}
		}
		if out.Stats != nil && !vlib.Close(float64(out.Stats.Max()), maxOf(out.Data), 1e-6, 0) {
			h.Fail("stats", "statistics of the stack are stale")
		}
	}
}

func maxOf(d []float32) float64 {
	m := d[0]
	for _, x := range d {
		if x > m {
			m = x
		}
	}
	return float64(m)
}

type counter struct {
	ops.Operator
	f func()
}

func (c *counter) MakePromises(ins []ops.Promise, ctx *ops.Context) ([]ops.Promise, error) {
	c.f()
	return c.Operator.MakePromises(ins, ctx)
}

// TestVerifIncremental: the incremental stack is the weighted mean of what was added.
func TestVerifIncremental(t *testing.T) {
	h := vlib.New()
	defer h.Done()
	for it := 0; it < h.N(300); it++ {
		n, wd, hh := 1+h.Rng.Intn(8), 1+h.Rng.Intn(9), 1+h.Rng.Intn(9)
		sum := make([]float64, wd*hh)
		wsum, esum := 0.0, 0.0
		var st *fits.Image
		h.Case("incremental frames=%d size=%dx%d round=%d", n, wd, hh, it)
		h.Try("incremental", func() {
			for k := 0; k < n; k++ {
				f := fits.NewImageFromNaxisn([]int32{int32(wd), int32(hh)}, nil)
				f.Exposure = float32(1 + h.Rng.Intn(100))
				wt := float32(1 + h.Rng.Intn(20))
				for i := range f.Data {
					f.Data[i] = h.Rng.Float32() * 1000
					sum[i] += float64(f.Data[i]) * float64(wt)
				}
				orig := vlib.Bits(f.Data)
				wsum += float64(wt)
				esum += float64(f.Exposure)
				st = stack.StackIncremental(st, f, wt)
				for i, b := range vlib.Bits(f.Data) {
					if b != orig[i] {
						h.Fail("incremental-input", "the added frame was modified")
						break
					}
				}
			}
			stack.StackIncrementalFinalize(st, float32(wsum))
			for i := range sum {
				if !vlib.Close(float64(st.Data[i]), sum[i]/wsum, 1e-4, 1e-4) {
					h.Fail("incremental-mean", "pixel %d is %g instead of %g", i, st.Data[i], sum[i]/wsum)
					break
				}
			}
			if !vlib.Close(float64(st.Exposure), esum, 1e-5, 0) {
				h.Fail("incremental-exposure", "exposure %g instead of %g", st.Exposure, esum)
			}
			if st.Stats == nil || !vlib.Close(float64(st.Stats.Max()), maxOf(st.Data), 1e-6, 0) {
				h.Fail("incremental-stats", "statistics of the stack are stale")
			}
		})
	}
}
