// Package vlib is the small runtime shared by the bounded harnesses.
package vlib

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"math/rand"
	"os"
	"strconv"
	"sync"
)

type H struct {
	mu       sync.Mutex
	Seed     int64
	Thorough bool
	Rng      *rand.Rand
	Scratch  string
	cur      *os.File
	out      *os.File
	evals    int
	distinct map[uint64]bool
	samples  []string
	fails    map[string]int
	curText  string
}

func New() *H {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	h := &H{Seed: seed, Thorough: os.Getenv("VERIF_TIER") == "thorough", Rng: rand.New(rand.NewSource(seed)), Scratch: os.Getenv("VERIF_SCRATCH"), distinct: map[uint64]bool{}, fails: map[string]int{}}
	if h.Scratch == "" {
		h.Scratch, _ = os.MkdirTemp("", "verif-h-")
	}
	if f := os.Getenv("VERIF_OUT"); f != "" {
		h.out, _ = os.OpenFile(f, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644)
	}
	if f := os.Getenv("VERIF_CUR"); f != "" {
		h.cur, _ = os.OpenFile(f, os.O_CREATE|os.O_WRONLY, 0644)
	}
	return h
}

// N scales a case count by tier.
func (h *H) N(quick int) int {
	if h.Thorough {
		return quick * 12
	}
	return quick
}

// Case records the case about to be executed (it survives a crash of the process).
func (h *H) Case(format string, a ...interface{}) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.evals++
	h.curText = fmt.Sprintf(format, a...)
	f := fnv.New64a()
	f.Write([]byte(h.curText))
	h.distinct[f.Sum64()] = true
	if h.cur != nil {
		b := []byte(h.curText)
		if len(b) > 4000 {
			b = b[:4000]
		}
		h.cur.WriteAt(b, 0)
		h.cur.Truncate(int64(len(b)))
	}
	if len(h.samples) < 6 && (h.evals%97 == 1 || h.evals < 3) {
		s := h.curText
		if len(s) > 300 {
			s = s[:300] + "..."
		}
		h.samples = append(h.samples, s)
	}
}

// Fail reports a violation under a stable key, with the current case as its input.
func (h *H) Fail(key, format string, a ...interface{}) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.fails[key]++
	if h.fails[key] > 2 {
		return
	}
	h.emit(map[string]interface{}{"kind": "violation", "key": key, "msg": fmt.Sprintf(format, a...), "case": h.curText})
}

func (h *H) emit(m map[string]interface{}) {
	b, _ := json.Marshal(m)
	if h.out != nil {
		h.out.Write(append(b, '\n'))
	} else {
		fmt.Println(string(b))
	}
}

func (h *H) Done() {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.emit(map[string]interface{}{"kind": "stats", "evaluations": h.evals, "distinct": len(h.distinct), "samples": h.samples})
}

// Try runs f and turns a panic on this goroutine into a violation.
func (h *H) Try(key string, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			h.Fail(key+"-panic", "panic: %v", r)
			ok = false
		}
	}()
	f()
	return true
}

func Same32(a, b float32) bool {
	return math.Float32bits(a) == math.Float32bits(b) || a == b || a != a && b != b
}
func Bits(a []float32) []uint32 {
	r := make([]uint32, len(a))
	for i, v := range a {
		r[i] = math.Float32bits(v)
	}
	return r
}

// Close compares with relative tolerance.
func Close(a, b, rel, abs float64) bool {
	if a == b || a != a && b != b {
		return true
	}
	d := math.Abs(a - b)
	return d <= abs || d <= rel*math.Max(math.Abs(a), math.Abs(b))
}
func NaN() float32 { return float32(math.NaN()) }
