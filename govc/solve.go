package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"
)

const preludeText = `(set-option :produce-models false)
(set-logic ALL)
(declare-sort F32 0)
(declare-sort F64 0)
(declare-sort Str 0)
`

type preDecl struct {
	sym  string
	text string
	ax   []string
	need []string
}

var preDecls = []preDecl{
	{sym: "alloc0", text: "(declare-const alloc0 Int)", ax: []string{"(< 0 alloc0)"}},
	{sym: "innerB", text: "(declare-fun innerB (Int) Int)"},
	{sym: "innerI", text: "(declare-fun innerI (Int) Int)"},
	{sym: "innerK", text: "(declare-fun innerK (Int) Int)"},
	{sym: "siteof", text: "(declare-fun siteof (Int) Int)"},
	{sym: "ifacetag", text: "(declare-fun ifacetag (Int) Int)"},
	{sym: "strlen", text: "(declare-fun strlen (Str) Int)"},
	{sym: "strid", text: "(declare-fun strid (Str) Int)"},
	{sym: "strat", text: "(declare-fun strat (Str Int) Int)"},
	{sym: "strsub", text: "(declare-fun strsub (Str Int Int) Str)"},
	{sym: "strcat", text: "(declare-fun strcat (Str Str) Str)"},
	{sym: "strlt", text: "(declare-fun strlt (Str Str) Bool)"},
	{sym: "nan32", text: "(declare-fun nan32 (F32) Bool)"},
	{sym: "ord32", text: "(declare-fun ord32 (F32) Real)"},
	{sym: "nan64", text: "(declare-fun nan64 (F64) Bool)"},
	{sym: "ord64", text: "(declare-fun ord64 (F64) Real)"},
	{sym: "qnan64", text: "(declare-const qnan64 F64)", need: []string{"nan64"}, ax: []string{"(nan64 qnan64)"}},
	{sym: "rnd32", text: "(declare-fun rnd32 (Real) Real)", ax: []string{
		"(forall ((a Real) (b Real)) (! (=> (<= a b) (<= (rnd32 a) (rnd32 b))) :pattern ((rnd32 a) (rnd32 b))))",
		"(forall ((x F32)) (! (=> (not (nan32 x)) (= (rnd32 (ord32 x)) (ord32 x))) :pattern ((rnd32 (ord32 x)))))"}, need: []string{"nan32", "ord32"}},
	{sym: "rnd64", text: "(declare-fun rnd64 (Real) Real)", ax: []string{
		"(forall ((a Real) (b Real)) (! (=> (<= a b) (<= (rnd64 a) (rnd64 b))) :pattern ((rnd64 a) (rnd64 b))))",
		"(forall ((x F64)) (! (=> (not (nan64 x)) (= (rnd64 (ord64 x)) (ord64 x))) :pattern ((rnd64 (ord64 x)))))"}, need: []string{"nan64", "ord64"}},
	{sym: "INF32", text: "(define-fun INF32 () Real 340282366920938463463374607431768211456.0)"},
	{sym: "INF64", text: "(define-fun INF64 () Real 179769313486231590772930519078902473361797697894230657273430081157732675805500963132708477322407536021120113879871393357658789768814416622492847430639474124377767893424865485276302219601246094119453082952085005768838150682342462881473913110540827237163350510684586298239947245938479716304835356329624224137216.0)"},
	{sym: "fin32", text: "(define-fun fin32 ((x F32)) Bool (and (not (nan32 x)) (< (- INF32) (ord32 x)) (< (ord32 x) INF32)))", need: []string{"nan32", "ord32", "INF32"}},
	{sym: "fin64", text: "(define-fun fin64 ((x F64)) Bool (and (not (nan64 x)) (< (- INF64) (ord64 x)) (< (ord64 x) INF64)))", need: []string{"nan64", "ord64", "INF64"}},
	{sym: "flt32", text: "(define-fun flt32 ((x F32) (y F32)) Bool (and (not (nan32 x)) (not (nan32 y)) (< (ord32 x) (ord32 y))))", need: []string{"nan32", "ord32"}},
	{sym: "fle32", text: "(define-fun fle32 ((x F32) (y F32)) Bool (and (not (nan32 x)) (not (nan32 y)) (<= (ord32 x) (ord32 y))))", need: []string{"nan32", "ord32"}},
	{sym: "feq32", text: "(define-fun feq32 ((x F32) (y F32)) Bool (and (not (nan32 x)) (not (nan32 y)) (= (ord32 x) (ord32 y))))", need: []string{"nan32", "ord32"}},
	{sym: "flt64", text: "(define-fun flt64 ((x F64) (y F64)) Bool (and (not (nan64 x)) (not (nan64 y)) (< (ord64 x) (ord64 y))))", need: []string{"nan64", "ord64"}},
	{sym: "fle64", text: "(define-fun fle64 ((x F64) (y F64)) Bool (and (not (nan64 x)) (not (nan64 y)) (<= (ord64 x) (ord64 y))))", need: []string{"nan64", "ord64"}},
	{sym: "feq64", text: "(define-fun feq64 ((x F64) (y F64)) Bool (and (not (nan64 x)) (not (nan64 y)) (= (ord64 x) (ord64 y))))", need: []string{"nan64", "ord64"}},
	{sym: "cvt32to64", text: "(declare-fun cvt32to64 (F32) F64)"},
	{sym: "cvt64to32", text: "(declare-fun cvt64to32 (F64) F32)"},
	{sym: "i2f32", text: "(declare-fun i2f32 (Int) F32)"},
	{sym: "i2f64", text: "(declare-fun i2f64 (Int) F64)"},
	{sym: "pow2", text: "(declare-fun pow2 (Int) Int)", ax: []string{"(= (pow2 0) 1)", "(= (pow2 1) 2)", "(forall ((n Int)) (! (=> (<= 0 n) (<= 1 (pow2 n))) :pattern ((pow2 n))))"}},
	// products of two unknowns: nmulAbs is the e-matching view, nmulDef the exact one
	{sym: "nmul", text: nmulAbs},
	{sym: "ndiv", text: ndivAbs, need: []string{"nmul"}},
	{sym: "nmod", text: "(define-fun nmod ((a Int) (b Int)) Int (ite (= b 0) (mod a b) (- a (nmul (ndiv a b) b))))", need: []string{"nmul", "ndiv"}},
	{sym: "tdivn", text: "(define-fun tdivn ((a Int) (b Int)) Int (ite (>= a 0) (ite (> b 0) (ndiv a b) (- (ndiv a (- b)))) (ite (> b 0) (- (ndiv (- a) b)) (ndiv (- a) (- b)))))", need: []string{"ndiv", "nmul"}},
	{sym: "tdiv", text: "(define-fun tdiv ((a Int) (b Int)) Int (ite (>= a 0) (ite (> b 0) (div a b) (- (div a (- b)))) (ite (> b 0) (- (div (- a) b)) (div (- a) (- b)))))"},
	{sym: "bitand", text: "(declare-fun bitand (Int Int) Int)"},
	{sym: "bitor", text: "(declare-fun bitor (Int Int) Int)"},
	{sym: "bitxor", text: "(declare-fun bitxor (Int Int) Int)"},
	{sym: "bitandnot", text: "(declare-fun bitandnot (Int Int) Int)"},
}

func init() {
	for _, s := range []string{"32", "64"} {
		for _, o := range []string{"add", "sub", "mul", "div"} {
			d := preDecl{sym: "f" + o + s, text: "(declare-fun f" + o + s + " (F" + s + " F" + s + ") F" + s + ")"}
			if o == "add" || o == "mul" {
				d.ax = []string{fmt.Sprintf("(forall ((x F%s) (y F%s)) (! (= (f%s%s x y) (f%s%s y x)) :pattern ((f%s%s x y))))", s, s, o, s, o, s, o, s)}
			}
			preDecls = append(preDecls, d)
		}
		for _, o := range []string{"neg", "abs", "sqrt"} {
			preDecls = append(preDecls, preDecl{sym: "f" + o + s, text: "(declare-fun f" + o + s + " (F" + s + ") F" + s + ")"})
		}
	}
	for _, s := range []string{"F32", "F64", "Int"} {
		c := "cnt" + s
		preDecls = append(preDecls, preDecl{sym: "touch" + s, text: "(declare-fun touch" + s + " (" + s + ") Bool)", ax: []string{"(forall ((x " + s + ")) (! (touch" + s + " x) :pattern ((touch" + s + " x))))"}})
		ar := "(Array Int " + s + ")"
		preDecls = append(preDecls, preDecl{sym: c, text: "(declare-fun " + c + " (" + ar + " Int Int " + s + ") Int)", ax: []string{
			"(forall ((a " + ar + ") (lo Int) (hi Int) (w " + s + ")) (! (and (<= 0 (" + c + " a lo hi w)) (=> (<= hi lo) (= (" + c + " a lo hi w) 0)) (=> (<= lo hi) (<= (" + c + " a lo hi w) (- hi lo)))) :pattern ((" + c + " a lo hi w))))",
			// splitting: a range count is the sum over its parts
			"(forall ((a " + ar + ") (lo Int) (mi Int) (hi Int) (w " + s + ")) (! (=> (and (<= lo mi) (<= mi hi)) (= (" + c + " a lo hi w) (+ (" + c + " a lo mi w) (" + c + " a mi hi w)))) :pattern ((" + c + " a lo mi w) (" + c + " a lo hi w)) :pattern ((" + c + " a mi hi w) (" + c + " a lo hi w))))",
			// single element
			"(forall ((a " + ar + ") (lo Int) (hi Int) (w " + s + ")) (! (=> (= hi (+ lo 1)) (= (" + c + " a lo hi w) (ite (= (select a lo) w) 1 0))) :pattern ((" + c + " a lo hi w))))",
		}})
		// where a value that occurs is found
		wh := "where" + s
		preDecls = append(preDecls, preDecl{sym: wh, need: []string{c}, text: "(declare-fun " + wh + " (" + ar + " Int Int " + s + ") Int)", ax: []string{
			"(forall ((a " + ar + ") (lo Int) (hi Int) (w " + s + ")) (! (=> (< 0 (" + c + " a lo hi w)) (and (<= lo (" + wh + " a lo hi w)) (< (" + wh + " a lo hi w) hi) (= (select a (" + wh + " a lo hi w)) w))) :pattern ((" + wh + " a lo hi w))))",
		}})
	}
}

const nmulDef = "(define-fun nmul ((a Int) (b Int)) Int (* a b))"
const nmulAbs = `(declare-fun nmul (Int Int) Int)
(assert (forall ((a Int) (b Int)) (! (and (= (nmul a b) (nmul b a)) (=> (= a 0) (= (nmul a b) 0)) (=> (= a 1) (= (nmul a b) b)) (=> (and (<= 0 a) (<= 0 b)) (<= 0 (nmul a b))) (=> (and (<= 1 a) (<= 0 b)) (<= b (nmul a b)))) :pattern ((nmul a b)))))
(assert (forall ((a Int) (b Int) (w Int)) (! (and (=> (and (< a b) (<= 0 w)) (<= (+ (nmul a w) w) (nmul b w))) (=> (and (< (+ a 1) b) (<= 0 w)) (<= (+ (nmul a w) (* 2 w)) (nmul b w))) (=> (and (< (+ a 2) b) (<= 0 w)) (<= (+ (nmul a w) (* 3 w)) (nmul b w))) (=> (= b (+ a 1)) (= (nmul b w) (+ (nmul a w) w))) (=> (= b (+ a 2)) (= (nmul b w) (+ (nmul a w) (* 2 w)))) (=> (= b (+ a 3)) (= (nmul b w) (+ (nmul a w) (* 3 w))))) :pattern ((nmul a w) (nmul b w)))))`

const ndivDef = "(define-fun ndiv ((a Int) (b Int)) Int (div a b))"
const ndivAbs = `(declare-fun ndiv (Int Int) Int)
(assert (forall ((a Int) (b Int)) (! (=> (< 0 b) (and (<= (nmul (ndiv a b) b) a) (< a (+ (nmul (ndiv a b) b) b)) (=> (<= 0 a) (and (<= 0 (ndiv a b)) (<= (ndiv a b) a))))) :pattern ((ndiv a b)))))`

// noComm drops commutativity of products (weaker, but calmer for e-matching).
func noComm(q string) string {
	return strings.Replace(q, "(= (nmul a b) (nmul b a)) ", "", 1)
}

// exactMul turns a query into the variant in which products are the solver's own multiplication.
func exactMul(q string) string {
	return strings.Replace(strings.Replace(q, nmulAbs, nmulDef, 1), ndivAbs, ndivDef, 1)
}
func hasMul(q string) bool { return strings.Contains(q, nmulAbs) }

func prelude(used map[string]bool) string {
	need := map[string]bool{}
	var visit func(s string)
	by := map[string]*preDecl{}
	for i := range preDecls {
		by[preDecls[i].sym] = &preDecls[i]
	}
	visit = func(s string) {
		d := by[s]
		if d == nil || need[s] {
			return
		}
		need[s] = true
		for _, n := range d.need {
			visit(n)
		}
		for _, t := range symRe.FindAllString(d.text, -1) {
			if t != s {
				visit(t)
			}
		}
		for _, a := range d.ax {
			for _, t := range symRe.FindAllString(a, -1) {
				if t != s {
					visit(t)
				}
			}
		}
	}
	for s := range used {
		visit(s)
	}
	var b, ax strings.Builder
	b.WriteString(preludeText)
	for i := range preDecls {
		if need[preDecls[i].sym] {
			b.WriteString(preDecls[i].text + "\n")
			for _, a := range preDecls[i].ax {
				ax.WriteString("(assert " + a + ")\n")
			}
		}
	}
	return b.String() + ax.String()
}

type solverCfg struct {
	name string
	cmd  []string
	opts string
}

var cfgArith2 = solverCfg{"z3-5.3 (e-matching, arith2)", []string{"z3-new", "-in"}, "(set-option :smt.mbqi false)\n(set-option :smt.arith.solver 2)\n"}
var cfgArith2s7 = solverCfg{"z3-5.3 (e-matching, arith2, seed 7)", []string{"z3-new", "-in"}, "(set-option :smt.mbqi false)\n(set-option :smt.arith.solver 2)\n(set-option :smt.random_seed 7)\n"}
var cfgEmatch = solverCfg{"z3-5.3 (e-matching)", []string{"z3-new", "-in"}, "(set-option :smt.mbqi false)\n"}
var cfgDefault = solverCfg{"z3-5.3", []string{"z3-new", "-in"}, ""}
var cfgZ3old = solverCfg{"z3-4.8.12 (e-matching)", []string{"z3", "-in"}, "(set-option :smt.mbqi false)\n"}
var cfgCvc5 = solverCfg{"cvc5-1.1.2", []string{"cvc5", "--lang=smt2", "-q"}, ""}

type result struct {
	res    string // unsat, sat, unknown, timeout, error
	solver string
	secs   float64
	final  bool
	core   string
}

func runSolver(ctx context.Context, c solverCfg, q string, rlimit int, timeout time.Duration) result {
	t0 := time.Now()
	cx, cancel := context.WithTimeout(ctx, timeout)
	defer cancel()
	cmd := exec.CommandContext(cx, c.cmd[0], c.cmd[1:]...)
	in := q
	if c.opts != "" || rlimit > 0 {
		o := c.opts
		if rlimit > 0 {
			o += fmt.Sprintf("(set-option :rlimit %d)\n", rlimit)
		}
		in = o + q
	}
	cmd.Stdin = strings.NewReader(in)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	err := cmd.Run()
	d := time.Since(t0).Seconds()
	s := strings.TrimSpace(out.String())
	for strings.HasPrefix(s, "WARNING") {
		i := strings.IndexByte(s, '\n')
		if i < 0 {
			break
		}
		s = strings.TrimSpace(s[i+1:])
	}
	line := s
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		line = s[:i]
	}
	switch line {
	case "unsat", "sat", "unknown":
		return result{res: line, solver: c.name, secs: d, core: s}
	}
	if cx.Err() != nil {
		return result{res: "timeout", solver: c.name, secs: d}
	}
	if strings.Contains(s, "timeout") || strings.Contains(s, "canceled") || strings.Contains(s, "resource") {
		return result{res: "unknown", solver: c.name, secs: d}
	}
	_ = err
	if strings.HasPrefix(line, "unsat") {
		return result{res: "unsat", solver: c.name, secs: d, core: s}
	}
	return result{res: "error: " + s, solver: c.name, secs: d}
}

var sem = make(chan struct{}, 8)

type job struct {
	c solverCfg
	q string
}

// race runs jobs concurrently; the first unsat wins.
func race(jobs []job, timeout time.Duration) result {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan result, len(jobs))
	for _, j := range jobs {
		j := j
		go func() {
			select {
			case sem <- struct{}{}:
			case <-ctx.Done():
				ch <- result{res: "cancelled", solver: j.c.name}
				return
			}
			defer func() { <-sem }()
			if ctx.Err() != nil {
				ch <- result{res: "cancelled", solver: j.c.name}
				return
			}
			ch <- runSolver(ctx, j.c, j.q, 0, timeout)
		}()
	}
	total := 0.0
	best := result{res: "unknown"}
	for range jobs {
		k := <-ch
		total += k.secs
		if k.res == "unsat" || strings.HasPrefix(k.res, "error") {
			k.secs = total
			return k
		}
		if k.res == "sat" && best.res != "sat" {
			best = k
			// a model of the full query is final
			if len(jobs) > 0 && k.final {
				break
			}
		}
	}
	best.secs = total
	return best
}

// prove tries a portfolio on the slim query (irrelevant facts dropped) and on the full one.
func prove(slim, full string, timeout time.Duration) result {
	t1 := min(6*time.Second, timeout)
	jobs := []job{{cfgArith2, slim}, {cfgCvc5, slim}}
	if hasMul(slim) {
		jobs = []job{{cfgArith2, noComm(slim)}, {cfgEmatch, noComm(slim)}, {cfgCvc5, noComm(slim)}, {cfgArith2, slim}, {cfgArith2, exactMul(slim)}, {cfgEmatch, exactMul(slim)}}
	}
	r := race(jobs, min(3*time.Second, timeout))
	if r.res == "unsat" || strings.HasPrefix(r.res, "error") {
		return r
	}
	total := r.secs
	jobs = []job{{cfgArith2, full}, {cfgCvc5, full}, {cfgDefault, full}, {cfgEmatch, full}}
	if hasMul(full) {
		jobs = append(jobs, job{cfgArith2, noComm(full)}, job{cfgArith2, exactMul(full)}, job{cfgCvc5, exactMul(full)})
	}
	if slim != full && hasMul(slim) {
		jobs = append(jobs, job{cfgArith2, noComm(slim)}, job{cfgEmatch, noComm(slim)}, job{cfgCvc5, noComm(slim)}, job{cfgArith2s7, noComm(slim)})
	}
	if slim != full {
		jobs = append(jobs, job{cfgArith2, slim}, job{cfgCvc5, slim}, job{cfgEmatch, slim})
	}
	r = race(jobs, t1)
	total += r.secs
	if r.res != "unsat" && timeout > t1 {
		jobs = append(jobs, job{cfgZ3old, full})
		r = race(jobs, timeout)
		total += r.secs
	}
	r.secs = total
	return r
}

// proveQuick is used inside the invariant search.
func proveQuick(slim, full string, user bool) result {
	t := 2 * time.Second
	if user {
		t = 6 * time.Second
	}
	jobs := []job{{cfgArith2, slim}, {cfgCvc5, slim}}
	if hasMul(slim) {
		jobs = []job{{cfgArith2, noComm(slim)}, {cfgEmatch, noComm(slim)}, {cfgCvc5, noComm(slim)}, {cfgArith2, exactMul(slim)}}
	}
	r := race(jobs, t)
	if r.res == "unsat" || slim == full {
		return r
	}
	total := r.secs
	r = race([]job{{cfgArith2, full}, {cfgCvc5, full}}, t)
	r.secs += total
	return r
}

// proveLong is the last attempt for an invariant of a contract.
func proveLong(slim string) result {
	jobs := []job{{cfgArith2, slim}, {cfgCvc5, slim}}
	if hasMul(slim) {
		jobs = []job{{cfgArith2, noComm(slim)}, {cfgEmatch, noComm(slim)}, {cfgCvc5, noComm(slim)}, {cfgArith2, exactMul(slim)}}
	}
	return race(jobs, 20*time.Second)
}

var dumpMu sync.Mutex
var dumpN int

func dump(dir, name, q string) string {
	dumpMu.Lock()
	defer dumpMu.Unlock()
	dumpN++
	f := fmt.Sprintf("%s/%03d_%s.smt2", dir, dumpN, clean(strings.ReplaceAll(name, " ", "_")))
	os.MkdirAll(dir, 0755)
	os.WriteFile(f, []byte(q), 0644)
	return f
}
