package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Closure struct {
	Fn   *ssa.Function
	Bind []Val
}

type State struct {
	h     map[string]string // heap key -> SMT term of sort (Array Int (Array Int S))
	alloc string
	ep    string // number of the last havoc of all memory ("" at entry); keys absent from h have their version of that time
}

func (s *State) copy() *State {
	m := make(map[string]string, len(s.h))
	for k, v := range s.h {
		m[k] = v
	}
	return &State{m, s.alloc, s.ep}
}

type modEntry struct {
	bases map[string]bool
}
type modLog struct {
	keys  map[string]*modEntry
	alloc bool
	any   bool // all memory
}

// X is the execution context of one verification run (one root function).
type X struct {
	*Emit
	w          *World
	root       *ssa.Function
	con        *Contract
	entry      *State
	logs       []*modLog
	heapSort   map[string]string
	epochs     map[string]string // havoc of all memory -> allocation bound at that time
	inits      map[string]bool
	depth      int
	stack      []*ssa.Function
	distinct   map[string]bool
	rootEnv    map[string]Val // contract parameter names of the root -> entry values
	loopSeq    int
	closures   map[string]*Closure
	constCells map[string]Val
	loopNo     int
	candKeys   map[string]bool
	cuts       int
	inSpec     int
	bound      int
	boundVar   string
	curLoop    []*loopCtx
	calls      map[string]bool
	inlined    map[string]bool
	preStates  []*State
	rec        map[string]heapRec // heap version -> the store that made it
}

type heapRec struct{ prev, b, inner string }

// distinctBases: two references that are different in every execution.
func (x *X) distinctBases(a, b string) bool {
	na, nb := strings.HasPrefix(a, "dN."), strings.HasPrefix(b, "dN.")
	if na && nb {
		return a != b
	}
	if x.distinct[a+"|"+b] {
		return true
	}
	isParam := func(s string) bool {
		for _, v := range x.rootEnv {
			for _, c := range v.C {
				if c == s {
					return true
				}
			}
		}
		return false
	}
	return na && isParam(b) || nb && isParam(a)
}

// selB is the inner array of heap version h at base b, resolved through syntactically known stores.
func (x *X) selB(h, b, srt string) string {
	for {
		r, ok := x.rec[h]
		if !ok {
			break
		}
		if r.b == b {
			return r.inner
		}
		if !x.distinctBases(r.b, b) {
			break
		}
		h = r.prev
	}
	t := sel(h, b)
	if strings.Contains(t, "q_") || strings.Contains(t, "fb") || x.bound > 0 && !atomRe.MatchString(b) {
		return t
	}
	return x.defc("arr", arraySort(srt), t)
}

// stoB is heap version h with the inner array at base b replaced.
func (x *X) stoB(key, srt, h, b, inner string) string {
	if x.rec == nil {
		x.rec = map[string]heapRec{}
	}
	if r, ok := x.rec[h]; ok && r.b == b {
		h = r.prev
	}
	inner = x.defc("A", arraySort(srt), inner)
	n := x.defc("H"+key, arraySort(arraySort(srt)), sto(h, b, inner))
	x.rec[n] = heapRec{h, b, inner}
	return n
}

func (x *X) note(f string, a ...interface{}) { x.notes[fmt.Sprintf(f, a...)] = true }

// heap returns the current version of a heap, creating the initial one on demand.
func (x *X) heap(st *State, key, srt string) string {
	if t, ok := st.h[key]; ok {
		return t
	}
	// all states since the same havoc of all memory share the same initial version
	name, al := "H0_"+clean(key), "alloc0"
	if st.ep != "" {
		name, al = "He"+st.ep+"_"+clean(key), x.epochs[st.ep]
	}
	x.heapSort[key] = srt
	if _, ok := x.symIdx[name]; !ok {
		x.symIdx[name] = len(x.items)
		x.symSer[name] = 0
		x.items = append(x.items, Item{kind: 'd', text: fmt.Sprintf("(declare-const %s %s)", name, arraySort(arraySort(srt))), sym: name, node: -1, cand: -1})
		b, i := "(select (select "+name+" b) i)", ""
		_ = i
		q := func(f string) {
			x.axiom(name, "(forall ((b Int) (i Int)) (! (=> (and (< b "+al+") (or (<= 0 b) (< (innerB b) "+al+"))) "+f+") :pattern ("+b+")))")
		}
		switch {
		case strings.HasSuffix(key, ".base"):
			q("(and (<= 0 " + b + ") (< " + b + " " + al + "))")
		case strings.HasSuffix(key, ".len"):
			capn := x.heap(&State{h: map[string]string{}, ep: st.ep}, strings.TrimSuffix(key, ".len")+".cap", "Int")
			c := "(select (select " + capn + " b) i)"
			q("(and (<= 0 " + b + ") (<= " + b + " " + c + "))")
		case strings.HasSuffix(key, ".off"):
			q("(= " + b + " 0)")
		case key == "E:uint8":
			q("(and (<= 0 " + b + ") (<= " + b + " 255))")
		}
		if strings.HasSuffix(key, ".idx") {
			q("(<= 0 " + b + ")")
		}
	}
	return name
}
func (x *X) heapName(key, srt string) string {
	tmp := &State{h: map[string]string{}}
	return x.heap(tmp, key, srt)
}

func (x *X) logMod(key, base string) {
	for _, l := range x.logs {
		e := l.keys[key]
		if e == nil {
			e = &modEntry{map[string]bool{}}
			l.keys[key] = e
		}
		e.bases[base] = true
	}
}

// newEpoch makes all memory not mentioned in st.h arbitrary.
func (x *X) newEpoch(st *State) {
	x.serial++
	st.ep = fmt.Sprint(x.serial)
	if x.epochs == nil {
		x.epochs = map[string]string{}
	}
	x.epochs[st.ep] = st.alloc
	for _, l := range x.logs {
		l.any = true
	}
}

// havocAll makes all memory arbitrary.
func (x *X) havocAll(st *State, node int) {
	na := x.fresh("alloc", "Int")
	x.assume(node, "true", le(st.alloc, na))
	st.alloc = na
	x.logAlloc()
	for _, k := range sortedKeys(x.heapSort) {
		x.heap(st, k, x.heapSort[k])
		nh := x.fresh("H"+k, arraySort(arraySort(x.heapSort[k])))
		x.rangeFacts(k, nh, st.alloc, node)
		x.logMod(k, "?")
		st.h[k] = nh
	}
	x.newEpoch(st)
}

func (x *X) logAlloc() {
	for _, l := range x.logs {
		l.alloc = true
	}
}

func (x *X) innerRef(structKey, field, b, i string) string {
	f := "inner_" + clean(structKey+"."+field)
	x.declFun(f, "(Int Int) Int")
	t := "(" + f + " " + b + " " + i + ")"
	if x.bound > 0 {
		return t
	}
	n0 := len(x.items)
	s := x.def("in", "Int", t)
	if len(x.items) == n0 {
		return s
	}
	x.axiom(s, fmt.Sprintf("(and (< %s 0) (= (innerB %s) %s) (= (innerI %s) %s) (= (innerK %s) %d))", s, s, b, s, i, s, x.w.tagOf(f)))
	return s
}

func (x *X) declFun(name, sig string) {
	if _, ok := x.symIdx[name]; ok {
		return
	}
	x.symIdx[name] = len(x.items)
	x.symSer[name] = 0
	x.items = append(x.items, Item{kind: 'd', text: "(declare-fun " + name + " " + sig + ")", sym: name, node: -1, cand: -1})
}

type loc struct {
	key, sort, b, i string
	arr             bool // whole inner array of the object (array-typed component)
}

// locs lists the heap locations of an object of type t at address (b,i), in component order.
func (x *X) locs(t types.Type, b, i string) []loc {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var r []loc
		sk := typeKey(t)
		for f := 0; f < u.NumFields(); f++ {
			r = append(r, x.fieldLocs(sk, u.Field(f), b, i)...)
		}
		return r
	case *types.Array:
		if i != "0" {
			fail("array value at non-zero offset")
		}
		var r []loc
		for _, l := range x.locs(u.Elem(), b, "0") {
			if l.b != b || l.arr {
				fail("array of nested aggregates")
			}
			r = append(r, loc{l.key, arraySort(l.sort), b, "", true})
		}
		return r
	}
	var r []loc
	for _, c := range compsOf(t) {
		r = append(r, loc{"E:" + typeKey(t) + c.Path, c.Sort, b, i, false})
	}
	return r
}
func (x *X) fieldLocs(sk string, f *types.Var, b, i string) []loc {
	switch f.Type().Underlying().(type) {
	case *types.Struct, *types.Array:
		ib := x.innerRef(sk, f.Name(), b, i)
		return x.locs(f.Type(), ib, "0")
	}
	var r []loc
	for _, c := range compsOf(f.Type()) {
		r = append(r, loc{sk + "." + f.Name() + c.Path, c.Sort, b, i, false})
	}
	return r
}

func (x *X) readLoc(st *State, l loc) string {
	if l.arr {
		es := strings.TrimSuffix(strings.TrimPrefix(l.sort, "(Array Int "), ")")
		return x.selB(x.heap(st, l.key, es), l.b, es)
	}
	return sel(x.selB(x.heap(st, l.key, l.sort), l.b, l.sort), l.i)
}
func (x *X) writeLoc(st *State, l loc, v string) {
	x.logMod(l.key, l.b)
	if l.arr {
		es := strings.TrimSuffix(strings.TrimPrefix(l.sort, "(Array Int "), ")")
		h := x.heap(st, l.key, es)
		st.h[l.key] = x.stoB(l.key, es, h, l.b, v)
		return
	}
	h := x.heap(st, l.key, l.sort)
	old := x.selB(h, l.b, l.sort)
	inner := x.defc("A", arraySort(l.sort), sto(old, l.i, v))
	if l.sort == "F32" || l.sort == "Int" || l.sort == "F64" {
		x.cntAxiom(inner, old, l.i, v, l.sort)
	}
	st.h[l.key] = x.stoB(l.key, l.sort, h, l.b, inner)
}

// cntAxiom: the count of a value in a range after a single-element update.
func (x *X) cntAxiom(inner, old, i, v, srt string) {
	c := "cnt" + srt
	x.axiom(inner, fmt.Sprintf("(forall ((lo Int) (hi Int) (w %s)) (! (= (%s %s lo hi w) (+ (%s %s lo hi w) (ite (and (<= lo %s) (< %s hi)) (- (ite (= w %s) 1 0) (ite (= w (select %s %s)) 1 0)) 0))) :pattern ((%s %s lo hi w))))",
		srt, c, inner, c, old, i, i, v, old, i, c, inner))
}

func (x *X) loadAt(st *State, t types.Type, b, i string) Val {
	v := Val{T: t}
	for _, l := range x.locs(t, b, i) {
		v.C = append(v.C, x.readLoc(st, l))
	}
	return v
}
func (x *X) storeAt(st *State, t types.Type, b, i string, v Val) {
	ls := x.locs(t, b, i)
	if len(ls) != len(v.C) {
		fail("store: component mismatch for %s", t)
	}
	for k, l := range ls {
		x.writeLoc(st, l, v.C[k])
	}
}

// wf emits the well-formedness facts of a value coming from the heap, a parameter or a havoc.
func (x *X) wf(node int, reach string, v Val, alloc string) {
	x.assume(node, reach, x.wfFact(v, alloc))
}
func (x *X) wfFact(v Val, alloc string) string {
	switch u := v.T.Underlying().(type) {
	case *types.Slice:
		return and(le("0", v.C[0]), lt(v.C[0], alloc), le("0", v.C[1]), le("0", v.C[2]), le(v.C[2], v.C[3]), imp(eq(v.C[0], "0"), eq(v.C[2], "0")))
	case *types.Pointer:
		return and(lt(v.C[0], alloc), le("0", v.C[1]))
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			n, s := intBits(v.T)
			if !s {
				return and(le("0", v.C[0]), lt(v.C[0], pow2(n)))
			}
			if n < 64 {
				return and(le("(- "+pow2(n-1)+")", v.C[0]), lt(v.C[0], pow2(n-1)))
			}
		}
	case *types.Struct:
		k := 0
		var fs []string
		for i := 0; i < u.NumFields(); i++ {
			n := len(compsOf(u.Field(i).Type()))
			fs = append(fs, x.wfFact(Val{T: u.Field(i).Type(), C: v.C[k : k+n]}, alloc))
			k += n
		}
		return and(fs...)
	case *types.Interface, *types.Map, *types.Chan, *types.Signature:
		return le("0", v.C[0])
	}
	return "true"
}

func (x *X) freshVal(t types.Type, hint string) Val {
	v := Val{T: t}
	if tp, ok := t.(*types.Tuple); ok {
		for i := 0; i < tp.Len(); i++ {
			f := x.freshVal(tp.At(i).Type(), fmt.Sprintf("%s%d", hint, i))
			v.F = append(v.F, f)
			v.C = append(v.C, f.C...)
		}
		return v
	}
	for _, c := range compsOf(t) {
		v.C = append(v.C, x.fresh(hint+strings.ReplaceAll(c.Path, "[]", "A"), c.Sort))
	}
	return v
}

// havocVal is a fresh value known to be well formed.
func (x *X) havocVal(t types.Type, hint string, node int, reach string, st *State) Val {
	v := x.freshVal(t, hint)
	if len(v.F) > 0 {
		for _, f := range v.F {
			x.wf(node, reach, f, st.alloc)
		}
	} else if _, isT := t.(*types.Tuple); !isT {
		x.wf(node, reach, v, st.alloc)
	}
	return v
}

func (x *X) newBase(st *State, hint string) string {
	x.serial++
	b := fmt.Sprintf("dN.%s!%d", clean(hint), x.serial)
	x.symIdx[b] = len(x.items)
	x.symSer[b] = x.serial
	x.items = append(x.items, Item{kind: 'd', text: "(declare-const " + b + " Int)", sym: b, node: -1, cand: -1})
	// new references are above every older one, and different allocations never share one
	x.axiom(b, fmt.Sprintf("(and (<= %s %s) (= (siteof %s) %d))", st.alloc, b, b, x.serial))
	st.alloc = x.def("alloc", "Int", add(b, "1"))
	x.logAlloc()
	return b
}

func (x *X) zeroComp(srt string) string {
	switch srt {
	case "Int":
		return "0"
	case "Bool":
		return "false"
	case "F32":
		return x.fconst(0, 32)
	case "F64":
		return x.fconst(0, 64)
	case "Str":
		return x.strConst("")
	}
	if strings.HasPrefix(srt, "(Array Int ") {
		return x.constArr(strings.TrimSuffix(strings.TrimPrefix(srt, "(Array Int "), ")"))
	}
	fail("zero of %s", srt)
	return ""
}
func (x *X) constArr(es string) string {
	n := "zarr_" + clean(es)
	if _, ok := x.symIdx[n]; !ok {
		z := x.zeroComp(es)
		x.symIdx[n] = len(x.items)
		x.symSer[n] = 0
		x.items = append(x.items, Item{kind: 'd', text: fmt.Sprintf("(declare-const %s %s)", n, arraySort(es)), sym: n, node: -1, cand: -1})
		x.axiom(n, fmt.Sprintf("(forall ((i Int)) (! (= (select %s i) %s) :pattern ((select %s i))))", n, z, n))
	}
	return n
}
func (x *X) zeroVal(t types.Type) Val {
	v := Val{T: t}
	for _, c := range compsOf(t) {
		v.C = append(v.C, x.zeroComp(c.Sort))
	}
	return v
}

// ---------------------------------------------------------------- constants

func ratText(r *big.Rat) string {
	s := fmt.Sprintf("%s.0", new(big.Int).Abs(r.Num()).String())
	if !r.IsInt() {
		s = fmt.Sprintf("(/ %s.0 %s.0)", new(big.Int).Abs(r.Num()).String(), r.Denom().String())
	}
	if r.Sign() < 0 {
		s = "(- " + s + ")"
	}
	return s
}

func (x *X) fconst(f float64, bits int) string {
	var n string
	if bits == 32 {
		f = float64(float32(f))
		n = fmt.Sprintf("fc32_%08x", math.Float32bits(float32(f)))
	} else {
		n = fmt.Sprintf("fc64_%016x", math.Float64bits(f))
	}
	if _, ok := x.symIdx[n]; ok {
		return n
	}
	x.symIdx[n] = len(x.items)
	x.symSer[n] = 0
	x.items = append(x.items, Item{kind: 'd', text: fmt.Sprintf("(declare-const %s F%d)", n, bits), sym: n, node: -1, cand: -1})
	if math.IsNaN(f) {
		x.axiom(n, fmt.Sprintf("(nan%d %s)", bits, n))
	} else if math.IsInf(f, 0) {
		s := "INF32"
		if bits == 64 {
			s = "INF64"
		}
		if f < 0 {
			s = "(- " + s + ")"
		}
		x.axiom(n, fmt.Sprintf("(and (not (nan%d %s)) (= (ord%d %s) %s))", bits, n, bits, n, s))
	} else {
		r := ratText(new(big.Rat).SetFloat64(f))
		x.axiom(n, fmt.Sprintf("(and (not (nan%d %s)) (= (ord%d %s) %s) (= (rnd%d %s) %s))", bits, n, bits, n, r, bits, r, r))
		if bits == 64 {
			if g := float64(float32(f)); g == f {
				// exactly representable in float32: link both constants
				m := x.fconst(f, 32)
				x.axiom(n, fmt.Sprintf("(and (= (cvt32to64 %s) %s) (= (cvt64to32 %s) %s))", m, n, n, m))
			}
		}
	}
	return n
}

func (x *X) strConst(s string) string {
	n, ok := x.strs[s]
	if !ok {
		n = fmt.Sprintf("str_%d", len(x.strs))
		x.strs[s] = n
	}
	if _, ok := x.symIdx[n]; !ok {
		x.symIdx[n] = len(x.items)
		x.symSer[n] = 0
		x.items = append(x.items, Item{kind: 'd', text: fmt.Sprintf("(declare-const %s Str) ; %q", n, s), sym: n, node: -1, cand: -1})
		x.axiom(n, fmt.Sprintf("(and (= (strid %s) %s) (= (strlen %s) %d))", n, n[4:], n, len(s)))
	}
	return n
}

func (x *X) constVal(c *ssa.Const) Val { return x.constOf(c.Value, c.Type()) }
func (x *X) constOf(cv constant.Value, t types.Type) Val {
	if cv == nil {
		return x.zeroVal(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		fail("constant of type %s", t)
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return Val{T: t, C: []string{fmt.Sprint(constant.BoolVal(cv))}}
	case b.Info()&types.IsInteger != 0:
		n, ok := new(big.Int).SetString(constant.ToInt(cv).ExactString(), 10)
		if !ok {
			fail("int constant %s", cv)
		}
		return Val{T: t, C: []string{num(n)}}
	case b.Info()&types.IsFloat != 0:
		bits := 64
		var f float64
		if b.Kind() == types.Float32 {
			bits = 32
			g, _ := constant.Float32Val(cv)
			f = float64(g)
		} else {
			f, _ = constant.Float64Val(cv)
		}
		return Val{T: t, C: []string{x.fconst(f, bits)}}
	case b.Info()&types.IsString != 0:
		return Val{T: t, C: []string{x.strConst(constant.StringVal(cv))}}
	}
	fail("constant %s", cv)
	return Val{}
}

// ---------------------------------------------------------------- floats

func (x *X) fop(op string, t types.Type, args ...Val) Val {
	s := fsuf(t)
	name := "f" + op + s
	a := make([]string, len(args))
	for i := range args {
		a[i] = args[i].C[0]
	}
	term := "(" + name + " " + strings.Join(a, " ") + ")"
	if x.bound > 0 {
		return Val{T: t, C: []string{term}}
	}
	n0 := len(x.items)
	r := x.def("f"+op, "F"+s, term)
	if len(x.items) > n0 {
		x.fopAxioms(op, s, r, a)
	}
	return Val{T: t, C: []string{r}}
}

func (x *X) fopAxioms(op, s, r string, a []string) {
	nan := func(v string) string { return "(nan" + s + " " + v + ")" }
	ord := func(v string) string { return "(ord" + s + " " + v + ")" }
	fin := func(v string) string { return "(fin" + s + " " + v + ")" }
	rnd := func(v string) string { return "(rnd" + s + " " + v + ")" }
	switch op {
	case "add", "sub", "mul", "div":
		x.axiom(r, imp(or(nan(a[0]), nan(a[1])), nan(r)))
		switch op {
		case "add", "sub":
			x.axiom(r, imp(or(and(fin(a[0]), not(nan(a[1]))), and(not(nan(a[0])), fin(a[1]))), not(nan(r))))
		case "mul":
			x.axiom(r, imp(and(not(nan(a[0])), not(nan(a[1])), or(fin(a[1]), not(eq(ord(a[0]), "0.0"))), or(fin(a[0]), not(eq(ord(a[1]), "0.0")))), not(nan(r))))
		}
		if x.con != nil && x.con.Rnd {
			o := map[string]string{"add": "+", "sub": "-", "mul": "*", "div": "/"}[op]
			pre := and(fin(a[0]), fin(a[1]))
			if op == "div" {
				pre = and(pre, not(eq(ord(a[1]), "0.0")))
			}
			x.axiom(r, imp(pre, and(not(nan(r)), eq(ord(r), rnd("("+o+" "+ord(a[0])+" "+ord(a[1])+")")))))
		}
	case "neg":
		x.axiom(r, and(eq(nan(r), nan(a[0])), eq(ord(r), "(- "+ord(a[0])+")")))
	case "abs":
		x.axiom(r, and(eq(nan(r), nan(a[0])), eq(ord(r), ite("(< "+ord(a[0])+" 0.0)", "(- "+ord(a[0])+")", ord(a[0])))))
	case "sqrt":
		x.axiom(r, and(imp(or(nan(a[0]), "(< "+ord(a[0])+" 0.0)"), nan(r)), imp(and(not(nan(a[0])), "(<= 0.0 "+ord(a[0])+")"), and(not(nan(r)), "(<= 0.0 "+ord(r)+")"))))
	}
}

func (x *X) fcmp(op string, t types.Type, a, b string) string {
	s := fsuf(t)
	switch op {
	case "<":
		return "(flt" + s + " " + a + " " + b + ")"
	case "<=":
		return "(fle" + s + " " + a + " " + b + ")"
	case ">":
		return "(flt" + s + " " + b + " " + a + ")"
	case ">=":
		return "(fle" + s + " " + b + " " + a + ")"
	case "==":
		return "(feq" + s + " " + a + " " + b + ")"
	case "!=":
		return not("(feq" + s + " " + a + " " + b + ")")
	}
	fail("fcmp %s", op)
	return ""
}

// conv converts numeric values between Go types.
func (x *X) conv(v Val, to types.Type) Val {
	from := v.T
	a := v.C[0]
	switch {
	case isInt(from) && isInt(to):
		return Val{T: to, C: []string{x.wrapFrom(a, from, to)}}
	case isInt(from) && isFloat(to):
		s := fsuf(to)
		if x.bound > 0 {
			return Val{T: to, C: []string{"(i2f" + s + " " + a + ")"}}
		}
		if n, ok := bigOf(a); ok {
			f, _ := new(big.Float).SetInt(n).Float64()
			bits := 64
			if s == "32" {
				bits = 32
			}
			if new(big.Int).Abs(n).BitLen() <= 24 {
				return Val{T: to, C: []string{x.fconst(f, bits)}}
			}
		}
		n0 := len(x.items)
		r := x.def("i2f", "F"+s, "(i2f"+s+" "+a+")")
		if len(x.items) > n0 {
			lim := pow2(24)
			if s == "64" {
				lim = pow2(53)
			}
			x.axiom(r, fmt.Sprintf("(and (not (nan%s %s)) (= (ord%s %s) (rnd%s (to_real %s))) (=> (and (<= (- %s) %s) (<= %s %s)) (= (ord%s %s) (to_real %s))))", s, r, s, r, s, a, lim, a, a, lim, s, r, a))
		}
		return Val{T: to, C: []string{r}}
	case isFloat(from) && isFloat(to):
		if fsuf(from) == fsuf(to) {
			return Val{T: to, C: v.C}
		}
		f := "cvt" + fsuf(from) + "to" + fsuf(to)
		if x.bound > 0 {
			return Val{T: to, C: []string{"(" + f + " " + a + ")"}}
		}
		n0 := len(x.items)
		r := x.def("cvt", "F"+fsuf(to), "("+f+" "+a+")")
		if len(x.items) > n0 {
			x.cvtAxioms(fsuf(from), fsuf(to), r, a)
		}
		return Val{T: to, C: []string{r}}
	case isFloat(from) && isInt(to):
		k := clean(typeKey(to))
		fn := "f2i" + fsuf(from) + "_" + k
		x.declFun(fn, "(F"+fsuf(from)+") Int")
		if x.bound > 0 {
			return Val{T: to, C: []string{"(" + fn + " " + a + ")"}}
		}
		n0 := len(x.items)
		r := x.def("f2i", "Int", "("+fn+" "+a+")")
		if len(x.items) > n0 {
			n, sg := intBits(to)
			lo, hi := "(- 1)", pow2(n)
			if sg {
				lo, hi = "(- "+pow2(n-1)+")", pow2(n-1)
			}
			o := "(ord" + fsuf(from) + " " + a + ")"
			in := and(not("(nan"+fsuf(from)+" "+a+")"), "(< (to_real "+lo+") "+o+")", "(< "+o+" (to_real "+hi+"))")
			x.axiom(r, imp(in, and(imp("(<= 0.0 "+o+")", "(and (<= 0 "+r+") (<= (to_real "+r+") "+o+") (< "+o+" (+ 1.0 (to_real "+r+"))))"),
				imp("(< "+o+" 0.0)", "(and (<= "+r+" 0) (>= (to_real "+r+") "+o+") (> "+o+" (- (to_real "+r+") 1.0)))"))))
			x.axiom(r, x.wfFact(Val{T: to, C: []string{r}}, "0"))
			if n == 32 && sg && x.w.arch == "" { // CVTTSD2SL, CVTTSS2SL: the indefinite integer
				x.axiom(r, imp(not(in), eq(r, lo)))
				if x.symIdx["is32"] > 0 { // largest float32 below 1<<31
					x.axiom(r, imp("(is32 "+a+")", le(r, "2147483520")))
				}
			}
		}
		return Val{T: to, C: []string{r}}
	}
	fail("conversion %s -> %s", from, to)
	return Val{}
}

func (x *X) cvtAxioms(from, to, r, a string) {
	if from == "32" {
		x.axiom(r, fmt.Sprintf("(and (= (nan64 %s) (nan32 %s)) (=> (fin32 %s) (= (ord64 %s) (ord32 %s))) (= (cvt64to32 %s) %s) (=> (= (ord32 %s) INF32) (= (ord64 %s) INF64)) (=> (= (ord32 %s) (- INF32)) (= (ord64 %s) (- INF64))))", r, a, a, r, a, r, a, a, r, a, r))
		x.declFun("is32", "(F64) Bool")
		x.axiom(r, "(is32 "+r+")")
	} else {
		x.axiom(r, fmt.Sprintf("(and (= (nan32 %s) (nan64 %s)) (=> (fin64 %s) (= (ord32 %s) (rnd32 (ord64 %s)))))", r, a, a, r, a))
	}
}

func (x *X) wrap(a string, t types.Type) string {
	n, s := intBits(t)
	if !s {
		if c, ok := bigOf(a); ok && c.Sign() >= 0 && c.BitLen() <= n {
			return a
		}
		return "(mod " + a + " " + pow2(n) + ")"
	}
	if n == 64 {
		return a
	}
	if c, ok := bigOf(a); ok && c.BitLen() < n {
		return a
	}
	return "(- (mod (+ " + a + " " + pow2(n-1) + ") " + pow2(n) + ") " + pow2(n-1) + ")"
}

// wrapC wraps like wrap; under the contract option cutint, that the result is in range is proved at this point (as a candidate,
// dropped if it does not hold) and used from here on.
func (x *X) wrapC(a string, t types.Type, op string, pos token.Pos, node int, reach string) string {
	w := x.wrap(a, t)
	n, s := intBits(t)
	if w == a || !s || n == 64 || !x.con.Cut {
		return w
	}
	a = x.def("sum", "Int", a)
	in := and(le("(- "+pow2(n-1)+")", a), lt(a, pow2(n-1)))
	r := x.def("int", "Int", ite(in, a, x.wrap(a, t)))
	if x.dry > 0 || in == "true" {
		return r
	}
	key := fmt.Sprintf("cut|%s|%s", op, reach+in)
	if x.candKeys[key] {
		return r
	}
	x.candKeys[key] = true
	x.cuts++
	desc := fmt.Sprintf("no overflow %s %d", op, x.cuts)
	id := len(x.cands)
	x.cands = append(x.cands, Cand{desc: desc, active: true, init: true, loop: x.pos(pos), key: "cut|" + desc})
	x.oblige(Obl{name: desc, kind: "cut", fn: x.w.short(x.root), pos: x.pos(pos), node: node, reach: reach, goal: in, cand: id})
	x.assumeC(node, reach, in, id)
	return r
}

func (x *X) wrapFrom(a string, from, to types.Type) string {
	fn, fs := intBits(from)
	tn, ts := intBits(to)
	if fs == ts && fn <= tn || !fs && ts && fn < tn {
		return a
	}
	if !fs && ts && fn == 64 && tn == 64 { // uint64 -> int64: wraps
		return "(- (mod (+ " + a + " " + pow2(63) + ") " + pow2(64) + ") " + pow2(63) + ")"
	}
	return x.wrap(a, to)
}

// cat concatenates and sorts map keys.
func sortedKeys[T any](m map[string]T) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
