package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *X) call(fr *frame, c *ssa.CallCommon, rt types.Type, pos token.Pos, st *State, reach string, node int) (Val, string, int) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(fr, b, c, rt, pos, st, reach, node), reach, node
	}
	var args []Val
	if c.IsInvoke() {
		recv := x.val(fr, c.Value)
		x.obl("nil", "call on nil interface", pos, node, reach, not(eq(recv.C[0], "0")))
		args = append(args, recv)
		for _, a := range c.Args {
			args = append(args, x.val(fr, a))
		}
		name := x.w.shortType(c.Value.Type()) + "." + c.Method.Name()
		if con := x.w.contracts[name]; con != nil {
			return x.applyContract(con, nil, c.Signature(), args, pos, st, reach, node), reach, node
		}
		return x.havocCall(name, c.Signature(), args, st, reach, node, !pureIface(name)), reach, node
	}
	for _, a := range c.Args {
		args = append(args, x.val(fr, a))
	}
	callee := c.StaticCallee()
	var free []Val
	if callee == nil {
		fv := x.val(fr, c.Value)
		if fv.Fn != nil {
			callee = fv.Fn.Fn
			free = fv.Fn.Bind
		} else {
			x.obl("nil", "call of nil function", pos, node, reach, not(eq(fv.C[0], "0")))
			name := "func " + x.w.shortType(c.Value.Type())
			if con := x.w.contracts[name]; con != nil {
				return x.applyContract(con, nil, c.Signature(), append([]Val{fv}, args...), pos, st, reach, node), reach, node
			}
			return x.havocCall(name, c.Signature(), args, st, reach, node, true), reach, node
		}
	} else if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		v := x.val(fr, mc)
		free = v.Fn.Bind
	}
	if con := x.w.contractFor(callee); con != nil && !con.Inline {
		x.calls[x.w.short(callee)] = true
		return x.applyContract(con, callee, callee.Signature, args, pos, st, reach, node), reach, node
	}
	if v, ok := x.external(callee, args, st, reach, node, pos); ok {
		return v, reach, node
	}
	if x.w.inRepo(callee) && len(callee.Blocks) > 0 {
		x.inlined[x.w.short(callee)] = true
		v, r, n := x.inline(callee, args, free, st, reach, node, fr)
		return v, r, n
	}
	if len(callee.Blocks) > 0 && callee.Synthetic != "" && callee.Pkg == nil {
		// wrappers, bound methods
		v, r, n := x.inline(callee, args, free, st, reach, node, fr)
		return v, r, n
	}
	name := callee.String()
	return x.havocCall(name, callee.Signature, args, st, reach, node, !pureExternal(callee)), reach, node
}

func (x *X) inline(fn *ssa.Function, args, free []Val, st *State, reach string, node int, up *frame) (Val, string, int) {
	rets := x.run(fn, args, free, st.copy(), reach, node, up)
	if len(rets) == 0 { // never returns
		x.note("call of %s never returns", fn)
		return Val{T: fn.Signature.Results(), C: []string{"0"}}, "false", node
	}
	var es []edge
	var preds []int
	var conds []string
	for _, r := range rets {
		es = append(es, edge{r.node, r.cond, r.st, nil})
		preds = append(preds, r.node)
		conds = append(conds, r.cond)
	}
	m := x.merge(es)
	st.h, st.alloc = m.h, m.alloc
	n := x.newNode(preds...)
	rr := x.def("r", "Bool", or(conds...))
	res := fn.Signature.Results()
	var vals []Val
	for k := 0; k < res.Len(); k++ {
		var vs []Val
		for _, r := range rets {
			vs = append(vs, r.vals[k])
		}
		vals = append(vals, x.iteVals("res", res.At(k).Type(), es, vs))
	}
	return tuple(res, vals), rr, n
}

func tuple(res *types.Tuple, vals []Val) Val {
	switch len(vals) {
	case 0:
		return Val{T: res}
	case 1:
		return vals[0]
	}
	t := Val{T: res, F: vals}
	for _, v := range vals {
		t.C = append(t.C, v.C...)
	}
	return t
}

func resType(sig *types.Signature) types.Type {
	switch sig.Results().Len() {
	case 0:
		return types.NewTuple()
	case 1:
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

func pureIface(name string) bool {
	for _, p := range []string{"error.", "io.Writer.", "io.Reader.", "io.Closer.", "sync.", "fmt.", "image.", "color.", "image/color.", "context."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func pureExternal(f *ssa.Function) bool {
	if f.Pkg == nil || f.Pkg.Pkg == nil {
		return f.Pkg == nil && false
	}
	p := f.Pkg.Pkg.Path()
	switch p {
	case "fmt", "math", "strings", "strconv", "errors", "time", "runtime", "runtime/debug", "sync", "log", "os", "path/filepath", "path", "unicode", "regexp", "bufio", "io", "encoding/json", "image", "image/color", "compress/gzip", "math/rand", "bytes":
		return true
	}
	return strings.HasPrefix(p, "github.com/pbnjay/") || strings.HasPrefix(p, "github.com/valyala/") || strings.HasPrefix(p, "github.com/klauspost/")
}

// havocCall models a call with unknown body: arbitrary well-formed results; heap unchanged when
// the callee is assumed not to write tracked memory, otherwise everything is havocked.
func (x *X) havocCall(name string, sig *types.Signature, args []Val, st *State, reach string, node int, effects bool) Val {
	if effects {
		x.note("call of %s: unknown effects, all memory havocked", name)
		x.havocAll(st, node)
	} else {
		x.note("call of %s: arbitrary result, assumed not to write memory tracked here", name)
		// byte buffers handed to external readers are overwritten
		for _, a := range args {
			if s, ok := a.T.Underlying().(*types.Slice); ok && (strings.Contains(name, "Read") || strings.Contains(name, "Put")) {
				x.havocRange(st, s.Elem(), a, node, reach)
			}
		}
	}
	na := x.fresh("alloc", "Int")
	x.assume(node, "true", le(st.alloc, na))
	st.alloc = na
	x.logAlloc()
	return x.havocVal(resType(sig), "call", node, reach, st)
}

// havocRange makes the elements of slice s arbitrary, leaving the rest of the array unchanged.
func (x *X) havocRange(st *State, et types.Type, s Val, node int, reach string) {
	for _, l := range x.locs(et, s.C[0], "0") {
		if l.b != s.C[0] {
			fail("havoc of nested aggregate elements")
		}
		h := x.heap(st, l.key, l.sort)
		old := x.selB(h, l.b, l.sort)
		a := x.fresh("A"+l.key, arraySort(l.sort))
		end := x.endOf(s.C[1], s.C[2])
		x.assume(node, "true", fmt.Sprintf("(forall ((j Int)) (! (=> (or (< j %s) (<= %s j)) (= (select %s j) (select %s j))) :pattern ((select %s j)) :pattern ((select %s j))))", s.C[1], end, a, old, a, old))
		if l.sort == "F32" || l.sort == "F64" || l.sort == "Int" {
			x.assume(node, "true", fmt.Sprintf("(forall ((lo Int) (hi Int) (w %s)) (! (=> (or (<= hi %s) (<= %s lo)) (= (cnt%s %s lo hi w) (cnt%s %s lo hi w))) :pattern ((cnt%s %s lo hi w)) :pattern ((cnt%s %s lo hi w))))", l.sort, s.C[1], end, l.sort, a, l.sort, old, l.sort, a, l.sort, old))
			// instances of the splitting axiom at the borders of the modified range
			for _, ar := range []string{a, old} {
				if !atomRe.MatchString(ar) {
					continue
				}
				c := "cnt" + l.sort + " " + ar
				x.assume(node, "true", fmt.Sprintf("(forall ((lo Int) (hi Int) (w %s)) (! (=> (and (<= lo %s) (<= %s %s) (<= %s hi)) (= (%s lo hi w) (+ (%s lo %s w) (%s %s %s w) (%s %s hi w)))) :pattern ((%s lo hi w))))", l.sort, s.C[1], s.C[1], end, end, c, c, s.C[1], c, s.C[1], end, c, end, c))
			}
		}
		x.rangeFactsArr(l.key, a, st.alloc, node)
		x.logMod(l.key, l.b)
		st.h[l.key] = x.stoB(l.key, l.sort, h, l.b, a)
	}
}

// applyContract replaces a call by its contract: check requires, havoc modifies, assume ensures.
func (x *X) applyContract(con *Contract, fn *ssa.Function, sig *types.Signature, args []Val, pos token.Pos, st *State, reach string, node int) Val {
	env := map[string]Val{}
	for i, p := range con.Params {
		if i < len(args) {
			env[p] = args[i]
		}
	}
	pre := st.copy()
	ev := &specEnv{x: x, vars: env, st: pre, old: pre, pre: pre, node: node, con: con}
	nm := con.Name
	if !con.Trusted || fn != nil {
		for i, a := range args {
			if _, ok := a.T.Underlying().(*types.Pointer); ok && i < len(con.Params) && !con.Nullable[con.Params[i]] {
				x.obl("nil", "nil argument to "+nm, pos, node, reach, not(eq(a.C[0], "0")))
			}
		}
	}
	for _, r := range con.Requires {
		x.obl("requires", "precondition of "+nm+": "+r.Name, pos, node, reach, ev.boolean(r.Expr))
	}
	// aliasing discipline: a modified slice argument must not share its array with other slice arguments
	mods := con.Mods(ev)
	if !con.Alias {
		for _, m := range mods {
			if m.slice == nil {
				continue
			}
			for ai, a := range args {
				s, ok := a.T.Underlying().(*types.Slice)
				if !ok || ai < len(con.Params) && con.Params[ai] == m.root || strings.Join(a.C[:3], ",") == strings.Join(m.slice.C[:3], ",") || !types.Identical(s.Elem().Underlying(), m.slice.T.Underlying().(*types.Slice).Elem().Underlying()) {
					continue
				}
				x.obl("alias", "modified slice does not overlap another slice argument of "+nm, pos, node, reach,
					or(not(eq(a.C[0], m.slice.C[0])), eq(a.C[2], "0"), eq(m.slice.C[2], "0"), le(add(a.C[1], a.C[2]), m.slice.C[1]), le(add(m.slice.C[1], m.slice.C[2]), a.C[1])))
			}
		}
	}
	if con.ModAny {
		x.havocAll(st, node)
	}
	for _, m := range mods {
		x.applyMod(m, st, node, reach, pre)
	}
	if !con.NoAlloc {
		na := x.fresh("alloc", "Int")
		x.assume(node, "true", le(st.alloc, na))
		st.alloc = na
		x.logAlloc()
	}
	res := x.havocVal(resType(sig), "res", node, reach, st)
	post := &specEnv{x: x, vars: map[string]Val{}, st: st, old: pre, pre: pre, node: node, con: con}
	for k, v := range env {
		post.vars[k] = v
	}
	if len(res.F) > 0 {
		for i, r := range con.Results {
			post.vars[r] = res.F[i]
		}
	} else if len(con.Results) == 1 {
		post.vars[con.Results[0]] = res
	}
	for _, e := range con.Ensures {
		x.assume(node, reach, post.boolean(e.Expr))
	}
	if con.Trusted {
		x.note("contract of %s is assumed (not verified)", con.Name)
		x.calls["trusted "+con.Name] = true
	}
	return res
}

type modTarget struct {
	slice *Val
	locs  []loc
	all   bool // every object's field, not only the one named
	root  string
}

func (x *X) applyMod(m modTarget, st *State, node int, reach string, pre *State) {
	if m.slice != nil {
		x.havocRange(st, m.slice.T.Underlying().(*types.Slice).Elem(), *m.slice, node, reach)
		return
	}
	for _, l := range m.locs {
		if m.all {
			srt := l.sort
			if l.arr {
				srt = strings.TrimSuffix(strings.TrimPrefix(l.sort, "(Array Int "), ")")
			}
			x.heap(st, l.key, srt)
			nh := x.fresh("H"+l.key, arraySort(arraySort(srt)))
			x.rangeFacts(l.key, nh, st.alloc, node)
			x.logMod(l.key, "?")
			st.h[l.key] = nh
			continue
		}
		if l.arr {
			es := strings.TrimSuffix(strings.TrimPrefix(l.sort, "(Array Int "), ")")
			x.writeLoc(st, l, x.fresh("hv", arraySort(es)))
			continue
		}
		v := x.fresh("hv", l.sort)
		if strings.HasSuffix(l.key, ".len") || strings.HasSuffix(l.key, ".off") || strings.HasSuffix(l.key, ".base") {
			x.assume(node, "true", le("0", v))
		}
		x.writeLoc(st, l, v)
	}
}

func (x *X) builtin(fr *frame, b *ssa.Builtin, c *ssa.CallCommon, rt types.Type, pos token.Pos, st *State, reach string, node int) Val {
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.val(fr, a))
	}
	one := func(s string) Val { return Val{T: rt, C: []string{s}} }
	switch b.Name() {
	case "len", "cap":
		switch u := args[0].T.Underlying().(type) {
		case *types.Slice:
			if b.Name() == "len" {
				return one(args[0].C[2])
			}
			return one(args[0].C[3])
		case *types.Basic:
			t := "(strlen " + args[0].C[0] + ")"
			x.assume(node, "true", le("0", t))
			return one(t)
		case *types.Array:
			return one(fmt.Sprint(u.Len()))
		case *types.Pointer:
			return one(fmt.Sprint(u.Elem().Underlying().(*types.Array).Len()))
		default:
			r := x.fresh("len", "Int")
			x.assume(node, "true", le("0", r))
			return one(r)
		}
	case "append":
		return x.appendOp(args, c, rt, st, reach, node)
	case "copy":
		return x.copyOp(args, st, reach, node, rt)
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			if isInt(rt) {
				if b.Name() == "min" {
					r = one(ite(le(r.C[0], a.C[0]), r.C[0], a.C[0]))
				} else {
					r = one(ite(le(a.C[0], r.C[0]), r.C[0], a.C[0]))
				}
			} else {
				fail("float min/max builtin")
			}
		}
		return r
	case "close", "print", "println", "delete":
		return Val{T: rt}
	case "ssa:wrapnilchk":
		return args[0]
	case "clear":
		fail("clear")
	}
	fail("builtin %s", b.Name())
	return Val{}
}

func (x *X) appendOp(args []Val, c *ssa.CallCommon, rt types.Type, st *State, reach string, node int) Val {
	s, t := args[0], args[1]
	et := rt.Underlying().(*types.Slice).Elem()
	if isString(t.T) {
		fail("append of string bytes")
	}
	n := t.C[2]
	newLen := x.def("len", "Int", add(s.C[2], n))
	fits := x.def("fits", "Bool", le(newLen, s.C[3]))
	fb := x.newBase(st, "app")
	x.assume(node, "true", lt("0", fb))
	base := x.def("appb", "Int", ite(fits, s.C[0], fb))
	off := x.def("appo", "Int", ite(fits, s.C[1], "0"))
	ncap := x.fresh("cap", "Int")
	x.assume(node, "true", and(le(newLen, ncap), imp(fits, eq(ncap, s.C[3]))))
	var single bool
	if v, ok := bigOf(n); ok && v.IsInt64() && v.Int64() == 1 {
		single = true
	}
	for _, l := range x.locs(et, base, "0") {
		if l.b != base {
			x.note("append of elements with nested aggregates: nested parts not modelled")
			continue
		}
		h := x.heap(st, l.key, l.sort)
		oldA := x.selB(h, s.C[0], l.sort)
		cp := x.fresh("cp", arraySort(l.sort))
		o := s.C[1]
		if o == "0" {
			x.assume(node, "true", fmt.Sprintf("(forall ((j Int)) (! (=> (and (<= 0 j) (< j %s)) (= (select %s j) (select %s j))) :pattern ((select %s j)) :pattern ((select %s j))))", s.C[2], cp, oldA, cp, oldA))
			if l.sort == "F32" || l.sort == "F64" || l.sort == "Int" {
				x.assume(node, "true", fmt.Sprintf("(forall ((lo Int) (hi Int) (w %s)) (! (=> (and (<= 0 lo) (<= hi %s)) (= (cnt%s %s lo hi w) (cnt%s %s lo hi w))) :pattern ((cnt%s %s lo hi w))))", l.sort, s.C[2], l.sort, cp, l.sort, oldA, l.sort, cp))
			}
		} else {
			x.assume(node, "true", fmt.Sprintf("(forall ((j Int)) (! (=> (and (<= 0 j) (< j %s)) (= (select %s j) (select %s (+ %s j)))) :pattern ((select %s j))))", s.C[2], cp, oldA, o, cp))
			x.assume(node, "true", fmt.Sprintf("(forall ((k Int)) (! (=> (and (<= %s k) (< k (+ %s %s))) (= (select %s (- k %s)) (select %s k))) :pattern ((select %s k))))", o, o, s.C[2], cp, o, oldA, oldA))
		}
		start := x.defc("B", arraySort(l.sort), ite(fits, oldA, cp))
		var res string
		srcA := x.selB(h, t.C[0], l.sort)
		if single {
			pos0 := x.def("ap", "Int", add(off, s.C[2]))
			v := sel(srcA, t.C[1])
			res = x.defc("A", arraySort(l.sort), sto(start, pos0, v))
			if l.sort == "F32" || l.sort == "F64" || l.sort == "Int" {
				x.cntAxiom(res, start, pos0, v, l.sort)
			}
		} else {
			res = x.fresh("A"+l.key, arraySort(l.sort))
			srcD := srcA
			lo := x.def("ap", "Int", add(off, s.C[2]))
			hi := add(lo, n)
			x.assume(node, "true", fmt.Sprintf("(forall ((j Int)) (! (and (=> (or (< j %s) (<= %s j)) (= (select %s j) (select %s j))) (=> (and (<= %s j) (< j %s)) (= (select %s j) (select %s (+ %s (- j %s)))))) :pattern ((select %s j))))",
				lo, hi, res, start, lo, hi, res, srcD, t.C[1], lo, res))
			x.assume(node, "true", fmt.Sprintf("(forall ((j Int)) (! (=> (and (<= %s j) (< j (+ %s %s))) (= (select %s (+ %s (- j %s))) (select %s j))) :pattern ((select %s j))))", t.C[1], t.C[1], n, res, lo, t.C[1], srcD, srcD))
		}
		x.logMod(l.key, base)
		st.h[l.key] = x.stoB(l.key, l.sort, h, base, res)
	}
	return Val{T: rt, C: []string{base, off, newLen, ncap}}
}

func (x *X) copyOp(args []Val, st *State, reach string, node int, rt types.Type) Val {
	d, s := args[0], args[1]
	if isString(s.T) {
		fail("copy from string")
	}
	et := d.T.Underlying().(*types.Slice).Elem()
	n := x.def("ncopy", "Int", ite(le(d.C[2], s.C[2]), d.C[2], s.C[2]))
	for _, l := range x.locs(et, d.C[0], "0") {
		if l.b != d.C[0] {
			fail("copy of nested aggregates")
		}
		h := x.heap(st, l.key, l.sort)
		oldA := x.selB(h, d.C[0], l.sort)
		src := x.selB(h, s.C[0], l.sort)
		a := x.fresh("A"+l.key, arraySort(l.sort))
		lo := d.C[1]
		hi := add(lo, n)
		idx := "(+ j (- " + s.C[1] + " " + lo + "))"
		if lo == s.C[1] {
			idx = "j"
		}
		x.assume(node, "true", fmt.Sprintf("(forall ((j Int)) (! (and (=> (or (< j %s) (<= %s j)) (= (select %s j) (select %s j))) (=> (and (<= %s j) (< j %s)) (= (select %s j) (select %s %s)))) :pattern ((select %s j))))",
			lo, hi, a, oldA, lo, hi, a, src, idx, a))
		if l.sort == "F32" || l.sort == "F64" || l.sort == "Int" {
			x.assume(node, "true", fmt.Sprintf("(forall ((lo Int) (hi Int) (w %s)) (! (=> (and (<= %s lo) (<= hi %s)) (= (cnt%s %s lo hi w) (cnt%s %s (+ lo (- %s %s)) (+ hi (- %s %s)) w))) :pattern ((cnt%s %s lo hi w))))", l.sort, lo, hi, l.sort, a, l.sort, src, s.C[1], lo, s.C[1], lo, l.sort, a))
			x.assume(node, "true", fmt.Sprintf("(forall ((lo Int) (hi Int) (w %s)) (! (=> (or (<= hi %s) (<= %s lo)) (= (cnt%s %s lo hi w) (cnt%s %s lo hi w))) :pattern ((cnt%s %s lo hi w))))", l.sort, lo, hi, l.sort, a, l.sort, oldA, l.sort, a))
		}
		x.rangeFactsArr(l.key, a, st.alloc, node)
		x.logMod(l.key, d.C[0])
		st.h[l.key] = x.stoB(l.key, l.sort, h, d.C[0], a)
	}
	return Val{T: rt, C: []string{n}}
}

// external models library functions precisely enough for the contracts.
func (x *X) external(f *ssa.Function, args []Val, st *State, reach string, node int, pos token.Pos) (Val, bool) {
	sig := f.Signature
	rt := resType(sig)
	uf := func(name string) (Val, bool) {
		sfx := ""
		for _, a := range args {
			for _, c := range compsOf(a.T) {
				sfx += " " + c.Sort
			}
		}
		cs := compsOf(rt)
		x.declFun(name, "("+strings.TrimSpace(sfx)+") "+cs[0].Sort)
		t := name
		var as []string
		for _, a := range args {
			as = append(as, a.C...)
		}
		if len(as) > 0 {
			t = "(" + name + " " + strings.Join(as, " ") + ")"
		}
		return Val{T: rt, C: []string{x.def("m", cs[0].Sort, t)}}, true
	}
	switch f.String() {
	case "math.IsNaN":
		return Val{T: rt, C: []string{"(nan64 " + args[0].C[0] + ")"}}, true
	case "math.IsInf":
		o := "(ord64 " + args[0].C[0] + ")"
		return Val{T: rt, C: []string{and(not("(nan64 "+args[0].C[0]+")"), or(and(le("0", args[1].C[0]), eq(o, "INF64")), and(le(args[1].C[0], "0"), eq(o, "(- INF64)"))))}}, true
	case "math.Abs":
		return x.fop("abs", rt, args[0]), true
	case "math.Sqrt":
		return x.fop("sqrt", rt, args[0]), true
	case "math.NaN":
		return Val{T: rt, C: []string{"qnan64"}}, true
	case "math.Inf":
		return Val{T: rt, C: []string{ite(le("0", args[0].C[0]), x.fconst(inf(1), 64), x.fconst(inf(-1), 64))}}, true
	case "math.Float32frombits", "math.Float64frombits", "math.Float32bits", "math.Float64bits":
		v, _ := uf("m_" + clean(f.Name()))
		r := v.C[0]
		inv := map[string]string{"Float32frombits": "Float32bits", "Float32bits": "Float32frombits", "Float64frombits": "Float64bits", "Float64bits": "Float64frombits"}[f.Name()]
		s := map[string]string{"Float32frombits": "(F32) Int", "Float32bits": "(Int) F32", "Float64frombits": "(F64) Int", "Float64bits": "(Int) F64"}[f.Name()]
		x.declFun("m_"+inv, s)
		x.axiom(r, eq("(m_"+inv+" "+r+")", args[0].C[0]))
		if strings.HasSuffix(f.Name(), "frombits") {
			_ = r
		} else {
			x.axiom(r, x.wfFact(v, "0"))
		}
		return v, true
	case "math.Max", "math.Min":
		a, b := args[0].C[0], args[1].C[0]
		c := "(fle64 " + b + " " + a + ")"
		if f.Name() == "Min" {
			c = "(fle64 " + a + " " + b + ")"
		}
		r := x.def("mx", "F64", ite(or("(nan64 "+a+")", "(nan64 "+b+")"), "qnan64", ite(c, a, b)))
		x.note("math.%s: sign of zero not distinguished", f.Name())
		return Val{T: rt, C: []string{r}}, true
	case "math.Floor", "math.Ceil", "math.Round", "math.Trunc":
		v, _ := uf("m_" + f.Name())
		r, a := v.C[0], args[0].C[0]
		var o string
		oa := "(ord64 " + a + ")"
		switch f.Name() {
		case "Floor":
			o = "(to_real (to_int " + oa + "))"
		case "Ceil":
			o = "(- (to_real (to_int (- " + oa + "))))"
		case "Round":
			o = ite("(<= 0.0 "+oa+")", "(to_real (to_int (+ "+oa+" 0.5)))", "(- (to_real (to_int (+ (- "+oa+") 0.5))))")
		case "Trunc":
			o = ite("(<= 0.0 "+oa+")", "(to_real (to_int "+oa+"))", "(- (to_real (to_int (- "+oa+"))))")
		}
		x.axiom(r, and(eq("(nan64 "+r+")", "(nan64 "+a+")"), imp("(fin64 "+a+")", eq("(ord64 "+r+")", o))))
		if x.symIdx["is32"] > 0 { // integers next to a float32 are float32 values
			x.axiom(r, imp("(is32 "+a+")", "(is32 "+r+")"))
		}
		return v, true
	case "math.Pow", "math.Exp", "math.Log", "math.Sin", "math.Cos", "math.Tan", "math.Atan2", "math.Log10", "math.Log2", "math.Cbrt", "math.Mod", "math.Hypot", "math.Atan", "math.Asin", "math.Acos", "math.Exp2", "math.Log1p":
		return uf("m_" + f.Name())
	case "runtime.NumCPU", "runtime.GOMAXPROCS":
		r := x.fresh("ncpu", "Int")
		x.assume(node, "true", le("1", r))
		return Val{T: rt, C: []string{r}}, true
	case "errors.New", "fmt.Errorf":
		na := x.fresh("err", "Int")
		x.assume(node, "true", lt("0", na))
		return Val{T: rt, C: []string{na}}, true
	case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "strings.EqualFold":
		return uf("s_" + f.Name())
	case "strings.ToLower", "strings.ToUpper", "strings.TrimSpace", "path/filepath.Clean", "path/filepath.Ext", "path/filepath.Base", "path/filepath.ToSlash":
		return uf("s_" + f.Name())
	case "path/filepath.IsAbs":
		return uf("s_IsAbs")
	}
	if p := f.Pkg; p != nil && p.Pkg.Path() == "sync" || strings.HasPrefix(f.String(), "(*sync.") {
		return Val{T: rt}, true
	}
	return Val{}, false
}
