package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type edge struct {
	node int
	cond string
	st   *State
	from *ssa.BasicBlock
}

type ret struct {
	node int
	cond string
	st   *State
	vals []Val
	pos  token.Pos
}

type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	parent *loopInfo
}

type loopCtx struct {
	no     int
	li     *loopInfo
	fr     *frame
	phis   []*ssa.Phi
	phiVal []Val
	cands  []candInst
	name   string
	pre    *State // state on loop entry
	head   *State // havocked state at the header
	dry    bool
	tried  bool
}

type candInst struct {
	id   int
	eval func(fr *frame, phi map[*ssa.Phi]Val, st *State) string // as fact or goal
	desc string
}

type frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	order  []*ssa.BasicBlock
	loops  map[*ssa.BasicBlock]*loopInfo // by header
	inner  map[*ssa.BasicBlock]*loopInfo // innermost loop of block
	free   []Val
	prefix string
	defers []*ssa.Defer
	rets   []ret
	active map[*ssa.BasicBlock]*loopCtx
	names  map[ssa.Value]string
	up     *frame
	cur    *ssa.BasicBlock // block being executed
	curPos int             // and the instruction in it
}

func newFrame(fn *ssa.Function) *frame {
	fr := &frame{fn: fn, env: map[ssa.Value]Val{}, loops: map[*ssa.BasicBlock]*loopInfo{}, inner: map[*ssa.BasicBlock]*loopInfo{}, active: map[*ssa.BasicBlock]*loopCtx{}, names: map[ssa.Value]string{}}
	// reverse postorder
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fr.order = append(fr.order, post[i])
	}
	for _, b := range fr.order {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge
				li := fr.loops[s]
				if li == nil {
					li = &loopInfo{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					fr.loops[s] = li
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					c := work[len(work)-1]
					work = work[:len(work)-1]
					if li.body[c] || !seen[c] {
						continue
					}
					li.body[c] = true
					work = append(work, c.Preds...)
				}
			}
		}
	}
	for _, b := range fr.order {
		var best *loopInfo
		for _, li := range fr.loops {
			if li.body[b] && (best == nil || len(li.body) < len(best.body)) {
				best = li
			}
		}
		fr.inner[b] = best
	}
	for h, li := range fr.loops {
		for h2, l2 := range fr.loops {
			if h2 != h && l2.body[h] && (li.parent == nil || len(l2.body) < len(li.parent.body)) {
				li.parent = l2
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.DebugRef); ok && !d.IsAddr {
				if id, ok := d.Expr.(interface{ String() string }); ok {
					n := id.String()
					if o := d.Object(); o != nil {
						n = o.Name()
						if _, has := fr.names[d.X]; !has {
							fr.names[d.X] = n
						}
					}
				}
			}
			if p, ok := in.(*ssa.Phi); ok && p.Comment != "" {
				fr.names[p] = p.Comment
			}
		}
	}
	return fr
}

func (x *X) val(fr *frame, v ssa.Value) Val {
	if r, ok := fr.env[v]; ok {
		return r
	}
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Function:
		return Val{T: c.Type(), C: []string{x.fnId(c)}, Fn: &Closure{Fn: c}}
	case *ssa.Global:
		// address of a package variable
		n := "glob_" + clean(c.String())
		x.declFun(n, "() Int")
		t := x.w.tagOf(n)
		return Val{T: c.Type(), C: []string{fmt.Sprintf("(- %d)", 1000000+t), "0"}}
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == c {
				return fr.free[i]
			}
		}
	case *ssa.Builtin:
		return Val{T: c.Type(), C: []string{"0"}}
	}
	fail("value %s (%T) not available", v.Name(), v)
	return Val{}
}

func (x *X) fnId(f *ssa.Function) string {
	return fmt.Sprint(1000 + x.w.tagOf("fn:"+f.String()))
}

// run executes a function body symbolically; it returns its return points.
func (x *X) run(fn *ssa.Function, args []Val, free []Val, st *State, reach string, node int, up *frame) []ret {
	if len(fn.Blocks) == 0 {
		fail("no body: %s", fn)
	}
	for _, f := range x.stack {
		if f == fn {
			fail("recursive inlining of %s (no contract)", fn)
		}
	}
	if len(x.stack) > 14 {
		fail("inlining too deep at %s", fn)
	}
	x.stack = append(x.stack, fn)
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	fr := newFrame(fn)
	fr.up = up
	fr.free = free
	for i, p := range fn.Params {
		fr.env[p] = args[i]
		fr.names[p] = p.Name()
	}
	in := map[*ssa.BasicBlock][]edge{fn.Blocks[0]: {{node, reach, st, nil}}}
	x.blocks(fr, fr.order, in, nil)
	return fr.rets
}

// blocks processes blocks (in RPO, restricted to `order`), given incoming edges.
// Edges leaving `order` are dropped (dry runs).
func (x *X) blocks(fr *frame, order []*ssa.BasicBlock, in map[*ssa.BasicBlock][]edge, skipHeader *ssa.BasicBlock) {
	for _, b := range order {
		es := in[b]
		var live []edge
		for _, e := range es {
			if e.cond != "false" {
				live = append(live, e)
			}
		}
		if len(live) == 0 {
			continue
		}
		var preds []int
		var conds []string
		for _, e := range live {
			preds = append(preds, e.node)
			conds = append(conds, e.cond)
		}
		node := x.newNode(preds...)
		reach := x.def("r", "Bool", or(conds...))
		st := x.merge(live)
		// phi values from entering edges
		phis := phisOf(b)
		entry := map[*ssa.Phi]Val{}
		for _, p := range phis {
			entry[p] = x.mergePhi(fr, p, b, live)
		}
		if li := fr.loops[b]; li != nil && b != skipHeader {
			x.enterLoop(fr, li, phis, entry, st, reach, node, order)
			lc := fr.active[b]
			st = lc.head.copy()
			for i, p := range phis {
				fr.env[p] = lc.phiVal[i]
			}
		} else if b != skipHeader {
			for _, p := range phis {
				fr.env[p] = entry[p]
			}
		}
		x.block(fr, b, st, reach, node, in)
	}
}

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var r []*ssa.Phi
	for _, i := range b.Instrs {
		if p, ok := i.(*ssa.Phi); ok {
			r = append(r, p)
		}
	}
	return r
}

func (x *X) merge(es []edge) *State {
	if len(es) == 1 {
		return es[0].st.copy()
	}
	st := &State{h: map[string]string{}}
	keys := map[string]bool{}
	for _, e := range es {
		for k := range e.st.h {
			keys[k] = true
		}
	}
	for _, k := range sortedKeys(keys) {
		srt := x.heapSort[k]
		var hs []string
		for _, e := range es {
			hs = append(hs, x.heap(e.st, k, srt))
		}
		st.h[k] = x.mergeHeaps(k, srt, hs, es)
	}
	ep, same := es[0].st.ep, true
	for _, e := range es {
		same = same && e.st.ep == ep
	}
	a := es[len(es)-1].st.alloc
	for i := len(es) - 2; i >= 0; i-- {
		a = ite(es[i].cond, es[i].st.alloc, a)
	}
	st.alloc = x.def("alloc", "Int", a)
	if st.ep = ep; !same {
		x.newEpoch(st)
	}
	return st
}

// mergeHeaps joins heap versions; versions that differ only at known bases stay a store chain.
func (x *X) mergeHeaps(k, srt string, hs []string, es []edge) string {
	same := true
	for _, h := range hs {
		if h != hs[0] {
			same = false
		}
	}
	if same {
		return hs[0]
	}
	// nearest common ancestor
	anc := ""
	for h := hs[0]; ; {
		all := true
		for _, g := range hs[1:] {
			found := false
			for {
				if g == h {
					found = true
					break
				}
				r, ok := x.rec[g]
				if !ok {
					break
				}
				g = r.prev
			}
			if !found {
				all = false
				break
			}
		}
		if all {
			anc = h
			break
		}
		r, ok := x.rec[h]
		if !ok {
			break
		}
		h = r.prev
	}
	if anc != "" {
		bases := []string{}
		seen := map[string]bool{}
		for _, h := range hs {
			var own []string
			for g := h; g != anc; g = x.rec[g].prev {
				b := x.rec[g].b
				if !seen[b] {
					seen[b] = true
					own = append([]string{b}, own...)
				}
			}
			bases = append(bases, own...)
		}
		h := anc
		for _, b := range bases {
			t := x.selB(hs[len(hs)-1], b, srt)
			for i := len(hs) - 2; i >= 0; i-- {
				t = ite(es[i].cond, x.selB(hs[i], b, srt), t)
			}
			h = x.stoB(k, srt, h, b, x.defc("Am", arraySort(srt), t))
		}
		return h
	}
	t := hs[len(hs)-1]
	for i := len(hs) - 2; i >= 0; i-- {
		t = ite(es[i].cond, hs[i], t)
	}
	return x.defc("Hm", arraySort(arraySort(srt)), t)
}

func (x *X) mergePhi(fr *frame, p *ssa.Phi, b *ssa.BasicBlock, es []edge) Val {
	var vs []Val
	for _, e := range es {
		found := false
		for i, pr := range b.Preds {
			if pr == e.from {
				vs = append(vs, x.val(fr, p.Edges[i]))
				found = true
				break
			}
		}
		if !found {
			fail("phi edge")
		}
	}
	return x.iteVals(fr.names[p], p.Type(), es, vs)
}

func (x *X) iteVals(hint string, t types.Type, es []edge, vs []Val) Val {
	r := Val{T: t}
	cs := compsOf(t)
	last := vs[len(vs)-1]
	if len(vs) == 1 {
		last.T = t
		return last
	}
	same := true
	for _, v := range vs {
		if v.Fn == nil || last.Fn == nil || v.Fn.Fn != last.Fn.Fn || len(v.Fn.Bind) > 0 {
			same = false
		}
	}
	if same {
		r.Fn = last.Fn
	}
	for k := range cs {
		tm := last.C[k]
		for i := len(vs) - 2; i >= 0; i-- {
			tm = ite(es[i].cond, vs[i].C[k], tm)
		}
		r.C = append(r.C, x.def(hint, cs[k].Sort, tm))
	}
	return r
}

func (x *X) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := x.w.fset.Position(p)
	f := q.Filename
	f = strings.TrimPrefix(f, x.w.repo+"/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (x *X) obl(kind, name string, pos token.Pos, node int, reach, goal string) {
	if goal == "true" && kind != "ensures" {
		return
	}
	x.oblige(Obl{name: name, kind: kind, fn: x.w.short(x.root), pos: x.pos(pos), node: node, reach: reach, goal: goal, cand: -1})
	x.assume(node, reach, goal)
}

func (x *X) setEdge(fr *frame, b *ssa.BasicBlock, succ *ssa.BasicBlock, cond string, st *State, node int, in map[*ssa.BasicBlock][]edge) {
	if lc := fr.active[succ]; lc != nil && succ.Dominates(b) {
		x.backEdge(fr, lc, b, cond, st, node)
		return
	}
	in[succ] = append(in[succ], edge{node, cond, st, b})
}

func (x *X) block(fr *frame, b *ssa.BasicBlock, st *State, reach string, node int, in map[*ssa.BasicBlock][]edge) {
	fr.cur = b
	for pos, ins := range b.Instrs {
		fr.cur, fr.curPos = b, pos
		switch i := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Jump:
			x.setEdge(fr, b, b.Succs[0], reach, st, node, in)
		case *ssa.If:
			c := x.val(fr, i.Cond).C[0]
			t := x.def("e", "Bool", and(reach, c))
			f := x.def("e", "Bool", and(reach, not(c)))
			if b.Succs[0] == b.Succs[1] {
				x.setEdge(fr, b, b.Succs[0], reach, st, node, in)
				continue
			}
			// separate nodes per edge keep branch-local facts apart
			x.setEdge(fr, b, b.Succs[0], t, st.copy(), node, in)
			x.setEdge(fr, b, b.Succs[1], f, st.copy(), node, in)
		case *ssa.Return:
			var vs []Val
			for _, r := range i.Results {
				vs = append(vs, x.val(fr, r))
			}
			fr.rets = append(fr.rets, ret{node, reach, st, vs, i.Pos()})
		case *ssa.Panic:
			x.obl("panic", "explicit panic unreachable", i.Pos(), node, reach, "false")
		default:
			reach, node = x.instr(fr, ins, st, reach, node)
		}
	}
}

func (x *X) set(fr *frame, v ssa.Value, r Val) {
	hint := fr.names[v]
	cs := compsOf(v.Type())
	if _, isT := v.Type().(*types.Tuple); !isT {
		for k := range r.C {
			if k < len(cs) {
				r.C[k] = x.def(hint, cs[k].Sort, r.C[k])
			}
		}
	}
	if r.T == nil {
		r.T = v.Type()
	}
	fr.env[v] = r
}

func (x *X) nonNil(p Val, pos token.Pos, node int, reach, what string) {
	if strings.HasPrefix(p.C[0], "(- 1") {
		return
	}
	x.obl("nil", "nil dereference: "+what, pos, node, reach, not(eq(p.C[0], "0")))
}

// addr resolves an address-valued SSA value to heap locations plus the pointee type.
func (x *X) addrLocs(fr *frame, v ssa.Value) ([]loc, types.Type) {
	pt := v.Type().Underlying().(*types.Pointer).Elem()
	if fa, ok := v.(*ssa.FieldAddr); ok {
		st := fa.X.Type().Underlying().(*types.Pointer).Elem()
		f := st.Underlying().(*types.Struct).Field(fa.Field)
		switch f.Type().Underlying().(type) {
		case *types.Struct, *types.Array:
		default:
			p := x.val(fr, fa.X)
			return x.fieldLocs(typeKey(st), f, p.C[0], p.C[1]), pt
		}
	}
	p := x.val(fr, v)
	return x.locs(pt, p.C[0], p.C[1]), pt
}

func (x *X) instr(fr *frame, ins ssa.Instruction, st *State, reach string, node int) (string, int) {
	switch i := ins.(type) {
	case *ssa.Alloc:
		b := x.newBase(st, "new"+i.Comment)
		t := i.Type().Underlying().(*types.Pointer).Elem()
		if x.aggregateArrayOfStruct(t) {
			// element fields unknown (not zeroed): sound over-approximation
			x.note("zero-initialisation of %s not modelled", t)
		} else {
			x.storeAt(st, t, b, "0", x.zeroVal(t))
		}
		x.assume(node, "true", lt("0", b))
		x.set(fr, i, Val{T: i.Type(), C: []string{b, "0"}})
	case *ssa.FieldAddr:
		p := x.val(fr, i.X)
		x.nonNil(p, i.Pos(), node, reach, i.X.Name())
		s := i.X.Type().Underlying().(*types.Pointer).Elem()
		f := s.Underlying().(*types.Struct).Field(i.Field)
		switch f.Type().Underlying().(type) {
		case *types.Struct, *types.Array:
			x.set(fr, i, Val{T: i.Type(), C: []string{x.innerRef(typeKey(s), f.Name(), p.C[0], p.C[1]), "0"}})
		default:
			x.set(fr, i, Val{T: i.Type(), C: []string{"(- 7)", "0"}}) // only used through addrLocs
			for _, r := range *i.Referrers() {
				switch u := r.(type) {
				case *ssa.Store:
					if u.Addr == ssa.Value(i) {
						continue
					}
				case *ssa.UnOp, *ssa.DebugRef:
					continue
				case *ssa.Call, *ssa.Defer: // e.g. mutex methods
				}
				x.note("address of field %s.%s escapes in %s (modelled as opaque)", typeKey(s), f.Name(), fr.fn.Name())
			}
		}
	case *ssa.IndexAddr:
		idx := x.val(fr, i.Index).C[0]
		switch u := i.X.Type().Underlying().(type) {
		case *types.Slice:
			s := x.val(fr, i.X)
			x.obl("bounds", "index in range", i.Pos(), node, reach, and(le("0", idx), lt(idx, s.C[2])))
			x.set(fr, i, Val{T: i.Type(), C: []string{s.C[0], add(s.C[1], idx)}})
		case *types.Pointer:
			a := u.Elem().Underlying().(*types.Array)
			p := x.val(fr, i.X)
			x.obl("bounds", "index in range", i.Pos(), node, reach, and(le("0", idx), lt(idx, fmt.Sprint(a.Len()))))
			x.set(fr, i, Val{T: i.Type(), C: []string{p.C[0], add(p.C[1], idx)}})
		}
	case *ssa.Index:
		idx := x.val(fr, i.Index).C[0]
		a := x.val(fr, i.X)
		switch u := i.X.Type().Underlying().(type) {
		case *types.Array:
			x.obl("bounds", "index in range", i.Pos(), node, reach, and(le("0", idx), lt(idx, fmt.Sprint(u.Len()))))
			r := Val{T: i.Type()}
			for _, c := range a.C {
				r.C = append(r.C, sel(c, idx))
			}
			x.set(fr, i, r)
		default: // string
			x.obl("bounds", "index in range", i.Pos(), node, reach, and(le("0", idx), lt(idx, "(strlen "+a.C[0]+")")))
			r := x.def("ch", "Int", "(strat "+a.C[0]+" "+idx+")")
			x.assume(node, "true", and(le("0", r), le(r, "255")))
			x.set(fr, i, Val{T: i.Type(), C: []string{r}})
		}
	case *ssa.Field:
		s := x.val(fr, i.X)
		u := i.X.Type().Underlying().(*types.Struct)
		k := 0
		for f := 0; f < i.Field; f++ {
			k += len(compsOf(u.Field(f).Type()))
		}
		n := len(compsOf(u.Field(i.Field).Type()))
		x.set(fr, i, Val{T: i.Type(), C: append([]string{}, s.C[k:k+n]...)})
	case *ssa.Store:
		ls, _ := x.addrLocs(fr, i.Addr)
		v := x.val(fr, i.Val)
		if p := x.val(fr, i.Addr); len(p.C) == 2 && p.C[0] != "(- 7)" {
			if _, isIdx := i.Addr.(*ssa.IndexAddr); !isIdx {
				x.nonNil(p, i.Pos(), node, reach, i.Addr.Name())
			}
		}
		if len(ls) != len(v.C) {
			fail("store component mismatch %s", i)
		}
		if v.Fn != nil && len(ls) == 1 {
			x.closures[v.C[0]] = v.Fn
		}
		for k, l := range ls {
			x.writeLoc(st, l, v.C[k])
		}
		if a, ok := i.Addr.(*ssa.Alloc); ok && constCell(a) {
			x.constCells[x.val(fr, a).C[0]] = Val{T: v.T, C: append([]string{}, v.C...), F: v.F, Fn: v.Fn}
		}
	case *ssa.UnOp:
		x.unop(fr, i, st, reach, node)
	case *ssa.BinOp:
		a, b := x.val(fr, i.X), x.val(fr, i.Y)
		x.set(fr, i, x.binop(i.Op, i.Type(), a, b, i.Pos(), node, reach))
	case *ssa.Convert:
		x.set(fr, i, x.convert(fr, i, st, node, reach))
	case *ssa.MultiConvert:
		fail("multiconvert")
	case *ssa.ChangeType:
		v := x.val(fr, i.X)
		v.T = i.Type()
		fr.env[i] = v
	case *ssa.ChangeInterface:
		v := x.val(fr, i.X)
		v.T = i.Type()
		fr.env[i] = v
	case *ssa.MakeInterface:
		v := x.val(fr, i.X)
		x.set(fr, i, x.mkIface(i.Type(), i.X.Type(), v, node))
	case *ssa.TypeAssert:
		x.typeAssert(fr, i, st, node, reach)
	case *ssa.MakeSlice:
		n := x.val(fr, i.Len).C[0]
		c := x.val(fr, i.Cap).C[0]
		x.obl("makeslice", "make: length in range", i.Pos(), node, reach, and(le("0", n), le(n, c)))
		if sz := types.SizesFor("gc", "amd64").Sizeof(i.Type().Underlying().(*types.Slice).Elem()); sz > 0 {
			x.assume(node, reach, le(c, "281474976710656")) // the allocation succeeded: it fits the address space of 48 bits
		}
		b := x.newBase(st, "mk")
		et := i.Type().Underlying().(*types.Slice).Elem()
		x.zeroSlice(st, et, b)
		x.set(fr, i, Val{T: i.Type(), C: []string{b, "0", n, c}})
	case *ssa.Slice:
		x.sliceOp(fr, i, st, node, reach)
	case *ssa.Extract:
		t := x.val(fr, i.Tuple)
		if len(t.F) == 0 {
			fail("extract from untracked tuple")
		}
		fr.env[i] = t.F[i.Index]
	case *ssa.MakeClosure:
		c := &Closure{Fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			c.Bind = append(c.Bind, x.val(fr, b))
		}
		fr.env[i] = Val{T: i.Type(), C: []string{x.fnId(c.Fn)}, Fn: c}
	case *ssa.Call:
		v, r, n := x.call(fr, &i.Call, i.Type(), i.Pos(), st, reach, node)
		if v.T == nil {
			v.T = i.Type()
		}
		fr.env[i] = v
		return r, n
	case *ssa.Go:
		x.note("go statement executed as a sequential call (goroutine footprints assumed disjoint)")
		_, r, n := x.call(fr, &i.Call, nil, i.Pos(), st, reach, node)
		return r, n
	case *ssa.Defer:
		fr.defers = append(fr.defers, i)
	case *ssa.RunDefers:
		for k := len(fr.defers) - 1; k >= 0; k-- {
			d := fr.defers[k]
			if f := d.Call.StaticCallee(); f != nil && x.w.inRepo(f) {
				x.note("deferred call of %s not modelled", f)
			}
		}
	case *ssa.MakeChan, *ssa.MakeMap:
		b := x.newBase(st, "mk")
		x.assume(node, "true", lt("0", b))
		v := ins.(ssa.Value)
		x.set(fr, v, Val{T: v.Type(), C: []string{b}})
	case *ssa.Send, *ssa.MapUpdate:
		if _, ok := ins.(*ssa.MapUpdate); ok {
			x.note("map contents not modelled")
		}
	case *ssa.Lookup:
		t := i.Type()
		if isString(i.X.Type()) {
			fail("string lookup")
		}
		x.note("map contents not modelled")
		fr.env[i] = x.havocVal(t, "lookup", node, reach, st)
	case *ssa.Range:
		x.set(fr, i, Val{T: i.Type(), C: []string{"0"}})
	case *ssa.Next, *ssa.Select:
		v := ins.(ssa.Value)
		x.note("map/string iteration and select modelled as arbitrary values")
		fr.env[v] = x.havocVal(v.Type(), "next", node, reach, st)
	default:
		fail("instruction %T: %s", ins, ins)
	}
	return reach, node
}

func (x *X) aggregateArrayOfStruct(t types.Type) bool {
	a, ok := t.Underlying().(*types.Array)
	if !ok {
		if s, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if x.aggregateArrayOfStruct(s.Field(i).Type()) {
					return true
				}
			}
		}
		return false
	}
	_, s := a.Elem().Underlying().(*types.Struct)
	_, s2 := a.Elem().Underlying().(*types.Array)
	return s || s2
}

// zeroSlice makes the object at base b an all-zero array of element type et.
func (x *X) zeroSlice(st *State, et types.Type, b string) {
	if _, isArr := et.Underlying().(*types.Array); isArr {
		x.note("zero-initialisation of slices of arrays not modelled")
		return
	}
	for _, l := range x.locs(et, b, "0") {
		if l.b != b {
			x.note("zero-initialisation of nested aggregates in slices not modelled")
			continue
		}
		x.logMod(l.key, b)
		h := x.heap(st, l.key, l.sort)
		st.h[l.key] = x.stoB(l.key, l.sort, h, b, x.constArr(l.sort))
	}
}

func (x *X) mkIface(it, t types.Type, v Val, node int) Val {
	f := fmt.Sprintf("mk_%s_%d", clean(typeKey(t)+t.String()), x.w.tagOf("type:"+types.TypeString(t, nil)))
	srts := ""
	for _, c := range compsOf(t) {
		srts += " " + c.Sort
	}
	x.declFun(f, "("+strings.TrimSpace(srts)+") Int")
	term := f
	if len(v.C) > 0 {
		term = "(" + f + " " + strings.Join(v.C, " ") + ")"
	}
	n0 := len(x.items)
	r := x.def("if", "Int", term)
	if len(x.items) > n0 {
		fs := []string{lt("0", r), eq("(ifacetag "+r+")", fmt.Sprint(x.w.tagOf("type:"+types.TypeString(t, nil))))}
		for k, c := range compsOf(t) {
			u := fmt.Sprintf("un%s_%d", f, k)
			x.declFun(u, "(Int) "+c.Sort)
			fs = append(fs, eq("("+u+" "+r+")", v.C[k]))
		}
		x.axiom(r, and(fs...))
	}
	return Val{T: it, C: []string{r}, Fn: v.Fn}
}

func (x *X) typeAssert(fr *frame, i *ssa.TypeAssert, st *State, node int, reach string) {
	v := x.val(fr, i.X)
	t := i.AssertedType
	var ok string
	var r Val
	if _, isI := t.Underlying().(*types.Interface); isI {
		ok = x.fresh("ok", "Bool")
		r = Val{T: t, C: v.C}
	} else {
		ok = eq("(ifacetag "+v.C[0]+")", fmt.Sprint(x.w.tagOf("type:"+types.TypeString(t, nil))))
		f := fmt.Sprintf("mk_%s_%d", clean(typeKey(t)+t.String()), x.w.tagOf("type:"+types.TypeString(t, nil)))
		r = Val{T: t}
		srts := ""
		for k, c := range compsOf(t) {
			u := fmt.Sprintf("un%s_%d", f, k)
			x.declFun(u, "(Int) "+c.Sort)
			r.C = append(r.C, x.def("un", c.Sort, "("+u+" "+v.C[0]+")"))
			srts += " " + c.Sort
		}
		x.wf(node, and(reach, ok), r, st.alloc)
	}
	if i.CommaOk {
		z := x.zeroVal(t)
		rr := Val{T: t}
		for k, c := range compsOf(t) {
			rr.C = append(rr.C, x.def("ta", c.Sort, ite(ok, r.C[k], z.C[k])))
		}
		fr.env[i] = Val{T: i.Type(), F: []Val{rr, {T: types.Typ[types.Bool], C: []string{ok}}}, C: append(append([]string{}, rr.C...), ok)}
		return
	}
	x.obl("typeassert", "type assertion to "+t.String(), i.Pos(), node, reach, ok)
	fr.env[i] = r
}

func (x *X) sliceOp(fr *frame, i *ssa.Slice, st *State, node int, reach string) {
	s := x.val(fr, i.X)
	get := func(v ssa.Value, d string) string {
		if v == nil {
			return d
		}
		return x.val(fr, v).C[0]
	}
	switch u := i.X.Type().Underlying().(type) {
	case *types.Slice:
		lo := get(i.Low, "0")
		hi := get(i.High, s.C[2])
		mx := get(i.Max, s.C[3])
		x.obl("bounds", "slice bounds in range", i.Pos(), node, reach, and(le("0", lo), le(lo, hi), le(hi, mx), le(mx, s.C[3])))
		x.set(fr, i, Val{T: i.Type(), C: []string{s.C[0], add(s.C[1], lo), sub(hi, lo), sub(mx, lo)}})
	case *types.Pointer:
		n := fmt.Sprint(u.Elem().Underlying().(*types.Array).Len())
		lo := get(i.Low, "0")
		hi := get(i.High, n)
		x.obl("bounds", "slice bounds in range", i.Pos(), node, reach, and(le("0", lo), le(lo, hi), le(hi, n)))
		x.set(fr, i, Val{T: i.Type(), C: []string{s.C[0], add(s.C[1], lo), sub(hi, lo), sub(n, lo)}})
	default: // string
		lo := get(i.Low, "0")
		hi := get(i.High, "(strlen "+s.C[0]+")")
		x.obl("bounds", "slice bounds in range", i.Pos(), node, reach, and(le("0", lo), le(lo, hi), le(hi, "(strlen "+s.C[0]+")")))
		r := x.def("substr", "Str", "(strsub "+s.C[0]+" "+lo+" "+hi+")")
		x.axiom(r, imp(and(le("0", lo), le(lo, hi), le(hi, "(strlen "+s.C[0]+")")), eq("(strlen "+r+")", sub(hi, lo))))
		x.set(fr, i, Val{T: i.Type(), C: []string{r}})
	}
}

// constCell tells whether a variable on the heap is assigned exactly once, in the block that
// allocates it and before any other use, and only read afterwards, also by the closures that capture it.
func constCell(a *ssa.Alloc) bool {
	if a.Referrers() == nil {
		return false
	}
	var store *ssa.Store
	for _, ins := range a.Block().Instrs {
		if s, ok := ins.(*ssa.Store); ok && s.Addr == a {
			store = s
			break
		}
		if ins == ssa.Instruction(a) {
			continue
		}
		for _, o := range ins.Operands(nil) {
			if *o == ssa.Value(a) {
				return false
			}
		}
	}
	return store != nil && onlyRead(a, store)
}

func onlyRead(v ssa.Value, but *ssa.Store) bool {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r != but {
				return false
			}
		case *ssa.UnOp:
			if r.Op != token.MUL {
				return false
			}
		case *ssa.DebugRef:
		case *ssa.MakeClosure:
			for k, b := range r.Bindings {
				if b == v && !onlyRead(r.Fn.(*ssa.Function).FreeVars[k], nil) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func (x *X) unop(fr *frame, i *ssa.UnOp, st *State, reach string, node int) {
	switch i.Op {
	case token.MUL:
		ls, pt := x.addrLocs(fr, i.X)
		if p := x.val(fr, i.X); p.C[0] != "(- 7)" {
			if _, isIdx := i.X.(*ssa.IndexAddr); !isIdx {
				x.nonNil(p, i.Pos(), node, reach, i.X.Name())
			}
		}
		r := Val{T: pt}
		if c, ok := x.constCells[x.val(fr, i.X).C[0]]; ok {
			switch i.X.(type) {
			case *ssa.Alloc, *ssa.FreeVar: // variable captured by a closure, assigned once
				fr.env[i] = Val{T: pt, C: append([]string{}, c.C...), F: c.F, Fn: c.Fn}
				return
			}
		}
		for _, l := range ls {
			r.C = append(r.C, x.readLoc(st, l))
		}
		x.set(fr, i, r)
		x.wf(node, reach, fr.env[i], st.alloc)
		if _, isF := pt.Underlying().(*types.Signature); isF {
			if c := x.lookupClosure(r.C[0]); c != nil {
				v := fr.env[i]
				v.Fn = c
				fr.env[i] = v
			}
		}
	case token.SUB:
		v := x.val(fr, i.X)
		if isFloat(v.T) {
			x.set(fr, i, x.fop("neg", i.Type(), v))
		} else {
			x.set(fr, i, Val{T: i.Type(), C: []string{x.wrap(sub("0", v.C[0]), i.Type())}})
		}
	case token.NOT:
		x.set(fr, i, Val{T: i.Type(), C: []string{not(x.val(fr, i.X).C[0])}})
	case token.ARROW:
		fr.env[i] = x.havocVal(i.Type(), "recv", node, reach, st)
	case token.XOR:
		v := x.val(fr, i.X)
		n, s := intBits(v.T)
		if s {
			x.set(fr, i, Val{T: i.Type(), C: []string{sub("(- 1)", v.C[0])}})
		} else {
			x.set(fr, i, Val{T: i.Type(), C: []string{sub(sub(pow2(n), "1"), v.C[0])}})
		}
	default:
		fail("unop %s", i.Op)
	}
}

// lookupClosure finds the closure a function-valued heap read must be, if it was stored directly.
func (x *X) lookupClosure(term string) *Closure {
	for k := 0; k < 50; k++ {
		if d, ok := x.defTerm(term); ok {
			term = d
			continue
		}
		break
	}
	return x.closures[term]
}

func tdiv(a, b string) string {
	if n, ok := bigOf(b); ok && n.Sign() > 0 {
		return "(ite (>= " + a + " 0) (div " + a + " " + b + ") (- (div (- " + a + ") " + b + ")))"
	}
	if _, ok := bigOf(b); ok {
		return "(tdiv " + a + " " + b + ")"
	}
	return "(tdivn " + a + " " + b + ")"
}

func (x *X) binop(op token.Token, t types.Type, a, b Val, pos token.Pos, node int, reach string) Val {
	one := func(s string) Val { return Val{T: t, C: []string{s}} }
	switch {
	case op == token.EQL || op == token.NEQ:
		var c string
		switch {
		case isFloat(a.T):
			c = x.fcmp("==", a.T, a.C[0], b.C[0])
		default:
			switch a.T.Underlying().(type) {
			case *types.Slice: // comparison with nil
				c = eq(a.C[0], b.C[0])
			case *types.Struct:
				u := a.T.Underlying().(*types.Struct)
				var fs []string
				k := 0
				for i := 0; i < u.NumFields(); i++ {
					n := len(compsOf(u.Field(i).Type()))
					fa, fb := Val{T: u.Field(i).Type(), C: a.C[k : k+n]}, Val{T: u.Field(i).Type(), C: b.C[k : k+n]}
					fs = append(fs, x.binop(token.EQL, types.Typ[types.Bool], fa, fb, pos, node, reach).C[0])
					k += n
				}
				c = and(fs...)
			default:
				_, isPtr := a.T.Underlying().(*types.Pointer)
				var fs []string
				for k := range a.C {
					if isPtr && k > 0 && (a.C[0] == "0" || b.C[0] == "0") {
						break // nil is the reference with base 0
					}
					if k < len(b.C) {
						fs = append(fs, eq(a.C[k], b.C[k]))
					}
				}
				c = and(fs...)
			}
		}
		if op == token.NEQ {
			c = not(c)
		}
		return one(c)
	case isFloat(a.T):
		switch op {
		case token.ADD:
			return x.fop("add", t, a, b)
		case token.SUB:
			return x.fop("sub", t, a, b)
		case token.MUL:
			return x.fop("mul", t, a, b)
		case token.QUO:
			return x.fop("div", t, a, b)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return one(x.fcmp(op.String(), a.T, a.C[0], b.C[0]))
		}
	case isString(a.T):
		switch op {
		case token.ADD:
			r := x.def("cat", "Str", "(strcat "+a.C[0]+" "+b.C[0]+")")
			x.axiom(r, eq("(strlen "+r+")", add("(strlen "+a.C[0]+")", "(strlen "+b.C[0]+")")))
			return one(r)
		case token.LSS:
			return one("(strlt " + a.C[0] + " " + b.C[0] + ")")
		case token.GTR:
			return one("(strlt " + b.C[0] + " " + a.C[0] + ")")
		case token.LEQ:
			return one(not("(strlt " + b.C[0] + " " + a.C[0] + ")"))
		case token.GEQ:
			return one(not("(strlt " + a.C[0] + " " + b.C[0] + ")"))
		}
	case isInt(a.T):
		p, q := a.C[0], b.C[0]
		switch op {
		case token.ADD:
			return one(x.wrapC(add(p, q), t, "add", pos, node, reach))
		case token.SUB:
			return one(x.wrapC(sub(p, q), t, "sub", pos, node, reach))
		case token.MUL:
			return one(x.wrapC(x.mulT(p, q), t, "mul", pos, node, reach))
		case token.QUO:
			x.obl("div", "division by zero", pos, node, reach, not(eq(q, "0")))
			return one(x.divT(p, q, t, node))
		case token.REM:
			x.obl("div", "division by zero", pos, node, reach, not(eq(q, "0")))
			d := x.def("q", "Int", x.divT(p, q, t, node))
			return one(sub(p, x.mulT(d, q)))
		case token.LSS:
			return one(lt(p, q))
		case token.LEQ:
			return one(le(p, q))
		case token.GTR:
			return one(lt(q, p))
		case token.GEQ:
			return one(le(q, p))
		case token.SHL:
			if n, ok := bigOf(q); ok && n.IsInt64() && n.Int64() < 128 && n.Sign() >= 0 {
				return one(x.wrap(mul(p, pow2(int(n.Int64()))), t))
			}
			return one(x.wrap(x.mulT(p, "(pow2 "+q+")"), t))
		case token.SHR:
			if n, ok := bigOf(q); ok && n.IsInt64() && n.Int64() < 128 && n.Sign() >= 0 {
				return one("(div " + p + " " + pow2(int(n.Int64())) + ")")
			}
			return one("(div " + p + " (pow2 " + q + "))")
		case token.AND, token.OR, token.XOR, token.AND_NOT:
			return one(x.bitop(op, p, q, t, node))
		}
	case isBool(a.T):
		switch op {
		case token.AND:
			return one(and(a.C[0], b.C[0]))
		case token.OR:
			return one(or(a.C[0], b.C[0]))
		}
	}
	fail("binop %s on %s", op, a.T)
	return Val{}
}

// mulT multiplies; products of two unknowns get ground monotonicity facts.
func (x *X) mulT(p, q string) string {
	_, ok1 := bigOf(p)
	_, ok2 := bigOf(q)
	if ok1 || ok2 {
		return mul(p, q)
	}
	if x.bound > 0 && (strings.Contains(p, "q_") || strings.Contains(q, "q_")) {
		return "(nmul " + p + " " + q + ")"
	}
	n0 := len(x.items)
	r := x.def("mul", "Int", "(nmul "+p+" "+q+")")
	if len(x.items) > n0 {
		x.axiom(r, and(imp(and(le("0", p), le("0", q)), le("0", r)), imp(and(le("1", p), le("0", q)), le(q, r)), imp(and(le("0", p), le("1", q)), le(p, r))))
	}
	return r
}

func (x *X) nmulT(p, q string) string {
	_, ok1 := bigOf(p)
	_, ok2 := bigOf(q)
	if ok1 || ok2 {
		return mul(p, q)
	}
	return "(nmul " + p + " " + q + ")"
}

// edivT, emodT: Euclidean quotient and remainder; unknown divisors go through nmul.
func edivT(p, q string) string {
	if _, ok := bigOf(q); ok {
		return "(div " + p + " " + q + ")"
	}
	return "(ndiv " + p + " " + q + ")"
}
func emodT(p, q string) string {
	if _, ok := bigOf(q); ok {
		return "(mod " + p + " " + q + ")"
	}
	return "(nmod " + p + " " + q + ")"
}

func (x *X) divT(p, q string, t types.Type, node int) string {
	if _, s := intBits(t); !s {
		return edivT(p, q)
	}
	if x.bound > 0 {
		return tdiv(p, q)
	}
	n0 := len(x.items)
	r := x.def("div", "Int", tdiv(p, q))
	if len(x.items) > n0 {
		x.axiom(r, imp(and(le("0", p), lt("0", q)), and(le("0", r), le(r, p), le(x.nmulT(r, q), p), lt(p, add(x.nmulT(r, q), q)))))
	}
	return r
}

// bitinfo: statically known trailing zero bits and an upper bound in bits, for non-negative terms.
func (x *X) bitinfo(t string, depth int) (tz, width int, ok bool) {
	if n, o := bigOf(t); o && n.Sign() >= 0 {
		if n.Sign() == 0 {
			return 64, 0, true
		}
		return int(n.TrailingZeroBits()), n.BitLen(), true
	}
	if depth > 12 {
		return 0, 0, false
	}
	if d, o := x.defTerm(t); o {
		return x.bitinfo(d, depth+1)
	}
	f := splitTop(t)
	if len(f) == 0 {
		if x.isByte(t) {
			return 0, 8, true
		}
		return 0, 0, false
	}
	switch f[0] {
	case "*":
		if c, o := bigOf(f[2]); o && c.Sign() > 0 {
			z, w, k := x.bitinfo(f[1], depth+1)
			if k && c.TrailingZeroBits() == uint(c.BitLen()-1) {
				s := c.BitLen() - 1
				return z + s, w + s, true
			}
		}
	case "mod":
		if c, o := bigOf(f[2]); o && c.Sign() > 0 && c.TrailingZeroBits() == uint(c.BitLen()-1) {
			s := c.BitLen() - 1
			z, w, k := x.bitinfo(f[1], depth+1)
			if !k {
				return 0, s, true
			}
			if w > s {
				w = s
			}
			return z, w, true
		}
	case "div":
		if c, o := bigOf(f[2]); o && c.Sign() > 0 && c.TrailingZeroBits() == uint(c.BitLen()-1) {
			_, w, k := x.bitinfo(f[1], depth+1)
			if k {
				w -= c.BitLen() - 1
				if w < 0 {
					w = 0
				}
				return 0, w, true
			}
		}
	case "+":
		z1, w1, k1 := x.bitinfo(f[1], depth+1)
		z2, w2, k2 := x.bitinfo(f[2], depth+1)
		if k1 && k2 && len(f) == 3 && (w1 <= z2 || w2 <= z1) {
			return min(z1, z2), max(w1, w2), true
		}
	case "select":
		if x.isByte(t) {
			return 0, 8, true
		}
	}
	return 0, 0, false
}

// isByte recognises reads of []byte memory.
func (x *X) isByte(t string) bool {
	f := splitTop(t)
	if len(f) != 3 || f[0] != "select" {
		return false
	}
	a := f[1]
	for k := 0; k < 60; k++ {
		if strings.HasPrefix(a, "H0_Euint8") || strings.HasPrefix(a, "dHEuint8") || strings.HasPrefix(a, "kHEuint8") || strings.HasPrefix(a, "kAEuint8") {
			return true
		}
		if d, ok := x.defTerm(a); ok {
			a = d
			continue
		}
		g := splitTop(a)
		if len(g) >= 2 && (g[0] == "select" || g[0] == "store") {
			a = g[1]
			continue
		}
		if len(g) == 4 && g[0] == "ite" {
			a = g[2]
			continue
		}
		return false
	}
	return false
}

func splitTop(t string) []string {
	if len(t) < 2 || t[0] != '(' {
		return nil
	}
	t = t[1 : len(t)-1]
	var r []string
	d, s := 0, 0
	for i := 0; i <= len(t); i++ {
		if i == len(t) || t[i] == ' ' && d == 0 {
			if i > s {
				r = append(r, t[s:i])
			}
			s = i + 1
			continue
		}
		if t[i] == '(' {
			d++
		} else if t[i] == ')' {
			d--
		}
	}
	return r
}

func (x *X) bitop(op token.Token, p, q string, t types.Type, node int) string {
	if c, ok := bigOf(p); ok && c.Sign() >= 0 {
		if _, ok2 := bigOf(q); !ok2 && op != token.AND_NOT {
			p, q = q, p
		}
	}
	if c, ok := bigOf(q); ok && c.Sign() >= 0 {
		m := c.BitLen()
		if op == token.AND && c.TrailingZeroBits() == 0 && pow2(m) == add(q, "1") {
			return "(mod " + p + " " + pow2(m) + ")"
		}
		if op == token.AND_NOT && pow2(m) == add(q, "1") && x.bound == 0 {
			return "(- " + p + " (mod " + p + " " + pow2(m) + "))"
		}
		if op == token.AND && c.Sign() == 0 {
			return "0"
		}
		if op == token.AND && c.TrailingZeroBits() == uint(m-1) { // single bit
			return mul("(mod (div "+p+" "+pow2(m-1)+") 2)", q)
		}
	}
	if c, ok := bigOf(q); ok && c.Sign() < 0 && op == token.AND { // mask of all but the low bits
		n := new(big.Int).Neg(c)
		if m := n.TrailingZeroBits(); n.BitLen() == int(m)+1 {
			return "(- " + p + " (mod " + p + " " + pow2(int(m)) + "))"
		}
	}
	if op == token.OR || op == token.XOR {
		z1, w1, k1 := x.bitinfo(p, 0)
		z2, w2, k2 := x.bitinfo(q, 0)
		if k1 && k2 && (w1 <= z2 || w2 <= z1) {
			return add(p, q)
		}
	}
	if op == token.XOR {
		if c, ok := bigOf(q); ok && c.Cmp(bigOne()) == 0 {
			// flip the lowest bit
			return "(ite (= (mod " + p + " 2) 0) (+ " + p + " 1) (- " + p + " 1))"
		}
	}
	f := map[token.Token]string{token.AND: "bitand", token.OR: "bitor", token.XOR: "bitxor", token.AND_NOT: "bitandnot"}[op]
	if x.bound > 0 {
		return "(" + f + " " + p + " " + q + ")"
	}
	r := x.def("bit", "Int", "("+f+" "+p+" "+q+")")
	x.axiom(r, imp(and(le("0", p), le("0", q)), le("0", r)))
	return r
}

func (x *X) convert(fr *frame, i *ssa.Convert, st *State, node int, reach string) Val {
	v := x.val(fr, i.X)
	t := i.Type()
	switch {
	case isString(t):
		if isString(v.T) {
			return Val{T: t, C: v.C}
		}
		x.note("string conversion modelled as arbitrary string")
		r := x.fresh("str", "Str")
		if _, ok := v.T.Underlying().(*types.Slice); ok {
			x.assume(node, "true", eq("(strlen "+r+")", v.C[2]))
		}
		return Val{T: t, C: []string{r}}
	case isString(v.T):
		b := x.newBase(st, "bytes")
		x.note("[]byte(string) modelled with strat")
		k := "E:uint8"
		x.logMod(k, b)
		a := x.fresh("strbytes", "(Array Int Int)")
		x.assume(node, "true", "(forall ((i Int)) (! (and (= (select "+a+" i) (strat "+v.C[0]+" i)) (<= 0 (select "+a+" i)) (<= (select "+a+" i) 255)) :pattern ((select "+a+" i))))")
		st.h[k] = x.stoB(k, "Int", x.heap(st, k, "Int"), b, a)
		n := "(strlen " + v.C[0] + ")"
		x.assume(node, "true", le("0", n))
		return Val{T: t, C: []string{b, "0", n, n}}
	}
	if _, ok := t.Underlying().(*types.Basic); !ok {
		fail("convert %s -> %s", v.T, t)
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return Val{T: t, C: []string{x.fresh("unsafe", "Int")}}
	}
	return x.conv(v, t)
}

var _ = sort.Strings
