package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type cmpTerm struct {
	term string
}

func (x *X) havocState(st *State, mods *modLog, node int, reach, hint string) *State {
	n := st.copy()
	if mods.alloc {
		n.alloc = x.fresh("alloc", "Int")
		x.assume(node, "true", le(st.alloc, n.alloc))
	}
	for _, k := range sortedKeys(mods.keys) {
		e := mods.keys[k]
		srt := x.heapSort[k]
		h := x.heap(st, k, srt)
		if e.bases["?"] {
			nh := x.fresh("H"+k, arraySort(arraySort(srt)))
			x.rangeFacts(k, nh, n.alloc, node)
			n.h[k] = nh
			continue
		}
		for _, b := range sortedKeys(e.bases) {
			a := x.fresh("A"+k, arraySort(srt))
			x.rangeFactsArr(k, a, n.alloc, node)
			h = x.stoB(k, srt, h, b, a)
		}
		n.h[k] = h
	}
	if mods.any {
		x.newEpoch(n)
	}
	return n
}

func (x *X) rangeFactsArr(k, a, alloc string, node int) {
	s := "(select " + a + " i)"
	f := ""
	switch {
	case k == "E:uint8":
		f = "(and (<= 0 " + s + ") (<= " + s + " 255))"
	case strings.HasSuffix(k, ".base"):
		f = "(< " + s + " " + alloc + ")"
	case strings.HasSuffix(k, ".len"), strings.HasSuffix(k, ".off"):
		f = "(<= 0 " + s + ")"
	default:
		return
	}
	x.assume(node, "true", "(forall ((i Int)) (! "+f+" :pattern ("+s+")))")
}
func (x *X) rangeFacts(k, h, alloc string, node int) {
	s := "(select (select " + h + " b) i)"
	f := ""
	switch {
	case k == "E:uint8":
		f = "(and (<= 0 " + s + ") (<= " + s + " 255))"
	case strings.HasSuffix(k, ".len"), strings.HasSuffix(k, ".off"):
		f = "(<= 0 " + s + ")"
	default:
		return
	}
	x.assume(node, "true", "(forall ((b Int) (i Int)) (! "+f+" :pattern ("+s+")))")
}

func (x *X) enterLoop(fr *frame, li *loopInfo, phis []*ssa.Phi, entry map[*ssa.Phi]Val, st *State, reach string, node int, order []*ssa.BasicBlock) {
	var body []*ssa.BasicBlock
	for _, b := range fr.order {
		if li.body[b] {
			body = append(body, b)
		}
	}
	startSerial := x.serial + 1
	mods := &modLog{keys: map[string]*modEntry{}}
	var cmps map[*ssa.Phi][]string
	nrets, ndef := len(fr.rets), len(fr.defers)
	for iter := 0; ; iter++ {
		m := x.mark()
		log := &modLog{keys: map[string]*modEntry{}}
		x.logs = append(x.logs, log)
		x.dry++
		lc := &loopCtx{li: li, fr: fr, phis: phis, dry: true, pre: st}
		lc.head = x.havocState(st, mods, node, reach, "dry")
		for _, p := range phis {
			v := x.freshVal(p.Type(), fr.names[p])
			x.wf(node, reach, v, lc.head.alloc)
			lc.phiVal = append(lc.phiVal, v)
			fr.env[p] = v
		}
		fr.active[li.header] = lc
		x.curLoop = append(x.curLoop, lc)
		in := map[*ssa.BasicBlock][]edge{}
		x.block(fr, li.header, lc.head.copy(), reach, node, in)
		x.blocks(fr, body[1:], in, nil)
		x.curLoop = x.curLoop[:len(x.curLoop)-1]
		// comparisons of header phis with loop-invariant terms
		cmps = map[*ssa.Phi][]string{}
		for _, b := range body {
			for _, ins := range b.Instrs {
				bo, ok := ins.(*ssa.BinOp)
				if !ok || !isInt(bo.X.Type()) {
					continue
				}
				switch bo.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
				default:
					continue
				}
				for _, pr := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
					p := phiOf(pr[0])
					if p == nil || p.Block() != li.header {
						continue
					}
					v, ok := fr.env[pr[1]]
					if !ok {
						if c, isC := pr[1].(*ssa.Const); isC {
							v = x.constVal(c)
						} else {
							continue
						}
					}
					bud := 60
					if t, ok := x.expand(v.C[0], startSerial, &bud); ok {
						cmps[p] = append(cmps[p], t)
					}
				}
			}
		}
		// normalise bases
		changed := false
		next := &modLog{keys: map[string]*modEntry{}, alloc: mods.alloc || log.alloc, any: mods.any || log.any}
		if log.alloc && !mods.alloc || log.any && !mods.any {
			changed = true
		}
		for k, e := range mods.keys {
			ne := &modEntry{map[string]bool{}}
			for b := range e.bases {
				ne.bases[b] = true
			}
			next.keys[k] = ne
		}
		for k, e := range log.keys {
			ne := next.keys[k]
			if ne == nil {
				ne = &modEntry{map[string]bool{}}
				next.keys[k] = ne
				changed = true
			}
			for b := range e.bases {
				bud := 200
				t := "?"
				if b != "?" {
					if ex, ok := x.expand(b, startSerial, &bud); ok {
						t = ex
					}
				}
				if !ne.bases[t] {
					ne.bases[t] = true
					changed = true
				}
			}
		}
		x.logs = x.logs[:len(x.logs)-1]
		x.dry--
		x.rollback(m)
		fr.rets = fr.rets[:nrets]
		fr.defers = fr.defers[:ndef]
		mods = next
		if !changed {
			break
		}
		if iter > 8 {
			fail("loop modification analysis did not converge in %s", fr.fn)
		}
	}
	for k, e := range mods.keys {
		for b := range e.bases {
			x.logMod(k, b)
		}
	}
	if mods.alloc {
		x.logAlloc()
	}
	// real run
	x.loopSeq++
	x.loopNo++
	lc := &loopCtx{li: li, fr: fr, phis: phis, pre: st.copy(), no: x.loopNo, name: fmt.Sprintf("loop@%s", x.pos(firstPos(li.header)))}
	lc.head = x.havocState(st, mods, node, reach, "loop")
	x.preStates = append(x.preStates, lc.pre)
	for _, p := range phis {
		v := x.freshVal(p.Type(), fr.names[p])
		x.wf(node, reach, v, lc.head.alloc)
		lc.phiVal = append(lc.phiVal, v)
		fr.env[p] = v
	}
	fr.active[li.header] = lc
	if x.dry > 0 {
		lc.dry = true
		return
	}
	x.candidates(fr, lc, entry, cmps, mods, st, reach, node, body)
}

func firstPos(b *ssa.BasicBlock) token.Pos {
	for _, i := range b.Instrs {
		if i.Pos().IsValid() {
			return i.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, i := range s.Instrs {
			if i.Pos().IsValid() {
				return i.Pos()
			}
		}
	}
	return token.NoPos
}

// phiOf strips constant offsets.
func phiOf(v ssa.Value) *ssa.Phi {
	switch u := v.(type) {
	case *ssa.Phi:
		return u
	case *ssa.BinOp:
		if u.Op == token.ADD || u.Op == token.SUB {
			if p := phiOf(u.X); p != nil {
				return p
			}
			if u.Op == token.ADD {
				return phiOf(u.Y)
			}
		}
	}
	return nil
}

// step returns the constant increment of an integer phi per iteration.
func (lc *loopCtx) step(p *ssa.Phi) (ssa.Value, int64, bool) {
	var inc ssa.Value
	var c int64
	first := true
	for i, pr := range lc.li.header.Preds {
		if !lc.li.body[pr] {
			continue
		}
		b, ok := p.Edges[i].(*ssa.BinOp)
		if !ok || (b.Op != token.ADD && b.Op != token.SUB) {
			return nil, 0, false
		}
		var other ssa.Value
		if b.X == ssa.Value(p) {
			other = b.Y
		} else if b.Y == ssa.Value(p) && b.Op == token.ADD {
			other = b.X
		} else {
			return nil, 0, false
		}
		k := int64(0)
		if cc, ok := other.(*ssa.Const); ok && cc.Value != nil {
			k = cc.Int64()
			if b.Op == token.SUB {
				k = -k
			}
			other = nil
		} else if b.Op == token.SUB {
			return nil, 0, false
		}
		if first {
			inc, c, first = other, k, false
		} else if inc != other || c != k {
			return nil, 0, false
		}
	}
	return inc, c, !first
}

type phiMap map[*ssa.Phi]Val

func (x *X) addCand(fr *frame, lc *loopCtx, entry phiMap, st *State, reach string, node int, desc string, ev func(pm phiMap, s *State) string) {
	var f0, fh string
	ok := func() (ok bool) {
		defer func() {
			if r := recover(); r != nil {
				if u, is := r.(unsupported); is {
					if strings.HasPrefix(desc, "user") && x.w.verbose {
						fmt.Printf("      [template skipped: %s: %s]\n", desc, u.msg)
					}
					ok = false
					return
				}
				panic(r)
			}
		}()
		f0 = ev(entry, st)
		hm := phiMap{}
		for i, p := range lc.phis {
			hm[p] = lc.phiVal[i]
		}
		fh = ev(hm, lc.head)
		return true
	}()
	if !ok || fh == "true" {
		return
	}
	for _, c := range lc.cands {
		if c.desc == desc+"|"+fh {
			return
		}
	}
	id := len(x.cands)
	key := fmt.Sprintf("%d|%s", lc.no, desc)
	for n := 2; x.candKeys[key]; n++ {
		key = fmt.Sprintf("%d|%s|%d", lc.no, desc, n)
	}
	x.candKeys[key] = true
	x.cands = append(x.cands, Cand{desc: desc, active: f0 != "false", init: f0 != "false", loop: lc.name, key: key})
	lc.cands = append(lc.cands, candInst{id: id, desc: desc + "|" + fh, eval: func(_ *frame, pm map[*ssa.Phi]Val, s *State) string { return ev(pm, s) }})
	x.oblige(Obl{name: "invariant holds on entry: " + desc, kind: "inv-init", fn: x.w.short(x.root), pos: lc.name, node: node, reach: reach, goal: f0, cand: id})
	x.assumeC(node, reach, fh, id)
}

func (x *X) backEdge(fr *frame, lc *loopCtx, b *ssa.BasicBlock, cond string, st *State, node int) {
	if lc.dry || x.dry > 0 || cond == "false" {
		return
	}
	pm := phiMap{}
	for _, p := range lc.phis {
		for i, pr := range lc.li.header.Preds {
			if pr == b {
				pm[p] = x.val(fr, p.Edges[i])
			}
		}
	}
	for _, c := range lc.cands {
		x.oblige(Obl{name: "invariant maintained: " + x.cands[c.id].desc, kind: "inv-step", fn: x.w.short(x.root), pos: lc.name, node: node, reach: cond, goal: c.eval(fr, pm, st), cand: c.id})
	}
}

func (x *X) candidates(fr *frame, lc *loopCtx, entry map[*ssa.Phi]Val, cmps map[*ssa.Phi][]string, mods *modLog, st *State, reach string, node int, body []*ssa.BasicBlock) {
	add := func(desc string, ev func(pm phiMap, s *State) string) {
		x.addCand(fr, lc, entry, st, reach, node, desc, ev)
	}
	// frame candidates for memory that may be written through varying references
	for _, k := range sortedKeys(mods.keys) {
		e := mods.keys[k]
		if !e.bases["?"] {
			continue
		}
		srt := x.heapSort[k]
		ex := map[string]bool{}
		for b := range e.bases {
			if b != "?" {
				ex[b] = true
			}
		}
		ex2 := map[string]bool{}
		for b := range ex {
			ex2[b] = true
		}
		for _, p := range lc.phis {
			switch p.Type().Underlying().(type) {
			case *types.Slice, *types.Pointer:
				ex2[entry[p].C[0]] = true
			}
		}
		h0 := x.heap(lc.pre, k, srt)
		k := k
		mk := func(set map[string]bool, neg bool, tag string) {
			add("frame "+tag+" of "+k, func(pm phiMap, s *State) string {
				h := x.heap(s, k, srt)
				g := []string{"(< b " + lc.pre.alloc + ")"}
				if neg {
					g = []string{"(< b 0)"}
				}
				for _, b := range sortedKeys(set) {
					g = append(g, "(not (= b "+b+"))")
				}
				if !neg {
					g = append(g, "(<= 0 b)")
				}
				return "(forall ((b Int)) (! (=> " + and(g...) + " (= (select " + h + " b) (select " + h0 + " b))) :pattern ((select " + h + " b))))"
			})
		}
		mk(ex, false, "A")
		if len(ex2) > len(ex) {
			mk(ex2, false, "B")
		}
		mk(ex, true, "C")
		// element-range frame: slices passed through unchanged parts are left to user templates
	}
	for _, p := range lc.phis {
		p := p
		switch p.Type().Underlying().(type) {
		case *types.Slice, *types.Pointer:
			e := entry[p]
			add("ref of "+fr.names[p], func(pm phiMap, s *State) string {
				return or(eq(pm[p].C[0], e.C[0]), le(lc.pre.alloc, pm[p].C[0]))
			})
			if _, isS := p.Type().Underlying().(*types.Slice); isS {
				add("same array "+fr.names[p], func(pm phiMap, s *State) string { return eq(pm[p].C[0], e.C[0]) })
				add("off0 "+fr.names[p], func(pm phiMap, s *State) string { return eq(pm[p].C[1], "0") })
			}
		}
	}
	// element-range frames: writes through a slice stay inside the slice
	seenR := map[string]bool{}
	vis := x.visible(fr, lc, body)
	rangeFrame := func(s Val) {
		et := s.T.Underlying().(*types.Slice).Elem()
		for _, l := range x.locs(et, s.C[0], "0") {
			l := l
			e := mods.keys[l.key]
			if e == nil || l.b != s.C[0] {
				continue
			}
			t := l.key + strings.Join(s.C, ",")
			if seenR[t] {
				continue
			}
			seenR[t] = true
			a0 := x.selB(x.heap(lc.pre, l.key, l.sort), l.b, l.sort)
			add("range frame "+l.key, func(pm phiMap, st *State) string {
				n := x.selB(x.heap(st, l.key, l.sort), l.b, l.sort)
				return "(forall ((j Int)) (! (=> (or (< j " + s.C[1] + ") (<= (+ " + s.C[1] + " " + s.C[2] + ") j)) (= (select " + n + " j) (select " + a0 + " j))) :pattern ((select " + n + " j))))"
			})
		}
	}
	if x.con != nil {
		ev := &specEnv{x: x, vars: x.rootEnv, st: x.entry, old: x.entry, pre: x.entry, con: x.con}
		for _, m := range x.con.Mods(ev) {
			if m.slice != nil {
				rangeFrame(*m.slice)
			}
		}
	}
	if x.con != nil && !x.con.ModAny {
		ev := &specEnv{x: x, vars: x.rootEnv, st: x.entry, old: x.entry, pre: x.entry, con: x.con}
		targets := x.con.Mods(ev)
		ks := []string{}
		for k := range mods.keys {
			if strings.Contains(k, ".") && !strings.HasPrefix(k, "ghost") {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		for _, k := range ks {
			k, srt := k, x.heapSort[k]
			if srt == "" {
				continue
			}
			add("modifies "+k, func(pm phiMap, st *State) string {
				return x.frameGoal(targets, k, srt, x.heap(st, k, srt), x.heap(x.entry, k, srt), true)
			})
		}
	}
	for _, v := range vis {
		if _, ok := v.t.Underlying().(*types.Slice); ok && v.phi == nil {
			rangeFrame(v.v)
		}
	}
	// integer candidates
	var ints []*ssa.Phi
	for _, p := range lc.phis {
		if isInt(p.Type()) {
			ints = append(ints, p)
		}
	}
	for _, p := range ints {
		p := p
		e := entry[p].C[0]
		n := fr.names[p]
		inc, c, ok := lc.step(p)
		up, down := true, true
		if ok && inc == nil {
			up, down = c >= 0, c <= 0
		}
		if up {
			add(n+" >= init", func(pm phiMap, s *State) string { return le(e, pm[p].C[0]) })
		}
		if down {
			add(n+" <= init", func(pm phiMap, s *State) string { return le(pm[p].C[0], e) })
		}
		if ok && inc == nil && c != 1 && c != -1 && c != 0 {
			m := c
			if m < 0 {
				m = -m
			}
			add(n+" congruent", func(pm phiMap, s *State) string {
				return eq(fmt.Sprintf("(mod (- %s %s) %d)", pm[p].C[0], e, m), "0")
			})
		}
		if e != "0" {
			add(n+" >= 0", func(pm phiMap, s *State) string { return le("0", pm[p].C[0]) })
		}
		seen := map[string]bool{}
		for _, b := range cmps[p] {
			b := b
			if seen[b] {
				continue
			}
			seen[b] = true
			for d := int64(-1); d <= 1; d++ {
				d := d
				if !down || up {
					add(fmt.Sprintf("%s <= bound%+d", n, d), func(pm phiMap, s *State) string { return or(le(pm[p].C[0], add_(b, d)), eq(pm[p].C[0], e)) })
					add(fmt.Sprintf("%s <= bound%+d (strict)", n, d), func(pm phiMap, s *State) string { return le(pm[p].C[0], add_(b, d)) })
				}
				if !up || down {
					add(fmt.Sprintf("%s >= bound%+d", n, d), func(pm phiMap, s *State) string { return or(le(add_(b, d), pm[p].C[0]), eq(pm[p].C[0], e)) })
					add(fmt.Sprintf("%s >= bound%+d (strict)", n, d), func(pm phiMap, s *State) string { return le(add_(b, d), pm[p].C[0]) })
				}
			}
			// stepping bounds: p <= b + step - 1
			if ok && inc == nil && (c > 1 || c < -1) {
				if c > 1 {
					add(fmt.Sprintf("%s <= bound+step", n), func(pm phiMap, s *State) string { return or(le(pm[p].C[0], add_(b, c-1)), eq(pm[p].C[0], e)) })
				} else {
					add(fmt.Sprintf("%s >= bound+step", n), func(pm phiMap, s *State) string { return or(le(add_(b, c+1), pm[p].C[0]), eq(pm[p].C[0], e)) })
				}
			}
		}
	}
	for i, p := range ints {
		for j, q := range ints {
			p, q := p, q
			if i >= j {
				continue
			}
			ip, cp, okp := lc.step(p)
			iq, cq, okq := lc.step(q)
			if okp && okq {
				fac := func(v ssa.Value, c int64) (string, bool) {
					if v == nil {
						return inum(c), true
					}
					r, ok := fr.env[v]
					if !ok || !x.definedOutside(v, lc.li) {
						return "", false
					}
					return r.C[0], true
				}
				fp, k1 := fac(ip, cp)
				fq, k2 := fac(iq, cq)
				if k1 && k2 {
					add(fmt.Sprintf("linear %s %s", fr.names[p], fr.names[q]), func(pm phiMap, s *State) string {
						return eq(mul(sub(pm[p].C[0], entry[p].C[0]), fq), mul(sub(pm[q].C[0], entry[q].C[0]), fp))
					})
					continue
				}
			}
			add(fmt.Sprintf("%s <= %s", fr.names[p], fr.names[q]), func(pm phiMap, s *State) string { return le(pm[p].C[0], pm[q].C[0]) })
			add(fmt.Sprintf("%s <= %s", fr.names[q], fr.names[p]), func(pm phiMap, s *State) string { return le(pm[q].C[0], pm[p].C[0]) })
			add(fmt.Sprintf("%s <= %s rel", fr.names[p], fr.names[q]), func(pm phiMap, s *State) string {
				return le(sub(pm[p].C[0], entry[p].C[0]), sub(pm[q].C[0], entry[q].C[0]))
			})
			add(fmt.Sprintf("%s <= %s rel", fr.names[q], fr.names[p]), func(pm phiMap, s *State) string {
				return le(sub(pm[q].C[0], entry[q].C[0]), sub(pm[p].C[0], entry[p].C[0]))
			})
		}
	}
	// relation to phis of enclosing loops in this frame
	for li := lc.li.parent; li != nil; li = li.parent {
		oc := fr.active[li.header]
		if oc == nil {
			continue
		}
		for k, op := range oc.phis {
			if !isInt(op.Type()) {
				continue
			}
			o := oc.phiVal[k].C[0]
			for _, p := range ints {
				p := p
				e := entry[p].C[0]
				add(fmt.Sprintf("%s >= outer %s", fr.names[p], fr.names[op]), func(pm phiMap, s *State) string { return le(o, pm[p].C[0]) })
				add(fmt.Sprintf("%s <= outer %s", fr.names[p], fr.names[op]), func(pm phiMap, s *State) string { return le(pm[p].C[0], o) })
				_ = e
			}
		}
	}
	// templates from contracts
	for _, c := range x.templateContracts(fr) {
		for ti := range c.Invs {
			x.instantiate(fr, lc, c, &c.Invs[ti], vis, entry, st, reach, node, body, add)
		}
	}
}

func add_(b string, d int64) string { return add(b, inum(d)) }

func (x *X) definedOutside(v ssa.Value, li *loopInfo) bool {
	if i, ok := v.(ssa.Instruction); ok {
		return !li.body[i.Block()]
	}
	return true
}

func (x *X) templateContracts(fr *frame) []*Contract {
	var r []*Contract
	if x.con != nil {
		r = append(r, x.con)
	}
	if fr.fn != x.root {
		if c := x.w.contractFor(fr.fn); c != nil && c != x.con {
			r = append(r, c)
		}
	}
	return r
}

type liveVal struct {
	name string
	t    types.Type
	phi  *ssa.Phi
	v    Val
}

// visible lists the values a loop-invariant template may mention.
func (x *X) visible(fr *frame, lc *loopCtx, body []*ssa.BasicBlock) []liveVal {
	var r []liveVal
	seen := map[ssa.Value]bool{}
	for i, p := range lc.phis {
		r = append(r, liveVal{fr.names[p], p.Type(), p, lc.phiVal[i]})
		seen[p] = true
	}
	for li := lc.li.parent; li != nil; li = li.parent {
		if oc := fr.active[li.header]; oc != nil {
			for k, p := range oc.phis {
				if !seen[p] {
					seen[p] = true
					r = append(r, liveVal{fr.names[p], p.Type(), nil, oc.phiVal[k]})
				}
			}
		}
	}
	var ops []*ssa.Value
	for _, b := range body {
		for _, ins := range b.Instrs {
			if _, isPhi := ins.(*ssa.Phi); isPhi && b == lc.li.header {
				continue
			}
			ops = ins.Operands(ops[:0])
			for _, o := range ops {
				if o == nil || *o == nil || seen[*o] {
					continue
				}
				v := *o
				if _, isC := v.(*ssa.Const); isC {
					continue
				}
				if !x.definedOutside(v, lc.li) {
					continue
				}
				if val, ok := fr.env[v]; ok && len(val.C) > 0 && val.C[0] != "(- 7)" {
					seen[v] = true
					r = append(r, liveVal{fr.names[v], v.Type(), nil, val})
				}
			}
		}
	}
	nsort := len(r)
	defer func() {
		tail := r[nsort:]
		sort.SliceStable(tail, func(i, j int) bool {
			if tail[i].name != tail[j].name {
				return tail[i].name < tail[j].name
			}
			return strings.Join(tail[i].v.C, " ") < strings.Join(tail[j].v.C, " ")
		})
	}()
	// caller frames: named values
	for u := fr.up; u != nil; u = u.up {
		best := map[string]ssa.Value{}
		bkey := map[string]int{}
		for v, n := range u.names {
			if _, ok := u.env[v]; !ok || seen[v] || n == "" {
				continue
			}
			key := -2000000000
			if i, isI := v.(ssa.Instruction); isI {
				if i.Block() == nil || u.cur == nil || !i.Block().Dominates(u.cur) {
					continue
				}
				for d := i.Block(); d != nil; d = d.Idom() {
					key += 100000
				}
				later := false
				for k, j := range i.Block().Instrs {
					if j == i {
						key += k
						later = i.Block() == u.cur && k >= u.curPos
					}
				}
				if later {
					continue
				}
				key -= u.finished(i, u.cur)
			}
			n += "|" + v.Type().String()
			if o, ok := bkey[n]; !ok || key > o {
				bkey[n], best[n] = key, v
			}
		}
		for _, v := range best {
			seen[v] = true
			r = append(r, liveVal{u.names[v], v.Type(), nil, u.env[v]})
		}
	}
	// own frame: for each name, the latest value defined on dominating blocks
	own := map[string]bool{}
	for _, p := range lc.phis {
		own[fr.names[p]] = true
	}
	type bestV struct {
		v   ssa.Value
		key int
	}
	pick := map[string]bestV{}
	for v, n := range fr.names {
		if _, ok := fr.env[v]; !ok || seen[v] || n == "" || own[n] {
			continue
		}
		key := -2000000000
		if i, isI := v.(ssa.Instruction); isI {
			if i.Block() == nil || !i.Block().Dominates(lc.li.header) || lc.li.body[i.Block()] {
				continue
			}
			for d := i.Block(); d != nil; d = d.Idom() {
				key += 100000
			}
			for k, j := range i.Block().Instrs {
				if j == i {
					key += k
				}
			}
			key -= fr.finished(i, lc.li.header)
		}
		if p, ok := pick[n]; !ok || key > p.key {
			pick[n] = bestV{v, key}
		}
	}
	for n, p := range pick {
		r = append(r, liveVal{n + "'", p.v.Type(), nil, fr.env[p.v]})
	}
	return r
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// finished tells whether i belongs to a loop that is over at block at (its names are most likely out of scope there).
func (fr *frame) finished(i ssa.Instruction, at *ssa.BasicBlock) int {
	if _, isPhi := i.(*ssa.Phi); isPhi {
		return 0
	}
	for _, li := range fr.loops {
		if li.body[i.Block()] && !li.body[at] {
			return 1000000000
		}
	}
	return 0
}

func (x *X) nameKnown(fr *frame, n string) bool {
	for _, k := range fr.names {
		if k == n {
			return true
		}
	}
	return false
}

func (x *X) instantiate(fr *frame, lc *loopCtx, c *Contract, t *Template, vis []liveVal, entry phiMap, st *State, reach string, node int, body []*ssa.BasicBlock, add func(string, func(phiMap, *State) string)) {
	var opts [][]liveVal
	total := 1
	for _, m := range t.Vars {
		var exact, all []liveVal
		for _, v := range vis {
			tn := typeName(v.t)
			if tn != m.Type && typeName(v.t.Underlying()) != m.Type {
				continue
			}
			if strings.TrimSuffix(v.name, "'") == m.Name {
				exact = append(exact, v)
			} else if !strings.HasSuffix(v.name, "'") {
				all = append(all, v)
			}
		}
		if len(exact) == 0 && !m.Any && m.Type != "int" && x.nameKnown(fr, m.Name) {
			return // the variable exists in this function, but not in this loop
		}
		if len(exact) > 0 && !m.Any {
			var own []liveVal
			for _, v := range exact {
				if v.phi != nil {
					own = append(own, v)
				}
			}
			if len(own) > 0 {
				exact = own // the loop's own variable of that name
			}
			all = exact
		} else {
			all = append(exact, all...)
		}
		if len(all) == 0 {
			return
		}
		opts = append(opts, all)
		total *= len(all)
	}
	if total > 400 {
		if x.w.verbose {
			fmt.Printf("      [template %s: %d instances, skipped]\n", t.Text, total)
		}
		return
	}
	idx := make([]int, len(opts))
	for n := 0; n < total; n++ {
		k := n
		for i := range opts {
			idx[i] = k % len(opts[i])
			k /= len(opts[i])
		}
		sel := make([]liveVal, len(opts))
		names := ""
		dup := false
		for i := range opts {
			sel[i] = opts[i][idx[i]]
			for j := 0; j < i; j++ {
				if sel[j].v.C[0] == sel[i].v.C[0] {
					dup = true
				}
			}
			names += " " + t.Vars[i].Name + "=" + sel[i].name
		}
		if dup && len(t.Vars) > 1 {
			continue
		}
		add("user "+t.Text+" ["+strings.TrimSpace(names)+"]", func(pm phiMap, s *State) string {
			env := map[string]Val{}
			for k, v := range x.rootEnv {
				env[k] = v
			}
			if fr.fn != x.root && c != x.con {
				// the callee's own contract: its parameter names
				for i, p := range fr.fn.Params {
					if i < len(c.Params) {
						env[c.Params[i]] = fr.env[p]
					}
				}
			}
			for i, v := range sel {
				if v.phi != nil {
					env[t.Vars[i].Name] = pm[v.phi]
				} else {
					env[t.Vars[i].Name] = v.v
				}
			}
			ev := &specEnv{x: x, vars: env, st: s, old: x.entry, pre: lc.pre, node: node, con: c}
			return ev.boolean(t.Expr)
		})
	}
}
