package main

import (
	"context"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type OblResult struct {
	Obl    Obl
	Res    result
	Query  string
	Proved bool
}

type FnResult struct {
	Fn      string
	Missing bool
	Error   string
	Obls    []OblResult
	Invs    int // candidate invariants kept
	InvObls int // invariant obligations discharged
	Cands   int
	SolverS float64
	Vacuous bool
	Notes   []string
	Inlined []string
	Calls   []string
	Kept    []string
	Elapsed float64
	Hinted  bool
}

func (r *FnResult) Failed() []OblResult {
	var f []OblResult
	for _, o := range r.Obls {
		if !o.Proved {
			f = append(f, o)
		}
	}
	return f
}

// build generates all obligations of one function under contract.
func (w *World) build(con *Contract) (x *X, err error) {
	fn := w.funcs[con.Name]
	if fn == nil {
		return nil, fmt.Errorf("function %s not found", con.Name)
	}
	x = &X{Emit: NewEmit(), w: w, root: fn, con: con, heapSort: map[string]string{}, inits: map[string]bool{}, calls: map[string]bool{}, inlined: map[string]bool{}, candKeys: map[string]bool{}, closures: map[string]*Closure{}, constCells: map[string]Val{}}
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				err = fmt.Errorf("outside the verified subset: %s", u.msg)
				return
			}
			panic(r)
		}
	}()
	x.nodes = nil
	node := x.newNode()
	st := &State{h: map[string]string{}, alloc: "alloc0"}
	x.entry = st.copy()
	x.rootEnv = map[string]Val{}
	x.distinct = map[string]bool{}
	var args []Val
	for i, p := range fn.Params {
		v := x.freshVal(p.Type(), p.Name())
		zeroOffs(p.Type(), v.C)
		args = append(args, v)
		x.wf(node, "true", v, "alloc0")
		if i < len(con.Params) {
			x.rootEnv[con.Params[i]] = v
		}
		if _, ok := p.Type().Underlying().(*types.Pointer); ok {
			nm := ""
			if i < len(con.Params) {
				nm = con.Params[i]
			}
			if !con.Nullable[nm] {
				x.assume(node, "true", lt("0", v.C[0]))
			}
		}
	}
	ev := &specEnv{x: x, vars: x.rootEnv, st: st, old: st, pre: st, node: node, con: con}
	for _, r := range con.Requires {
		x.assume(node, "true", ev.boolean(r.Expr))
	}
	mods := con.Mods(ev)
	if !con.Alias {
		for _, m := range mods {
			if m.slice == nil {
				continue
			}
			for _, a := range args {
				if s, ok := a.T.Underlying().(*types.Slice); ok && strings.Join(a.C[:3], ",") != strings.Join(m.slice.C[:3], ",") && types.Identical(s.Elem().Underlying(), m.slice.T.Underlying().(*types.Slice).Elem().Underlying()) {
					x.assume(node, "true", or(not(eq(a.C[0], m.slice.C[0])), eq(a.C[2], "0"), eq(m.slice.C[2], "0")))
					// when the precondition makes both non-empty, later lookups can rely on it syntactically
					g := not(eq(a.C[0], m.slice.C[0]))
					o := Obl{name: "distinct", kind: "distinct", fn: con.Name, node: node, seq: len(x.items), reach: "true", goal: g, cand: -1}
					if r := runSolver(context.Background(), cfgArith2, x.query(&o, g, true, prelude), 0, 2*time.Second); r.res == "unsat" {
						x.assume(node, "true", g)
						x.distinct[a.C[0]+"|"+m.slice.C[0]] = true
						x.distinct[m.slice.C[0]+"|"+a.C[0]] = true
					}
				}
			}
		}
	}
	x.oblige(Obl{name: "vacuity: precondition", kind: "vacuity", fn: con.Name, node: node, reach: "true", goal: "false", cand: -1})
	rets := x.run(fn, args, nil, st.copy(), "true", node, nil)
	for _, r := range rets {
		vars := map[string]Val{}
		for k, v := range x.rootEnv {
			vars[k] = v
		}
		for i, n := range con.Results {
			if i < len(r.vals) {
				vars[n] = r.vals[i]
			}
		}
		pe := &specEnv{x: x, vars: vars, st: r.st, old: x.entry, pre: x.entry, node: r.node, con: con}
		x.oblige(Obl{name: "vacuity: return reachable", kind: "vacuity", fn: con.Name, node: r.node, pos: x.pos(r.pos), reach: r.cond, goal: "false", cand: -1})
		for _, c := range con.Ensures {
			x.obl("ensures", c.Name, r.pos, r.node, r.cond, pe.boolean(c.Expr))
		}
		if !con.ModAny {
			x.frame(mods, r)
		}
	}
	return x, nil
}

func zeroOffs(t types.Type, c []string) {
	for i, k := range compsOf(t) {
		if strings.HasSuffix(k.Path, ".off") && k.Sort == "Int" {
			c[i] = "0"
		}
	}
}

// frame obligations: nothing outside the modifies clause changes in pre-existing memory.
func (x *X) frame(mods []modTarget, r ret) {
	if r.st.ep != "" {
		x.oblige(Obl{name: "frame: memory outside the modifies clause is unchanged by unknown calls", kind: "frame", fn: x.w.short(x.root), pos: x.pos(r.pos), node: r.node, reach: r.cond, goal: "false", cand: -1})
	}
	for _, k := range sortedKeys(r.st.h) {
		srt := x.heapSort[k]
		h := r.st.h[k]
		h0 := x.heap(x.entry, k, srt)
		if h == h0 {
			continue
		}
		g := x.frameGoal(mods, k, srt, h, h0, false)
		x.oblige(Obl{name: "frame: " + k + " unchanged outside the modifies clause", kind: "frame", fn: x.w.short(x.root), pos: x.pos(r.pos), node: r.node, reach: r.cond, goal: g, cand: -1})
	}
}

// frameGoal says that heap k is the same in h and h0 outside the modifies clause.
func (x *X) frameGoal(mods []modTarget, k, srt, h, h0 string, pat bool) string {
	allowed := []string{}
	for _, m := range mods {
		if m.slice != nil {
			et := m.slice.T.Underlying().(*types.Slice).Elem()
			for _, l := range x.locs(et, m.slice.C[0], "0") {
				if l.key == k {
					allowed = append(allowed, and(eq("fb", m.slice.C[0]), le(m.slice.C[1], "fi"), lt("fi", add(m.slice.C[1], m.slice.C[2]))))
				}
			}
		}
		for _, l := range m.locs {
			if l.key == k {
				if m.all {
					allowed = append(allowed, "true")
				} else if l.arr || k == "ghost.pos" {
					allowed = append(allowed, eq("fb", l.b))
				} else {
					allowed = append(allowed, and(eq("fb", l.b), eq("fi", l.i)))
				}
			}
		}
	}
	g := "(=> (and (< fb alloc0) (or (<= 0 fb) (< (innerB fb) alloc0)) " + not(or(allowed...)) + ") (= (select (select " + h + " fb) fi) (select (select " + h0 + " fb) fi)))"
	if pat {
		g = "(! " + g + " :pattern ((select (select " + h + " fb) fi)))"
	}
	return "(forall ((fb Int) (fi Int)) " + g + ")"
}

// verify generates and discharges the obligations of one contract.
func (w *World) verify(con *Contract, timeout time.Duration, dumpDir string) *FnResult {
	t0 := time.Now()
	fr := &FnResult{Fn: con.Name}
	if w.funcs[con.Name] == nil {
		fr.Missing = true
		return fr
	}
	w.mu.Lock()
	x, err := w.build(con)
	w.mu.Unlock()
	if err != nil {
		fr.Error = err.Error()
		if x != nil {
			fr.Notes = sortedKeys(x.notes)
		}
		return fr
	}
	if w.verbose {
		fmt.Printf("    %s: built in %.1fs, %d obligations, %d candidates\n", con.Name, time.Since(t0).Seconds(), len(x.obls), len(x.cands))
	}
	v := &verifier{w: w, x: x, con: con, cache: map[string]bool{}, proved: map[int]OblResult{}, timeout: timeout, dumpDir: dumpDir}
	fr.Cands = len(x.cands)
	hints, hinted := w.loadHints(con.Name)
	done := false
	if hinted && len(x.cands) > 0 {
		for i := range x.cands {
			c := &x.cands[i]
			c.active = c.init && hints[c.key]
		}
		v.houdini()
		fr.Obls = v.final(true)
		if w.hintsOnly {
			done = true
		}
		done = done || len(fr.Failed()) == 0 && v.claimsKept()
		fr.Hinted = done
		if !done && w.verbose {
			fmt.Printf("    %s: hinted invariants do not suffice (%d failed), full search\n", con.Name, len(fr.Failed()))
		}
	}
	if w.hintsOnly && !hinted && len(x.cands) > 0 {
		for i := range x.cands {
			x.cands[i].active = false
		}
	}
	if !done {
		for i := range x.cands {
			if w.hintsOnly {
				break
			}
			x.cands[i].active = x.cands[i].init
		}
		if len(x.cands) > 0 {
			v.houdini()
		}
		fr.Obls = v.final(false)
	}
	if w.saveHints && len(fr.Failed()) == 0 && len(x.cands) > 0 {
		if !con.Cut { // with cuts, the smaller set is often harder to prove
			v.minimise()
		}
		w.storeHints(con.Name, x)
	}
	for i := range x.obls {
		if c := x.obls[i].cand; c >= 0 && x.cands[c].active {
			fr.InvObls++
		}
	}
	for _, c := range x.cands {
		if c.active {
			fr.Invs++
			fr.Kept = append(fr.Kept, c.loop+": "+c.desc)
		}
	}
	if w.verbose {
		fmt.Printf("    %s: %d rounds, %.1fs; kept %d of %d\n", con.Name, v.rounds, time.Since(t0).Seconds(), fr.Invs, fr.Cands)
	}
	for _, t := range con.Invs {
		if t.Must == "" {
			continue
		}
		ok := false
		for _, c := range x.cands {
			ok = ok || c.active && claims(c.desc, t.Text)
		}
		fr.Obls = append(fr.Obls, OblResult{Obl: Obl{name: t.Must, kind: "claimed invariant", fn: con.Name, cand: -1}, Res: result{res: "no loop keeps the claimed invariant", solver: "z3"}, Proved: ok})
	}
	fr.SolverS = v.secs
	fr.Vacuous = v.vacuous
	fr.Notes = sortedKeys(x.notes)
	fr.Inlined = sortedKeys(x.inlined)
	fr.Calls = sortedKeys(x.calls)
	fr.Elapsed = time.Since(t0).Seconds()
	if dumpDir != "" {
		for _, o := range fr.Failed() {
			dump(dumpDir, o.Obl.kind+"_"+o.Obl.name, o.Query)
		}
	}
	return fr
}

type verifier struct {
	w       *World
	x       *X
	con     *Contract
	mu      sync.Mutex
	secs    float64
	rounds  int
	cache   map[string]bool
	timeout time.Duration
	dumpDir string
	vacuous bool
	proved  map[int]OblResult
}

// houdini removes candidate invariants until the remaining set is inductive.
func (v *verifier) houdini() {
	x := v.x
	for {
		v.rounds++
		if !v.w.deadline.IsZero() && time.Now().After(v.w.deadline) {
			for i := range x.cands {
				x.cands[i].active = false
			}
			return
		}
		type pt struct {
			obls []*Obl
		}
		groups := map[string]*pt{}
		var order []string
		for i := range x.obls {
			o := &x.obls[i]
			if o.cand < 0 || !x.cands[o.cand].active {
				continue
			}
			k := fmt.Sprintf("%d/%s/%s", o.node, o.reach, o.kind)
			if groups[k] == nil {
				groups[k] = &pt{}
				order = append(order, k)
			}
			groups[k].obls = append(groups[k].obls, o)
		}
		failed := map[int]bool{}
		var wg sync.WaitGroup
		for _, k := range order {
			g := groups[k]
			wg.Add(1)
			go func() {
				defer wg.Done()
				if v.rounds > 1 || len(g.obls) < 4 {
					// try the conjunction first
					var gs []string
					last := g.obls[0]
					for _, o := range g.obls {
						gs = append(gs, o.goal)
						if o.seq < last.seq {
							last = o
						}
					}
					q := x.query(last, and(gs...), false, prelude)
					v.mu.Lock()
					hit := v.cache[q]
					v.mu.Unlock()
					if hit {
						return
					}
					qs := x.query(last, and(gs...), true, prelude)
					r := race([]job{{cfgArith2, qs}, {cfgCvc5, qs}}, 2*time.Second)
					v.mu.Lock()
					v.secs += r.secs
					if r.res == "unsat" {
						v.cache[q] = true
					}
					v.mu.Unlock()
					if r.res == "unsat" {
						return
					}
				}
				var wg2 sync.WaitGroup
				for _, o := range g.obls {
					o := o
					wg2.Add(1)
					go func() {
						defer wg2.Done()
						q := x.query(o, o.goal, false, prelude)
						qs := x.query(o, o.goal, true, prelude)
						v.mu.Lock()
						hit := v.cache[q]
						v.mu.Unlock()
						if hit {
							return
						}
						r := proveQuick(qs, q, strings.HasPrefix(x.cands[o.cand].desc, "user "))
						if r.res != "unsat" && strings.HasPrefix(x.cands[o.cand].desc, "user ") && (v.w.deadline.IsZero() || time.Until(v.w.deadline) > 400*time.Second) {
							// under load the solvers get less time than the limits assume
							secs := r.secs
							r = proveLong(qs)
							r.secs += secs
						}
						v.mu.Lock()
						v.secs += r.secs
						if v.w.verbose && r.secs > 1 {
							fmt.Printf("      slow %.0fs (%s %s): %s @%s\n", r.secs, r.solver, r.res, x.cands[o.cand].desc, o.pos)
						}
						if r.res == "unsat" {
							v.cache[q] = true
						} else {
							failed[o.cand] = true
							if v.w.verbose && strings.HasPrefix(x.cands[o.cand].desc, "user ") {
								fmt.Printf("      dropped (%s %s): %s @%s\n", o.kind, r.res, x.cands[o.cand].desc, o.pos)
								if v.dumpDir != "" {
									dump(v.dumpDir, "dropped_"+o.kind, q)
								}
								if v.dumpDir != "" {
									dump(v.dumpDir, "cand_"+o.kind, q)
									dump(v.dumpDir, "slim_"+o.kind, qs)
								}
							}
							if strings.HasPrefix(r.res, "error") {
								fmt.Printf("      solver error: %s\n", r.res)
								dump("/tmp/govc_err", "cand", q)
							}
						}
						v.mu.Unlock()
					}()
				}
				wg2.Wait()
			}()
		}
		wg.Wait()
		if len(failed) == 0 {
			return
		}
		for c := range failed {
			x.cands[c].active = false
		}
	}
}

// final discharges the remaining obligations.
func (v *verifier) final(stopEarly bool) []OblResult {
	x := v.x
	// final obligations
	var wg sync.WaitGroup
	var res []OblResult
	vac := map[string]bool{}
	nret, deadret := 0, 0
	for i := range x.obls {
		o := x.obls[i]
		if o.cand >= 0 {
			continue
		}
		v.mu.Lock()
		p, ok := v.proved[i]
		if ok {
			res = append(res, p)
		}
		v.mu.Unlock()
		if ok {
			continue
		}
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			q := x.query(&o, o.goal, false, prelude)
			if o.kind == "vacuity" {
				r := race([]job{{cfgArith2, q}}, 2*time.Second)
				v.mu.Lock()
				v.secs += r.secs
				if strings.HasPrefix(o.name, "vacuity: return") {
					nret++
					if r.res == "unsat" {
						deadret++
					}
				} else if r.res == "unsat" {
					vac[o.name] = true
				}
				v.mu.Unlock()
				return
			}
			to := v.timeout
			if stopEarly {
				to = min(to, 8*time.Second)
			}
			if !v.w.deadline.IsZero() {
				to = min(to, time.Until(v.w.deadline))
			}
			r := result{res: "not attempted: time budget used up"}
			if to > 0 {
				r = prove(x.query(&o, o.goal, true, prelude), q, to)
			}
			v.mu.Lock()
			v.secs += r.secs
			if v.w.verbose && r.secs > 1 {
				fmt.Printf("      slow %.0fs (%s %s): %s @%s\n", r.secs, r.solver, r.res, o.name, o.pos)
			}
			or := OblResult{Obl: o, Res: r, Proved: r.res == "unsat"}
			if !or.Proved {
				or.Query = q
			}
			res = append(res, or)
			if or.Proved {
				v.proved[i] = or
			}
			v.mu.Unlock()
		}()
	}
	wg.Wait()
	sortBy(res, func(a, b OblResult) bool { return a.Obl.seq < b.Obl.seq })
	v.vacuous = len(vac) > 0 || nret > 0 && deadret == nret
	return res
}

// minimise keeps the candidate invariants that the proofs actually use (by unsat cores).
func (v *verifier) minimise() {
	x := v.x
	core := func(o *Obl) map[int]bool {
		used := map[int]bool{}
		for _, slim := range []bool{true, false} {
			q := x.queryN(o, o.goal, slim, true, prelude)
			for _, c := range []solverCfg{cfgArith2, cfgCvc5, cfgEmatch, cfgDefault} {
				sem <- struct{}{}
				r := runSolver(context.Background(), c, q, 0, 8*time.Second)
				<-sem
				if r.res == "unsat" {
					for _, m := range cndRe.FindAllStringSubmatch(r.core, -1) {
						n, _ := strconv.Atoi(m[1])
						used[n] = true
					}
					return used
				}
			}
		}
		return nil // unknown: everything
	}
	need := map[int]bool{}
	var work []*Obl
	for c := range x.cands {
		for _, t := range v.con.Invs {
			if t.Must != "" && x.cands[c].active && claims(x.cands[c].desc, t.Text) {
				need[c] = true
			}
		}
	}
	for i := range x.obls {
		if c := x.obls[i].cand; c >= 0 && need[c] {
			work = append(work, &x.obls[i])
		}
	}
	for i := range x.obls {
		if x.obls[i].cand < 0 && x.obls[i].kind != "vacuity" {
			work = append(work, &x.obls[i])
		}
	}
	for len(work) > 0 {
		res := make([]map[int]bool, len(work))
		var wg sync.WaitGroup
		for i := range work {
			i := i
			wg.Add(1)
			go func() { defer wg.Done(); res[i] = core(work[i]) }()
		}
		wg.Wait()
		fresh := map[int]bool{}
		for _, r := range res {
			if r == nil {
				for c := range x.cands {
					if x.cands[c].active {
						r = map[int]bool{}
						break
					}
				}
				for c := range x.cands {
					if x.cands[c].active && !need[c] {
						fresh[c] = true
					}
				}
				continue
			}
			for c := range r {
				if !need[c] {
					fresh[c] = true
				}
			}
		}
		work = nil
		for c := range fresh {
			need[c] = true
		}
		for i := range x.obls {
			if c := x.obls[i].cand; c >= 0 && fresh[c] {
				work = append(work, &x.obls[i])
			}
		}
	}
	for c := range x.cands {
		if x.cands[c].active && !need[c] {
			x.cands[c].active = false
		}
	}
}

var cndRe = regexp.MustCompile(`cnd_(\d+)`)

func (w *World) hintFile(name string) string {
	return filepath.Join(w.hintDir, strings.NewReplacer("/", ".", "$", "_", "(", "", ")", "", "*", "").Replace(name)+".hints")
}
func (w *World) loadHints(name string) (map[string]bool, bool) {
	if w.hintDir == "" || w.saveHints && !w.useHints {
		return nil, false
	}
	b, err := os.ReadFile(w.hintFile(name))
	if err != nil {
		return nil, false
	}
	m := map[string]bool{}
	for _, l := range strings.Split(string(b), "\n") {
		if l != "" {
			m[l] = true
		}
	}
	return m, true
}
func (w *World) storeHints(name string, x *X) {
	var ks []string
	for _, c := range x.cands {
		if c.active {
			ks = append(ks, c.key)
		}
	}
	sort.Strings(ks)
	os.MkdirAll(w.hintDir, 0755)
	os.WriteFile(w.hintFile(name), []byte(strings.Join(ks, "\n")+"\n"), 0644)
}

// claims reports whether a candidate is an instance of the template with this text.
func claims(desc, text string) bool { return strings.HasPrefix(desc, "user "+text+" [") }

func (v *verifier) claimsKept() bool {
	for _, t := range v.con.Invs {
		if t.Must == "" {
			continue
		}
		ok := false
		for _, c := range v.x.cands {
			ok = ok || c.active && claims(c.desc, t.Text)
		}
		if !ok {
			return false
		}
	}
	return true
}
