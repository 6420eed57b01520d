package main

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Prop is the machine-readable description of one property's check (/verif/props/<ID>.json).
type Prop struct {
	Proof       []string `json:"proof"`       // functions under contract (amd64 build)
	ProofArm64  []string `json:"proof_arm64"` // functions of the portable (!amd64) build
	Harness     string   `json:"harness"`     // directory below /verif/harness
	Pkg         string   `json:"pkg"`         // package directory the harness file joins ("" = own package)
	Bounded     []string `json:"bounded"`     // what only the bounded harness covers
	Rule        string   `json:"rule"`
	Assumptions []string `json:"assumptions"`
}

type event struct {
	Kind     string      `json:"kind"` // violation, stats
	Key      string      `json:"key"`
	Msg      string      `json:"msg"`
	Case     interface{} `json:"case,omitempty"`
	Evals    int         `json:"evaluations,omitempty"`
	Distinct int         `json:"distinct,omitempty"`
	Samples  []string    `json:"samples,omitempty"`
}

var globalTrust = []string{
	"the generator itself (govc: go/ssa form of the current source -> SMT) and the SMT solvers",
	"go/ssa (x/tools v0.52.0) and the Go compiler agree on the semantics of the source",
	"int, int64 and uint64 arithmetic is mathematical (no 64-bit overflow); narrower integers wrap exactly",
	"slice arguments start at offset 0 of their array; arguments of the same element type do not alias a modified one unless the contract says alias",
	"NaN payloads are not distinguished; float operations are uninterpreted except for NaN propagation, ordering and (where the contract says rnd) monotone rounding",
	"goroutines started by the function are executed in program order (their footprints are disjoint; checked by the bounded harness)",
	"termination is not proved",
}

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

type knownFinding struct{ prop, key, text string }

func loadKnown(f string) []knownFinding {
	var r []knownFinding
	b, err := os.ReadFile(f)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		k := knownFinding{}
		rest := strings.TrimSpace(strings.TrimPrefix(l, "finding:"))
		for _, p := range []string{"property=", "key="} {
			if strings.HasPrefix(rest, p) {
				w := strings.SplitN(rest[len(p):], " ", 2)
				if p == "property=" {
					k.prop = w[0]
				} else {
					k.key = w[0]
				}
				rest = ""
				if len(w) > 1 {
					rest = strings.TrimSpace(w[1])
				}
			}
		}
		k.text = rest
		r = append(r, k)
	}
	return r
}

type failure struct {
	Key      string      `json:"key"`
	What     string      `json:"what"`
	Input    interface{} `json:"input,omitempty"`
	HasInput bool        `json:"has_input"`
	Solver   string      `json:"solver,omitempty"`
	QueryF   string      `json:"query_file,omitempty"`
	Replay   string      `json:"replay,omitempty"`
}

func check(id string) int {
	t0 := time.Now()
	root := env("VERIF_ROOT", "/verif")
	repo := env("VERIF_REPO", "/repo")
	tier := env("VERIF_TIER", "quick")
	seed, _ := strconv.Atoi(env("VERIF_SEED", "1"))
	b, err := os.ReadFile(filepath.Join(root, "props", id+".json"))
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var p Prop
	if err := json.Unmarshal(b, &p); err != nil {
		fmt.Println(err)
		return 2
	}
	evDir := filepath.Join(root, "evidence")
	os.MkdirAll(evDir, 0755)
	replayDir := filepath.Join(evDir, "replay")
	os.MkdirAll(replayDir, 0755)
	var fails []failure
	var notes []string

	// 1. bounded, contract-driven search on the real code: gives concrete failing inputs
	var hs harnessResult
	only := env("VERIF_ONLY", "") // development aid: "harness" or "proof"
	if only == "harness" {
		p.Proof, p.ProofArm64 = nil, nil
	}
	if p.Harness != "" && only != "proof" {
		hs = runHarness(root, repo, id, &p, seed, tier)
		notes = append(notes, hs.notes...)
		fails = append(fails, hs.fails...)
	}
	// 2. deductive verification of the functions under contract
	obls, disch := 0, 0
	solverS := 0.0
	bySolver := map[string]int{}
	var fnRep []map[string]interface{}
	inlined := map[string]bool{}
	trusted := map[string]bool{}
	budget := 540 * time.Second
	perObl := 30 * time.Second
	if tier == "thorough" {
		budget, perObl = 3000*time.Second, 120*time.Second
	}
	if len(hs.fails) > 0 {
		budget = 90 * time.Second
	}
	for _, part := range []struct {
		arch  string
		names []string
	}{{"", p.Proof}, {"arm64", p.ProofArm64}} {
		if len(part.names) == 0 {
			continue
		}
		w := newWorld(repo)
		w.hintDir = filepath.Join(root, "hints")
		w.hintsOnly = len(hs.fails) > 0
		w.deadline = t0.Add(budget)
		if err := w.loadContracts(filepath.Join(root, "contracts")); err != nil {
			fmt.Println("contract error:", err)
			return 2
		}
		if err := w.load(part.arch, pkgPatterns()); err != nil {
			fmt.Println("cannot load the source of /repo:", err)
			fails = append(fails, failure{Key: "load", What: "source cannot be loaded by the verifier: " + err.Error()})
			continue
		}
		frs := make([]*FnResult, len(part.names))
		lim := make(chan struct{}, 3)
		done := make(chan int)
		for i, n := range part.names {
			i, n := i, n
			go func() {
				lim <- struct{}{}
				defer func() { <-lim; done <- i }()
				c := w.contracts[n]
				if c == nil {
					frs[i] = &FnResult{Fn: n, Error: "no contract"}
					return
				}
				frs[i] = w.verify(c, perObl, "")
			}()
		}
		for range part.names {
			<-done
		}
		for _, r := range frs {
			rep := map[string]interface{}{"function": r.Fn, "obligations": len(r.Obls) + r.InvObls, "invariants_inferred": r.Invs, "solver_s": r.SolverS, "wall_s": r.Elapsed}
			if part.arch != "" {
				rep["build"] = "portable (!amd64) variant"
			}
			if r.Missing {
				// The function no longer exists under that name. Its callers are verified
				// with its successor inlined; nothing to check here.
				rep["missing"] = true
				notes = append(notes, "function under contract not present in this tree: "+r.Fn)
				fnRep = append(fnRep, rep)
				continue
			}
			if r.Error != "" {
				obls++
				rep["error"] = r.Error
				fails = append(fails, failure{Key: "obl:" + r.Fn + ":subset", What: r.Fn + ": " + r.Error})
				fnRep = append(fnRep, rep)
				continue
			}
			if r.Vacuous || len(r.Obls) == 0 {
				obls++
				fails = append(fails, failure{Key: "obl:" + r.Fn + ":vacuity", What: r.Fn + ": contract is vacuous (no reachable return or contradictory precondition)"})
			}
			obls += len(r.Obls) + r.InvObls
			disch += r.InvObls
			solverS += r.SolverS
			for _, o := range r.Obls {
				if o.Proved {
					disch++
					bySolver[o.Res.solver]++
					continue
				}
				f := failure{Key: "obl:" + r.Fn + ":" + o.Obl.kind + ":" + strings.ReplaceAll(o.Obl.name, " ", "_"), What: fmt.Sprintf("%s: %s: %s (at %s)", r.Fn, o.Obl.kind, o.Obl.name, o.Obl.pos), Solver: o.Res.res + " " + o.Res.solver}
				qf := filepath.Join(replayDir, id+"-"+clean(r.Fn+"-"+o.Obl.kind+"-"+strings.ReplaceAll(o.Obl.name, " ", "_"))+".smt2")
				os.WriteFile(qf, []byte(o.Query), 0644)
				f.QueryF = qf
				fails = append(fails, f)
			}
			for _, c := range r.Calls {
				trusted[c] = true
			}
			for _, c := range r.Inlined {
				inlined[c] = true
			}
			if len(r.Notes) > 0 {
				rep["modelling_notes"] = r.Notes
			}
			fnRep = append(fnRep, rep)
		}
	}

	// 3. verdict
	known := loadKnown(filepath.Join(root, "known-findings.txt"))
	seenKnown := map[string]bool{}
	var real []failure
	for _, f := range fails {
		hit := false
		for _, k := range known {
			if k.prop == id && k.key == f.Key {
				hit = true
				if !seenKnown[k.key] {
					seenKnown[k.key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.text)
				}
			}
		}
		if !hit {
			real = append(real, f)
		}
	}
	trust := append([]string{}, globalTrust...)
	for _, c := range sortedKeys(trusted) {
		if strings.HasPrefix(c, "trusted ") {
			trust = append(trust, "assumed contract: "+strings.TrimPrefix(c, "trusted "))
		}
	}
	cov := map[string]interface{}{
		"obligations": obls, "discharged": disch,
		"checker_cmd":         "/verif/check " + id,
		"trusted_base":        trust,
		"functions":           fnRep,
		"inlined_functions":   sortedKeys(inlined),
		"callees_by_contract": sortedKeys(trusted),
		"by_back_end":         bySolver,
		"solver_s":            solverS,
	}
	if p.Harness != "" {
		cov["bounded_evaluations"] = hs.evals
		cov["evaluations"] = hs.evals
		cov["distinct_nontrivial"] = hs.distinct
		cov["rule"] = p.Rule
		cov["samples"] = hs.samples
		cov["bounded_only"] = p.Bounded
	}
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	level := "proof"
	if len(p.Proof)+len(p.ProofArm64) == 0 {
		level = "exploration"
	}
	ev := map[string]interface{}{"property": id, "tier": tier, "seed": seed, "level": level, "coverage": cov,
		"assumptions": append(append([]string{}, p.Assumptions...), trust...), "wall_s": time.Since(t0).Seconds(), "violations": len(real)}
	j, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evDir, id+".json"), j, 0644); err != nil {
		fmt.Println(err)
		return 2
	}
	for _, n := range notes {
		fmt.Println("note:", n)
	}
	fmt.Printf("%s: %d functions under contract, %d/%d obligations discharged (%.0fs solver), bounded cases %d (%d distinct), %.0fs\n", id, len(fnRep), disch, obls, solverS, hs.evals, hs.distinct, time.Since(t0).Seconds())
	if len(real) == 0 {
		return 0
	}
	// inputs first
	sort.SliceStable(real, func(i, j int) bool { return real[i].HasInput && !real[j].HasInput })
	rf := filepath.Join(replayDir, id+".json")
	j, _ = json.MarshalIndent(map[string]interface{}{"property": id, "seed": seed, "tier": tier, "failures": real,
		"replay_cmd": fmt.Sprintf("cd %s && VERIF_SEED=%d VERIF_TIER=%s ./check %s", root, seed, tier, id)}, "", " ")
	os.WriteFile(rf, j, 0644)
	for i, f := range real {
		if i > 8 {
			break
		}
		fmt.Printf("  failed: %s %s\n", f.Key, f.What)
	}
	tail := ""
	if !real[0].HasInput {
		tail = " no-failing-input-found"
	}
	fmt.Printf("VIOLATION property=%s replay=%s%s\n", id, rf, tail)
	return 1
}

type harnessResult struct {
	fails    []failure
	evals    int
	distinct int
	samples  []string
	notes    []string
}

// runHarness runs the property's Go test inside /repo's module through an overlay.
func runHarness(root, repo, id string, p *Prop, seed int, tier string) (h harnessResult) {
	work, err := os.MkdirTemp("", "verif-"+id+"-")
	if err != nil {
		h.notes = append(h.notes, err.Error())
		return
	}
	defer os.RemoveAll(work)
	repl := map[string]string{}
	pkg := "internal/zzverif/" + strings.ToLower(id)
	if p.Pkg != "" {
		pkg = p.Pkg
	}
	hd := filepath.Join(root, "harness", p.Harness)
	ents, err := os.ReadDir(hd)
	if err != nil {
		h.notes = append(h.notes, err.Error())
		return
	}
	for _, e := range ents {
		if strings.HasSuffix(e.Name(), ".go") {
			repl[filepath.Join(repo, pkg, "zzverif_"+e.Name())] = filepath.Join(hd, e.Name())
		}
	}
	libs, _ := filepath.Glob(filepath.Join(root, "harness", "lib", "*.go"))
	for _, l := range libs {
		repl[filepath.Join(repo, "internal/zzverif/vlib", filepath.Base(l))] = l
	}
	ov := filepath.Join(work, "overlay.json")
	j, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	os.WriteFile(ov, j, 0644)
	out := filepath.Join(work, "out.jsonl")
	cur := filepath.Join(work, "cur")
	to := 240
	if tier == "thorough" {
		to = 1800
	}
	bin := filepath.Join(work, "h.test")
	common := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local")
	build := exec.Command("go", "test", "-c", "-vet=off", "-overlay", ov, "-o", bin, "./"+pkg)
	build.Dir = repo
	build.Env = common
	if o, err := build.CombinedOutput(); err != nil {
		h.notes = append(h.notes, "bounded harness does not compile against this tree (API changed?): "+tailOf(string(o), 600))
		return
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(to+30)*time.Second)
	defer cancel()
	scratch := filepath.Join(work, "scratch")
	os.MkdirAll(scratch, 0755)
	cmd := exec.CommandContext(ctx, bin, "-test.run", "TestVerif", "-test.timeout", fmt.Sprintf("%ds", to))
	cmd.Dir = scratch
	cmd.Env = append(common, "VERIF_OUT="+out, "VERIF_CUR="+cur, "VERIF_SEED="+fmt.Sprint(seed), "VERIF_TIER="+tier, "VERIF_SCRATCH="+scratch, "GOGC=200")
	o, err := cmd.CombinedOutput()
	statsSeen := false
	if f, e2 := os.Open(out); e2 == nil {
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		for sc.Scan() {
			var e event
			if json.Unmarshal(sc.Bytes(), &e) != nil {
				continue
			}
			switch e.Kind {
			case "violation":
				h.fails = append(h.fails, failure{Key: e.Key, What: e.Msg, Input: e.Case, HasInput: true})
			case "stats":
				statsSeen = true
				h.evals += e.Evals
				h.distinct += e.Distinct
				h.samples = append(h.samples, e.Samples...)
			}
		}
		f.Close()
	}
	if err != nil && len(h.fails) == 0 {
		c, _ := os.ReadFile(cur)
		h.fails = append(h.fails, failure{Key: "crash", What: "the code under test crashed or did not terminate: " + tailOf(firstPanic(string(o)), 1500), Input: strings.TrimRight(string(c), "\x00 \n"), HasInput: true})
	} else if !statsSeen && len(h.fails) == 0 {
		h.notes = append(h.notes, "harness reported no statistics: "+tailOf(string(o), 300))
	}
	return
}

func firstPanic(s string) string {
	if i := strings.Index(s, "panic:"); i >= 0 {
		s = s[i:]
		if len(s) > 1500 {
			s = s[:1500]
		}
	}
	return s
}
func tailOf(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}
