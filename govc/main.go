package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

func main() {
	if len(os.Args) > 2 && os.Args[1] == "check" {
		os.Exit(check(os.Args[2]))
	}
	repo := flag.String("repo", "/repo", "")
	ctr := flag.String("contracts", "/verif/contracts", "")
	goarch := flag.String("goarch", "", "")
	dumpDir := flag.String("dump", "", "")
	v := flag.Bool("v", false, "")
	hd := flag.String("hints", "/verif/hints", "")
	sh := flag.Bool("savehints", false, "")
	to := flag.Int("t", 20, "seconds per obligation")
	flag.Parse()
	w := newWorld(*repo)
	w.verbose = *v
	w.hintDir = *hd
	w.saveHints = *sh
	if err := w.loadContracts(*ctr); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	if err := w.load(*goarch, pkgPatterns()); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	names := flag.Args()
	if len(names) == 0 {
		for n := range w.contracts {
			names = append(names, n)
		}
		sort.Strings(names)
	}
	for _, pat := range names {
		for _, n := range sortedKeys(w.contracts) {
			if ok, _ := filepath.Match(pat, n); !ok && n != pat && !strings.HasSuffix(n, pat) {
				continue
			}
			c := w.contracts[n]
			if c.Trusted || c.Inline {
				continue
			}
			r := w.verify(c, time.Duration(*to)*time.Second, *dumpDir)
			report(r, *v)
		}
	}
}

func pkgPatterns() []string {
	return []string{"./internal/fits", "./internal/median", "./internal/qsort", "./internal/star", "./internal/stats", "./internal/ops/..."}
}

func report(r *FnResult, verbose bool) {
	if r.Missing {
		fmt.Printf("%-60s MISSING\n", r.Fn)
		return
	}
	if r.Error != "" {
		fmt.Printf("%-60s ERROR %s\n", r.Fn, r.Error)
		return
	}
	f := r.Failed()
	fmt.Printf("%-60s obligations %d failed %d  invariants %d/%d  solver %.1fs wall %.1fs vacuous=%v\n", r.Fn, len(r.Obls)+r.InvObls, len(f), r.Invs, r.Cands, r.SolverS, r.Elapsed, r.Vacuous)
	for _, o := range f {
		fmt.Printf("   FAILED %s %s: %s [%s %.1fs %s]\n", o.Obl.pos, o.Obl.kind, o.Obl.name, o.Res.res, o.Res.secs, o.Res.solver)
	}
	if verbose {
		for _, k := range r.Kept {
			fmt.Println("   inv ", k)
		}
		for _, k := range r.Notes {
			fmt.Println("   note", k)
		}
	}
}
