package main

// The check driver: decides one property by discharging every obligation of
// the contracts it is stated over, of the contracts those call, and of the
// lemmas they use.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

type OblJ struct {
	Name, Kind, Pos, Proved, Status, Goal string
}
type WorkRes struct {
	Key      string
	Obls     []OblJ
	Inlined  []string
	Called   []string
	Assumed  []string
	Lemmas   []string
	Axioms   []string
	Note     string
	SolveS   float64
	Calls    int64
	Crosschk int
	WallS    float64
}

var (
	usedAutosMu sync.Mutex
	usedAutos   = map[string]bool{}
)

func work(db *SpecDB, key string, tier string) *WorkRes {
	t0 := time.Now()
	r := &WorkRes{Key: key}
	var obls []*Obl
	if strings.HasPrefix(key, "lemma:") {
		lm := db.Lemmas[key[6:]]
		if lm == nil {
			obls = []*Obl{{Name: key + "/lemma is missing", Kind: "contract", Goal: False}}
		} else {
			obls = lemmaObls(db, lm)
			for _, u := range lm.Uses {
				usedIn(db, u.Src)
			}
		}
	} else {
		c := db.Contracts[key]
		if c == nil {
			obls = []*Obl{{Name: key + "/contract is missing", Kind: "contract", Goal: False}}
		} else if db.P.Funcs[key] == nil {
			obls = []*Obl{{Name: key + "/function under contract is missing", Kind: "contract", Goal: False}}
		} else {
			fr := verifyFunc(db, c)
			obls = fr.Obls
			r.Inlined, r.Called, r.Assumed = fr.Inlined, fr.Called, fr.Assumed
			for _, cl := range c.Clauses {
				if cl.Kind == "use" || cl.Kind == "usepre" {
					usedIn(db, cl.Src)
				}
				if cl.Kind == "assume" {
					r.Assumed = append(r.Assumed, "assume clause of "+key+": "+cl.Src)
				}
			}
		}
	}
	if strings.HasPrefix(key, "lemma:") {
		solveObls(obls)
	}
	if tier == "thorough" {
		r.Crosschk = crossCheck(obls)
	}
	for _, o := range obls {
		j := OblJ{Name: o.Name, Kind: o.Kind, Pos: o.Pos, Proved: o.Proved, Status: o.Res.Status}
		if o.Proved == "" && o.Goal != nil {
			g := o.Goal.String()
			if len(g) > 3000 {
				g = g[:3000] + " ..."
			}
			j.Goal = g
		}
		r.Obls = append(r.Obls, j)
	}
	usedAutosMu.Lock()
	for n := range usedAutos {
		lm := db.Lemmas[n]
		if lm == nil || "lemma:"+n == key {
			continue
		}
		if lm.Axiom {
			r.Axioms = append(r.Axioms, n)
		} else {
			r.Lemmas = append(r.Lemmas, n)
		}
	}
	usedAutosMu.Unlock()
	sort.Strings(r.Axioms)
	sort.Strings(r.Lemmas)
	r.SolveS = float64(solverNanos) / 1e9
	r.Calls = solverCalls
	r.WallS = time.Since(t0).Seconds()
	return r
}

// usedIn records the lemmas a use clause names.
func usedIn(db *SpecDB, src string) {
	for n := range db.Lemmas {
		if i := strings.Index(src, n+"("); i >= 0 && (i == 0 || !isIdent(src[i-1])) {
			usedAutosMu.Lock()
			usedAutos[n] = true
			usedAutosMu.Unlock()
		}
	}
}

// crossCheck asks a second prover about every obligation z3 discharged.
func crossCheck(obls []*Obl) int {
	n := 0
	var mu sync.Mutex
	var wg sync.WaitGroup
	for _, o := range obls {
		if o.Proved != "z3" || o.Hyps == nil {
			continue
		}
		wg.Add(1)
		go func(o *Obl) {
			defer wg.Done()
			text := buildSMT(&Query{Hyps: o.Hyps, Goal: o.Goal, Skip: o.Skip}, "(set-logic ALL)\n")
			s, _ := runSolver("cvc5", []string{"cvc5", "--lang=smt2", "--tlimit=8000", "-"}, text, 10*time.Second)
			if s == "unsat" {
				mu.Lock()
				n++
				mu.Unlock()
			}
		}(o)
	}
	wg.Wait()
	return n
}

type harnessRes struct {
	Ran     bool
	Failed  bool
	Input   string
	Output  string
	Count   int64
	Samples []string
	WallS   float64
}

// runHarness runs the in-package search for a failing input of a property.
func runHarness(repo, verif, pkg, test string, secs, seed int, tier string) (h harnessRes) {
	t0 := time.Now()
	defer func() { h.WallS = time.Since(t0).Seconds() }()
	dir, err := os.MkdirTemp("", "gover-h")
	if err != nil {
		return
	}
	defer os.RemoveAll(dir)
	rep := map[string]string{}
	fs, _ := filepath.Glob(filepath.Join(verif, "harness", pkg, "*.go"))
	for _, f := range fs {
		rep[filepath.Join(repo, pkg, "zz_verif_"+strings.TrimSuffix(filepath.Base(f), ".go")+"_test.go")] = f
	}
	// the repository's own tests are left out, so that only the code under
	// test and the harness are compiled
	ts, _ := filepath.Glob(filepath.Join(repo, pkg, "*_test.go"))
	for _, f := range ts {
		rep[f] = ""
	}
	ov, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ovf := filepath.Join(dir, "overlay.json")
	os.WriteFile(ovf, ov, 0644)
	out := filepath.Join(dir, "out")
	last := filepath.Join(dir, "last")
	stat := filepath.Join(dir, "stat")
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs+120)*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", "test", "-vet=off", "-count=1", "-overlay", ovf, "-run", "^"+test+"$", fmt.Sprintf("-timeout=%ds", secs+40), "./"+pkg)
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_SECONDS=%d", secs), fmt.Sprintf("VERIF_SEED=%d", seed), "VERIF_TIER="+tier, "VERIF_OUT="+out, "VERIF_LAST="+last, "VERIF_STAT="+stat, "GOFLAGS=-mod=mod", "GOPROXY=off")
	var b bytes.Buffer
	cmd.Stdout = &b
	cmd.Stderr = &b
	err = cmd.Run()
	h.Output = b.String()
	if len(h.Output) > 6000 {
		h.Output = h.Output[:3000] + "\n...\n" + h.Output[len(h.Output)-3000:]
	}
	if d, e := os.ReadFile(stat); e == nil {
		var s struct {
			N       int64
			Samples []string
		}
		json.Unmarshal(d, &s)
		h.Count, h.Samples = s.N, s.Samples
	}
	if err == nil {
		h.Ran = !strings.Contains(h.Output, "no tests to run")
		return
	}
	if d, e := os.ReadFile(out); e == nil {
		h.Ran, h.Failed, h.Input = true, true, string(d)
		return
	}
	if strings.Contains(h.Output, "[build failed]") || strings.Contains(h.Output, "[setup failed]") {
		return
	}
	if d, e := os.ReadFile(last); e == nil {
		// the process died (stack overflow, timeout) on this input
		if strings.Contains(h.Output, "stack overflow") || strings.Contains(h.Output, "test timed out") || strings.Contains(h.Output, "fatal error") || strings.Contains(h.Output, "panic:") || strings.Contains(h.Output, "stack exceeds") {
			h.Ran, h.Failed, h.Input = true, true, "the process died on: "+string(d)
		}
	}
	return
}

func runCheck(db *SpecDB, self, prop, tier string, seed int, repo, cdir, verif string) int {
	t0 := time.Now()
	pd := db.Props[prop]
	if pd == nil {
		fmt.Println("no such property:", prop)
		return 1
	}
	deadline := t0.Add(600 * time.Second)
	if tier == "thorough" {
		deadline = t0.Add(800 * time.Second)
	}
	type item struct{ key string }
	results := map[string]*WorkRes{}
	var mu sync.Mutex
	seen := map[string]bool{}
	var wg sync.WaitGroup
	sem := make(chan struct{}, 6)
	if jobFiles == nil {
		jobFiles, _ = newJobs(runtime.NumCPU())
	}
	var add func(k string)
	add = func(k string) {
		if seen[k] {
			return
		}
		seen[k] = true
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			r := spawn(self, k, tier, repo, cdir, deadline)
			mu.Lock()
			defer mu.Unlock()
			results[k] = r
			for _, c := range r.Called {
				if con := db.Contracts[c]; con != nil && !con.Trusted {
					add(c)
				}
			}
			for _, l := range r.Lemmas {
				add("lemma:" + l)
			}
		}()
	}
	mu.Lock()
	for _, f := range pd.Funcs {
		add(f)
	}
	for _, l := range pd.Lemmas {
		add("lemma:" + l)
	}
	mu.Unlock()
	wg.Wait()

	var keys []string
	for k := range results {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	backends := map[string]int{}
	kinds := map[string]int{}
	total, done := 0, 0
	var failed []OblJ
	var funcs, lemmas, inl []string
	assum := map[string]bool{}
	inlS := map[string]bool{}
	solve := 0.0
	var calls int64
	cross := 0
	var samples []interface{}
	for _, k := range keys {
		r := results[k]
		solve += r.SolveS
		calls += r.Calls
		cross += r.Crosschk
		nd := 0
		for _, o := range r.Obls {
			total++
			kinds[o.Kind]++
			if o.Proved != "" {
				done++
				nd++
				backends[o.Proved]++
				if (o.Kind == "ensures" || o.Kind == "lemma") && len(samples) < 12 {
					samples = append(samples, map[string]string{"obligation": o.Name, "kind": o.Kind, "at": o.Pos, "by": o.Proved})
				}
			} else {
				failed = append(failed, o)
			}
		}
		if strings.HasPrefix(k, "lemma:") {
			lemmas = append(lemmas, fmt.Sprintf("%s (%d/%d)", k[6:], nd, len(r.Obls)))
		} else {
			funcs = append(funcs, fmt.Sprintf("%s (%d/%d)", k, nd, len(r.Obls)))
		}
		for _, i := range r.Inlined {
			inlS[i] = true
		}
		for _, a := range r.Assumed {
			assum["assumed: "+a] = true
		}
		for _, a := range r.Axioms {
			assum["axiom: "+a] = true
		}
		for _, c := range r.Called {
			if con := db.Contracts[c]; con != nil && con.Trusted {
				kind := "trusted"
				if con.External {
					kind = "external"
				}
				assum["assumed contract ("+kind+"): "+c] = true
			}
		}
	}
	for i := range inlS {
		inl = append(inl, i)
	}
	sort.Strings(inl)
	if total == 0 {
		failed = append(failed, OblJ{Name: prop + "/no obligations were generated", Kind: "vacuity"})
	}
	recursionCheck(db, results, &failed)

	viol := 0
	code := 0
	cover := map[string]interface{}{}
	// bounded stand-ins
	var bounded []map[string]interface{}
	if b := pd.Opts["bounded"]; b != "" {
		f := strings.Fields(b)
		secs := 20
		if tier == "thorough" {
			secs = 180
		}
		h := runHarness(repo, verif, f[0], f[1], secs, seed, tier)
		bounded = append(bounded, map[string]interface{}{"test": f[1], "bound": pd.Opts["bound"], "evaluations": h.Count, "samples": h.Samples, "wall_s": h.WallS})
		if h.Failed {
			viol++
			code = 1
			p := writeReplay(verif, prop, map[string]interface{}{"property": prop, "kind": "bounded stand-in " + f[1], "input": h.Input, "output": h.Output, "rerun": rerun(f[0], f[1])})
			fmt.Printf("bounded check %s fails on %s\n", f[1], oneLine(h.Input, 300))
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
		} else if !h.Ran {
			failed = append(failed, OblJ{Name: prop + "/bounded stand-in " + f[1] + " could not be run", Kind: "bounded", Goal: h.Output})
		}
	}
	if len(failed) > 0 {
		for i, o := range failed {
			if i < 12 {
				fmt.Printf("FAILED OBLIGATION %s (%s) at %s: %s\n", o.Name, o.Kind, o.Pos, o.Status)
			}
		}
		if code == 0 {
			code = 1
			viol++
			var tried []string
			rep := map[string]interface{}{"property": prop, "failed_obligations": failed, "prover": "z3 4.8.12, z3-new: none of them accepts the obligation"}
			found := false
			for _, hs := range strings.Split(pd.Opts["harness"], ";") {
				f := strings.Fields(hs)
				if len(f) < 2 || found {
					continue
				}
				h := runHarness(repo, verif, f[0], f[1], 45, seed, tier)
				tried = append(tried, fmt.Sprintf("%s: %d inputs, %.0f s", f[1], h.Count, h.WallS))
				if h.Failed {
					found = true
					rep["input"], rep["output"], rep["rerun"] = h.Input, h.Output, rerun(f[0], f[1])
					fmt.Printf("replayed on the real code: %s\n", oneLine(h.Input, 400))
				} else if !h.Ran {
					rep["harness_output"] = h.Output
				}
			}
			rep["replay_search"] = tried
			p := writeReplay(verif, prop, rep)
			if found {
				fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
			} else {
				fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, p)
			}
		}
	} else if tier == "thorough" && code == 0 {
		// cross-validation of the contract semantics against executions
		var hx []map[string]interface{}
		for _, hs := range strings.Split(pd.Opts["harness"], ";") {
			f := strings.Fields(hs)
			if len(f) < 2 {
				continue
			}
			h := runHarness(repo, verif, f[0], f[1], 60, seed, tier)
			hx = append(hx, map[string]interface{}{"test": f[1], "evaluations": h.Count, "samples": h.Samples, "failed": h.Failed})
			if h.Failed {
				viol++
				code = 1
				p := writeReplay(verif, prop, map[string]interface{}{"property": prop, "kind": "executable form of the contract, run on the real code", "input": h.Input, "output": h.Output, "rerun": rerun(f[0], f[1])})
				fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
				break
			}
		}
		cover["executions_of_the_executable_contract"] = hx
	}
	if code == 0 {
		for _, k := range knownFindings(verif, prop) {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
		}
	}
	for k := range assum {
		_ = k
	}
	var as []string
	for k := range assum {
		as = append(as, k)
	}
	sort.Strings(as)
	as = append(as, generalAssumptions...)
	if a := pd.Opts["assumes"]; a != "" {
		for _, s := range strings.Split(a, ";") {
			as = append(as, strings.TrimSpace(s))
		}
	}
	cover["obligations"] = total
	cover["discharged"] = done
	cover["checker_cmd"] = fmt.Sprintf("./check %s %s (gover check: contracts in /verif/contracts against /repo's current source)", prop, tier)
	cover["trusted_base"] = []string{
		"gover (this repository's verifier: Go SSA -> verification conditions, /verif/gover)",
		"golang.org/x/tools/go/ssa v0.52.0 (SSA construction from /repo's source)",
		"z3 4.8.12 / newer z3 (z3-new), theory axioms for sequences and maps in gover/smt.go",
	}
	cover["functions_under_contract"] = funcs
	cover["lemmas"] = lemmas
	cover["inlined_functions"] = inl
	cover["obligations_by_backend"] = backends
	cover["obligations_by_kind"] = kinds
	cover["solver_seconds"] = round1(solve)
	cover["solver_calls"] = calls
	cover["samples"] = samples
	if tier == "thorough" {
		cover["also_accepted_by_cvc5"] = cross
	}
	if bounded != nil {
		cover["bounded_stand_ins_not_counted_as_proved"] = bounded
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "proof",
		"coverage": cover, "assumptions": as, "wall_s": round1(time.Since(t0).Seconds()), "violations": viol,
	}
	if l := pd.Opts["level"]; l != "" {
		ev["level"] = l
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	d, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(d, '\n'), 0644)
	fmt.Printf("%s: %d obligations, %d discharged, %d functions, %d lemmas, %.1f s\n", prop, total, done, len(funcs), len(lemmas), time.Since(t0).Seconds())
	return code
}

func round1(f float64) float64 { return float64(int(f*10+0.5)) / 10 }

func oneLine(s string, n int) string {
	s = strings.ReplaceAll(s, "\n", " ")
	if len(s) > n {
		s = s[:n] + "..."
	}
	return s
}

func rerun(pkg, test string) string {
	return fmt.Sprintf("cd /verif && .bin/gover harness -seed <seed> %s %s", pkg, test)
}

func writeReplay(verif, prop string, v interface{}) string {
	dir := filepath.Join(verif, "replay")
	os.MkdirAll(dir, 0755)
	p := filepath.Join(dir, prop+".json")
	d, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(p, append(d, '\n'), 0644)
	return p
}

func knownFindings(verif, prop string) []string {
	d, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var r []string
	for _, l := range strings.Split(string(d), "\n") {
		if strings.HasPrefix(l, "finding: property="+prop+" ") {
			r = append(r, strings.TrimPrefix(l, "finding: property="+prop+" "))
		}
	}
	return r
}

var generalAssumptions = []string{
	"machine integers of type int (and the sized integers used as int) are treated as mathematical; no overflow obligation is generated",
	"float64 arithmetic is treated as exact rational arithmetic",
	"distinct pointer, map and slice parameters of a function under contract do not alias unless the contract says so",
	"a nil slice and an empty slice of the same type are the same abstract value",
	"allocation does not fail and the stack does not overflow; termination is proved where a measure is found",
	"sequential execution: no other goroutine touches the arguments during a call",
}

// recursionCheck: contracts may be used in each other's proofs only under a
// decreasing measure; contracts that call each other must be a declared group.
func recursionCheck(db *SpecDB, res map[string]*WorkRes, failed *[]OblJ) {
	var reach func(from, to string, seen map[string]bool) bool
	reach = func(from, to string, seen map[string]bool) bool {
		r := res[from]
		if r == nil || seen[from] {
			return false
		}
		seen[from] = true
		for _, c := range r.Called {
			if c == to || reach(c, to, seen) {
				return true
			}
		}
		return false
	}
	for k, r := range res {
		for _, c := range r.Called {
			if c == k || db.Contracts[c] == nil || db.Contracts[c].Trusted {
				continue
			}
			if reach(c, k, map[string]bool{}) {
				g1, g2 := db.Contracts[k].Opts["group"], db.Contracts[c].Opts["group"]
				if g1 == "" || g1 != g2 {
					*failed = append(*failed, OblJ{Name: k + "/mutual recursion with " + c + " without a common measure", Kind: "termination"})
				}
			}
		}
	}
}

var jobFiles []*os.File // see jobserver

func spawn(self, key, tier, repo, cdir string, deadline time.Time) *WorkRes {
	lim := 400 * time.Second
	if tier == "thorough" {
		lim = 700 * time.Second
	}
	if d := time.Until(deadline); d < lim {
		lim = d
	}
	ctx, cancel := context.WithTimeout(context.Background(), lim)
	defer cancel()
	cmd := exec.CommandContext(ctx, self, "work", "-tier", tier, "-repo", repo, "-contracts", cdir, key)
	var out, er bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &er
	if jobFiles != nil {
		cmd.ExtraFiles = jobFiles
		cmd.Env = append(os.Environ(), "GOVER_JOBS=1")
	}
	err := cmd.Run()
	var r WorkRes
	if err == nil {
		if e := json.Unmarshal(out.Bytes(), &r); e == nil {
			return &r
		}
	}
	msg := er.String()
	if len(msg) > 1500 {
		msg = msg[:1500]
	}
	what := "verifier failed"
	if ctx.Err() != nil {
		what = "verifier ran out of time"
	}
	return &WorkRes{Key: key, Obls: []OblJ{{Name: key + "/" + what, Kind: "verifier", Goal: msg, Status: fmt.Sprint(err)}}}
}
