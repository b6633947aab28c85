package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gover func KEY... | lemma NAME... | check PROP | list")
		os.Exit(2)
	}
	cmd := os.Args[1]
	if p := os.Getenv("GOVER_PROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer func() {
			pprof.StopCPUProfile()
		}()
	}
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	cdir := fs.String("contracts", "/verif/contracts", "")
	verbose := fs.Bool("v", false, "")
	cache := fs.String("cache", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Int("seed", 1, "")
	verif := fs.String("verif", "/verif", "")
	secs := fs.Int("secs", 20, "")
	fs.Parse(os.Args[2:])
	if cmd == "harness" {
		a := fs.Args()
		h := runHarness(*repo, *verif, a[0], a[1], *secs, *seed, *tier)
		fmt.Printf("ran=%v failed=%v n=%d %.1fs\ninput: %s\n%s\nsamples %v\n", h.Ran, h.Failed, h.Count, h.WallS, h.Input, h.Output, h.Samples)
		if h.Failed || !h.Ran {
			os.Exit(1)
		}
		return
	}
	if *cache != "" {
		os.MkdirAll(*cache, 0755)
		cacheDir = *cache
	}
	_ = runtime.NumCPU()
	P, err := loadProgram(*repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(3)
	}
	findMutable(P)
	db := newSpecDB(P)
	if err := db.LoadDir(*cdir); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if cmd == "check" {
		self, _ := os.Executable()
		os.Exit(runCheck(db, self, fs.Arg(0), *tier, *seed, *repo, *cdir, *verif))
	}
	notes := runInit(db, "binutil", "scheme", "tdt", "filtering")
	if len(notes) > 0 && *verbose {
		fmt.Fprintln(os.Stderr, notes)
	}
	switch cmd {
	case "work":
		d, _ := json.Marshal(work(db, fs.Arg(0), *tier))
		os.Stdout.Write(d)
	case "func", "lemma", "all":
		args := fs.Args()
		bad := 0
		for _, k := range args {
			if cmd == "lemma" {
				lm := db.Lemmas[k]
				if lm == nil {
					fmt.Println("no lemma", k)
					continue
				}
				ob := lemmaObls(db, lm)
				solveObls(ob)
				bad += report(k, ob, *verbose)
				continue
			}
			c := db.Contracts[k]
			if c == nil {
				fmt.Println("no contract", k)
				bad++
				continue
			}
			t0 := time.Now()
			r := verifyFunc(db, c)
			t1 := time.Now()
			bad += report(k, r.Obls, *verbose)
			fmt.Printf("   gen %.1fs solve %.1fs steps %d inlined %v called %v assumed %v\n", t1.Sub(t0).Seconds(), time.Since(t1).Seconds(), r.Steps, r.Inlined, r.Called, r.Assumed)
		}
		if bad > 0 {
			os.Exit(1)
		}
	case "list":
		var ks []string
		for k := range P.Funcs {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		fmt.Println(strings.Join(ks, "\n"))
	}
	_ = sync.Mutex{}
}

func report(k string, obls []*Obl, verbose bool) int {
	n := 0
	for _, o := range obls {
		if o.Proved == "" {
			n++
			fmt.Printf("  FAIL %s (%s) [%s] %s\n", o.Name, o.Kind, o.Pos, o.Res.Status)
			if os.Getenv("GOVER_SHOW") != "" {
				for _, h := range o.Hyps {
					fmt.Println("      hyp", h)
				}
				fmt.Println("      goal", o.Goal)
			}
		} else if verbose {
			fmt.Printf("  ok   %s (%s) %s %s\n", o.Name, o.Kind, o.Proved, o.Pos)
		}
	}
	fmt.Printf("%s: %d obligations, %d failed\n", k, len(obls), n)
	return n
}
