package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

var printNames bool

func main() {
	repo := flag.String("repo", "/repo", "repository to analyse")
	prop := flag.String("prop", "", "property id, or all")
	verif := flag.String("verif", "/verif", "directory with the known findings; evidence is written below it")
	tier := flag.String("tier", "quick", "quick or thorough")
	verbose := flag.Bool("v", false, "print every obligation")
	noEv := flag.Bool("noevidence", false, "do not write evidence")
	dump := flag.String("dump", "", "development: dump the analysis of one function (arguments: boundaries)")
	flag.BoolVar(&printNames, "gennames", false, "development: print the contents of names.txt")
	flag.Parse()
	if t := os.Getenv("VERIF_TIER"); t != "" && *tier == "" {
		*tier = t
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	os.Exit(run(*repo, *prop, *verif, *tier, seed, *verbose, *noEv, *dump))
}

func run(repo, prop, verif, tier string, seed int, verbose, noEv bool, dump string) (code int) {
	start := time.Now()
	var w *World
	var loadErr string
	func() {
		defer func() {
			if r := recover(); r != nil {
				loadErr = fmt.Sprint(r)
				if a, ok := r.(abort); ok {
					loadErr = a.msg
				}
			}
		}()
		w = loadWorld(repo)
	}()
	if os.Getenv("BOUNDS") != "" {
		boundsExperiment(w, strings.Trim(os.Getenv("BOUNDS"), "1"))
	}
	if dump != "" {
		x := newAnalysis(w)
		f := w.lookup(dump)
		x.trace = os.Getenv("TRACE") != ""
		x.opaqueFns(flag.Args()...)
		ps := params(f)
		if i, err := strconv.Atoi(os.Getenv("WATCH")); err == nil {
			x.watch = fieldOf(ps[i], errField)
			x.watch0 = at(x.watch)
		}
		x.dump(x.Run(f, ps, newState()))
		return 0
	}
	sort.Slice(checks, func(i, j int) bool { return checks[i].id < checks[j].id })
	found := false
	for _, d := range checks {
		if prop != "all" && prop != d.id {
			continue
		}
		found = true
		t0 := time.Now()
		if prop != "all" {
			t0 = start
		}
		var c *Check
		if loadErr != "" {
			c = newCheck(d.id, nil)
			c.req(false, "the repository loads and type-checks", repo, "%s", loadErr)
		} else {
			c = runCheck(d, w, tier)
		}
		if c.report(verif, verbose, noEv, tier, seed, t0) {
			code = 1
		}
	}
	if !found {
		fmt.Printf("no check for property %q\n", prop)
		return 1
	}
	return code
}

// known findings: "known: property=<id> <key>" lines; the key is "<rule> @ <construct>".
func knownFindings(verif, id string) map[string]bool {
	m := map[string]bool{}
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		p := "known: property=" + id + " "
		if strings.HasPrefix(l, p) {
			m[strings.TrimSpace(strings.TrimPrefix(l, p))] = true
		}
	}
	return m
}

// key identifies an obligation without line numbers.
func (o *Obl) key() string {
	wh := o.Where
	if i := strings.Index(wh, " "); i >= 0 && strings.Contains(wh[:i], ".go:") {
		wh = wh[i+1:]
	}
	return o.Rule + " @ " + wh
}

func (c *Check) report(verif string, verbose, noEv bool, tier string, seed int, t0 time.Time) bool {
	known := knownFindings(verif, c.id)
	var bad []*Obl
	for _, o := range c.obls {
		if o.OK {
			if verbose {
				fmt.Printf("  ok   %s @ %s\n", o.Rule, o.Where)
			}
			continue
		}
		if known[o.key()] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.id, o.key())
			o.OK = true
			continue
		}
		bad = append(bad, o)
	}
	if !noEv {
		c.evidence(filepath.Join(verif, "evidence"), tier, seed, t0)
	}
	if len(bad) == 0 {
		fmt.Printf("OK property=%s: %d obligations, %d functions, %d call sites, %d loops, %d exit paths (%.1fs)\n",
			c.id, len(c.obls), len(c.used), c.sites, c.loops, c.paths, time.Since(t0).Seconds())
		return false
	}
	var sb strings.Builder
	for _, o := range bad {
		fmt.Fprintf(&sb, "rule: %s\n  at: %s\n  %s\n", o.Rule, o.Where, o.Detail)
	}
	fmt.Print(sb.String())
	path := filepath.Join(verif, "evidence", c.id+".violation.txt")
	if !noEv {
		os.WriteFile(path, []byte(sb.String()), 0o644)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, path)
	return true
}
