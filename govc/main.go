package main

import (
	"flag"
	"fmt"
	"os"
	"regexp"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: govc check|run|list …")
		os.Exit(2)
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	repo := fs.String("repo", "/repo", "source tree")
	verif := fs.String("verif", "/verif", "verification tree")
	prop := fs.String("prop", "", "property id")
	tier := fs.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	run := fs.String("run", "", "regexp of harness names")
	workers := fs.Int("j", 8, "parallel harnesses")
	limit := fs.Int("limit", 100, "seconds per harness")
	verbose := fs.Bool("v", false, "verbose")
	follow := fs.Bool("follow", true, "also verify the contracts relied on")
	fs.Parse(os.Args[2:])
	switch cmd {
	case "list", "run", "check", "replay":
	default:
		os.Exit(2)
	}
	t0 := time.Now()
	w, err := loadWorld(*repo, *verif+"/contracts")
	if err != nil {
		fmt.Fprintln(os.Stderr, "govc:", err)
		if cmd == "check" {
			os.Exit(reportLoadFailure(*verif, *prop, err))
		}
		os.Exit(2)
	}
	load := time.Since(t0)
	switch cmd {
	case "list":
		for _, h := range w.harnesses {
			fmt.Println(h.id(), h.kind, h.props, h.targetName)
		}
		for _, d := range w.dropped {
			fmt.Printf("DROPPED %q\n", d)
		}
	case "run":
		var re *regexp.Regexp
		if *run != "" {
			re = regexp.MustCompile(*run)
		}
		for _, d := range w.dropped {
			fmt.Printf("DROPPED %q\n", d)
		}
		r := checkProp(w, *prop, *tier, re, *workers, time.Duration(*limit)*time.Second, *follow && *prop != "")
		bad := 0
		for _, t := range r.tasks {
			bad += printTask(t, *verbose)
		}
		fmt.Printf("load %.1fs verify %.1fs harnesses %d bad %d\n", load.Seconds(), r.elapsed.Seconds(), len(r.tasks), bad)
		if bad > 0 {
			os.Exit(1)
		}
	case "replay":
		// runs the contracts on generated inputs, whatever the verifier says
		var re *regexp.Regexp
		if *run != "" {
			re = regexp.MustCompile(*run)
		}
		var ts []*Task
		for _, h := range w.harnesses {
			if (*prop == "" || hasProp(h, *prop)) && (re == nil || re.MatchString(h.id())) {
				ts = append(ts, newTask(w, h, *prop))
			}
		}
		allObservable = true
		hits, raw := replay(w, *repo, *verif, *prop, *tier, ts, nil, nil)
		for _, h := range hits {
			fmt.Printf("HIT %s %s iteration %d\n   %s\n   %s\n", h.Harness, h.Obligation, h.Iteration, clip(h.Input, 1500), clip(h.Panic, 1500))
		}
		fmt.Println(raw)
		if len(hits) > 0 {
			os.Exit(1)
		}
	case "check":
		os.Exit(report(w, *repo, *verif, *prop, *tier, *workers, time.Duration(*limit)*time.Second, load))
	}
}

func printTask(t *Task, verbose bool) int {
	n, inst, bad := 0, 0, 0
	for _, o := range t.obls {
		n++
		inst += o.Instances
		if o.Status != "proved" {
			bad++
		}
	}
	st := "ok  "
	if bad > 0 || t.err != "" {
		st = "FAIL"
		bad++
	}
	fmt.Printf("%s %-50s obl=%d inst=%d paths=%d feas=%d q=%d %dms %s\n", st, t.h.id(), n, inst, t.paths, t.feas, t.queries, t.millis, t.err)
	for _, k := range t.order {
		o := t.obls[k]
		if o.Status != "proved" || verbose {
			fmt.Printf("       %-9s %-60s x%d %dms %v\n", o.Status, o.Name, o.Instances, o.Millis, o.Backends)
			if o.Detail != "" {
				fmt.Printf("           %s\n", clip(o.Detail, 12000))
			}
			if len(o.Model) > 0 {
				fmt.Printf("           model %v\n", o.Model)
			}
		}
	}
	if verbose {
		fmt.Printf("       inlined %v\n       applied %v\n       models %v ext %v\n", keys(t.inlined), len(t.appliedH), keys(t.models), keys(t.externals))
	}
	return bad
}
