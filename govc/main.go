package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: govc check|dev ...")
		os.Exit(2)
	}
	debug.SetGCPercent(400)
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2:]))
	case "dev":
		dev(os.Args[2:])
	default:
		os.Exit(2)
	}
}

func dev(args []string) {
	fs := flag.NewFlagSet("dev", flag.ExitOnError)
	only := fs.String("only", "", "contract id substring")
	pkg := fs.String("pkg", "", "package directories, comma separated")
	to := fs.Duration("timeout", 10*time.Second, "solver timeout")
	budget := fs.Duration("budget", 120*time.Second, "execution budget")
	repo := fs.String("repo", "/repo", "")
	cdir := fs.String("contracts", "/verif/contracts", "")
	verbose := fs.Bool("v", false, "")
	maxShow := fs.Int("n", 3, "failures to show per contract")
	width := fs.Int("w", 220, "output width")
	fs.StringVar(&dumpDir, "dump", "", "")
	prof := fs.String("prof", "", "")
	fs.Parse(args)
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	var want map[string]bool
	if *pkg != "" {
		want = map[string]bool{}
		for _, p := range strings.Split(*pkg, ",") {
			want[p] = true
		}
	}
	t0 := time.Now()
	ld, err := Load(*cdir, *repo, want)
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(1)
	}
	fmt.Printf("loaded in %.1fs, %d contracts\n", time.Since(t0).Seconds(), len(ld.contracts))
	for _, m := range ld.missing {
		fmt.Println("MISSING", m)
	}
	ex := NewExec(ld)
	for _, c := range ld.contracts {
		if *only != "" && !strings.Contains(c.id, *only) {
			continue
		}
		t1 := time.Now()
		r := ex.verify(c, *budget)
		t2 := time.Now()
		dischargeAll(r.obls, *to, true)
		splitAll(r.obls, 40*time.Second)
		bad := 0
		for _, o := range r.obls {
			if os_debug && o.res.dur > 300*time.Millisecond {
				fmt.Printf("   slow %.1fs %s %s run=%s by %s: %s\n", o.res.dur.Seconds(), o.res.status, o.name, o.run, o.res.solver, trunc(o.ctx.Simp(o.goal).String(), *width*2))
			}
			if o.res.status != "unsat" {
				bad++
			}
		}
		fmt.Printf("%-50s runs=%d obls=%d failed=%d exec=%.1fs solve=%.1fs %s\n", c.id, r.runs, len(r.obls), bad, t2.Sub(t1).Seconds(), time.Since(t2).Seconds(), r.err)
		shown := 0
		for _, o := range r.obls {
			if o.res.status != "unsat" {
				shown++
			}
			if o.res.status != "unsat" && shown <= *maxShow || *verbose {
				fmt.Printf("   [%s] %s %s %s run=%s by %s %.2fs\n", o.res.status, o.kind, o.name, ld.fset.Position(o.pos), o.run, o.res.solver, o.res.dur.Seconds())
				if o.res.status != "unsat" {
					g := o.ctx.Simp(o.goal).String()
					fmt.Println("       goal", trunc(g, *width))
					if *verbose {
						for _, f := range o.ctx.Facts() {
							fmt.Println("       fact", trunc(f.String(), 300))
						}
					}
					if o.res.status == "sat" {
						var ms []string
						for t, v := range o.res.model {
							ms = append(ms, fmt.Sprintf("%s=%s", trunc(t.String(), 60), v))
						}
						sort.Strings(ms)
						fmt.Println("       model", trunc(strings.Join(ms, " "), *width*2))
					} else {
						fmt.Println("       ", trunc(o.res.out, *width))
					}
				}
			}
		}
		for i, cv := range r.cover {
			if i > 8 {
				break
			}
			q, triv := BuildQuery(cv.ctx.Facts(), False, nil, 2)
			st := "vacuous"
			if !triv {
				st = q.Solve(5*time.Second, false).status
			}
			if st != "sat" {
				fmt.Printf("   cover %s: %s\n", cv.run, st)
			}
		}
		for _, n := range r.notes {
			fmt.Println("   note:", n)
		}
		ex.notes = nil
	}
	fmt.Printf("solver calls %d, cpu %.1fs\n", solverCalls, float64(solverNanos)/1e9)
}
