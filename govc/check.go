package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"
)

var quickTO, retryTO = 10 * time.Second, 60 * time.Second

type oblReport struct {
	Contract   string  `json:"contract"`
	Obligation string  `json:"obligation"`
	Kind       string  `json:"kind"`
	Where      string  `json:"where,omitempty"`
	Count      int     `json:"count"`
	By         string  `json:"by"`
	Seconds    float64 `json:"seconds"`
}

type known struct {
	prop, contract, obl, note string
}

func readKnown(p string) []known {
	b, err := os.ReadFile(p)
	if err != nil {
		return nil
	}
	var r []known
	re := regexp.MustCompile(`^KNOWN property=(\S+) contract=(\S+) obligation="([^"]*)"\s*(.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			r = append(r, known{m[1], m[2], m[3], m[4]})
		}
	}
	return r
}

// dirsFor lists the contract directories which mention the property.
func dirsFor(cdir, prop string) (map[string]bool, error) {
	want := map[string]bool{}
	re := regexp.MustCompile(`(?m)^//govc:(contract|lemma)\b.*\bprop=(\S+)`)
	err := filepath.Walk(cdir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		for _, m := range re.FindAllStringSubmatch(string(b), -1) {
			for _, q := range strings.Split(m[2], ",") {
				if q == prop {
					rel, _ := filepath.Rel(cdir, filepath.Dir(p))
					want[rel] = true
				}
			}
		}
		return nil
	})
	return want, err
}

var useRe = regexp.MustCompile(`(?m)^//govc:use (\S+)`)

// closeUses adds the directories named by //govc:use directives.
func closeUses(cdir string, want map[string]bool) {
	for again := true; again; {
		again = false
		for d := range want {
			fs, _ := filepath.Glob(filepath.Join(cdir, d, "*.go"))
			for _, f := range fs {
				b, _ := os.ReadFile(f)
				for _, m := range useRe.FindAllStringSubmatch(string(b), -1) {
					if !want[m[1]] {
						want[m[1]], again = true, true
					}
				}
			}
		}
	}
}

func hasProp(c *Contract, p string) bool {
	for _, q := range c.props {
		if q == p {
			return true
		}
	}
	return false
}

type failure struct {
	c   *Contract
	o   *Obl
	res *ContractResult
	msg string
}

func (f failure) name() string {
	if f.o != nil {
		return f.o.name
	}
	return f.msg
}

type checker struct {
	ld           *Loaded
	prop         string
	tier         string
	seed         int64
	start        time.Time
	limit        time.Duration
	results      []*ContractResult
	failures     []failure
	notes        []string
	usedMod      map[string]bool
	retried      int
	inlinedAll   []string
	covered      int
	coverUnknown int
	typeList     []types.Type
}

func (ck *checker) left() time.Duration { return ck.limit - time.Since(ck.start) }

// prove verifies one contract; the result carries undischarged obligations.
func (ck *checker) prove(c *Contract, noMod bool) (*ContractResult, []failure) {
	ex := NewExec(ck.ld)
	ex.noMod = noMod
	budget := 120 * time.Second
	if ck.tier == "thorough" {
		budget = 300 * time.Second
	}
	if l := ck.left() / 2; l < budget {
		budget = l
	}
	res := ex.verify(c, budget)
	ck.typeList = ex.typeList
	dischargeSome(res.obls, quickTO)
	splitAll(res.obls, 40*time.Second)
	var fails []failure
	if res.err != "" {
		fails = append(fails, failure{c: c, res: res, msg: res.err})
	}
	var retry []*Obl
	for _, o := range res.obls {
		if o.res.status != "unsat" && o.res.status != "skipped" && (o.res.status != "sat" || o.weak) {
			retry = append(retry, o)
		}
	}
	if len(retry) > 0 && len(retry) <= 12 && ck.left() > 2*retryTO {
		ck.retried += len(retry)
		for _, o := range retry {
			// a different instantiation depth
			q, triv := BuildQuery(o.ctx.Facts(), o.ctx.Simp(o.goal), o.hints, 5)
			if triv {
				o.res = Result{status: "unsat", solver: "simplifier"}
				continue
			}
			o.retry = q
		}
		done := make(chan bool, len(retry))
		for _, o := range retry {
			o := o
			go func() {
				if o.retry != nil {
					r := o.retry.Solve(retryTO, true)
					if r.status == "unsat" || r.status == "sat" {
						o.res = r
					}
				}
				done <- true
			}()
		}
		for range retry {
			<-done
		}
	}
	for _, o := range res.obls {
		if o.res.status != "unsat" && o.res.status != "skipped" {
			fails = append(fails, failure{c: c, o: o, res: res})
		}
	}
	// vacuity guard
	if res.err == "" && len(fails) == 0 {
		ok, unknown, tries := false, false, 0
		for _, cv := range res.cover {
			if cv.ctx.dead {
				continue
			}
			q, triv := BuildQuery(cv.ctx.Facts(), False, nil, 2)
			if triv {
				continue
			}
			r := q.Solve(8*time.Second, false)
			if r.status == "sat" {
				ok = true
				break
			}
			if r.status != "unsat" {
				unknown = true
				if tries++; tries >= 4 {
					break
				}
			}
		}
		if ok {
			ck.covered++
		} else if unknown {
			ck.covered++
			ck.coverUnknown++
		} else {
			fails = append(fails, failure{c: c, res: res, msg: "no execution reaches the end of the contract (the postconditions hold vacuously)"})
		}
		if len(res.obls) == 0 {
			fails = append(fails, failure{c: c, res: res, msg: "the contract generated no obligation"})
		}
	}
	return res, fails
}

func check(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("property", "", "")
	tier := fs.String("tier", "quick", "")
	repo := fs.String("repo", "/repo", "")
	cdir := fs.String("contracts", "/verif/contracts", "")
	out := fs.String("out", "/verif/evidence", "")
	knownFile := fs.String("known", "/verif/KNOWN_FINDINGS.txt", "")
	fs.StringVar(&dumpDir, "dump", "", "")
	noReplay := fs.Bool("noreplay", false, "")
	fs.Parse(args)
	if s := os.Getenv("VERIF_TIER"); s != "" && *tier == "" {
		*tier = s
	}
	var seed int64 = 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	ck := &checker{prop: *prop, tier: *tier, seed: seed, start: time.Now(), limit: 600 * time.Second, usedMod: map[string]bool{}}
	if *tier == "thorough" {
		quickTO, retryTO = 30*time.Second, 180*time.Second
		ck.limit = 740 * time.Second
	}
	// when the proof of changed code does not end, say so in time
	time.AfterFunc(ck.limit+100*time.Second, func() {
		p := filepath.Join(*out, "replay", *prop+"_timeout.txt")
		os.MkdirAll(filepath.Dir(p), 0o755)
		os.WriteFile(p, []byte("the verification did not end within its time limit\n"), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", *prop, p)
		os.Exit(1)
	})
	want, err := dirsFor(*cdir, *prop)
	if err != nil || len(want) == 0 {
		fmt.Fprintln(os.Stderr, "no contracts for property", *prop, err)
		return 2
	}
	ld, err := Load(*cdir, *repo, want)
	if err != nil {
		// the build is checked elsewhere; without a program nothing can be decided
		fmt.Fprintln(os.Stderr, "load:", err)
		return ck.finish(nil, *out, *repo, *knownFile, []failure{{msg: "the program cannot be loaded: " + err.Error()}}, true)
	}
	ck.ld = ld
	var fails []failure
	for _, m := range ld.missing {
		if strings.Contains(m, "prop=") && regexp.MustCompile(`prop=(\S*,)?`+*prop+`\b`).MatchString(m) && !strings.Contains(m, " support") {
			fails = append(fails, failure{msg: "contract does not fit the current code: " + m})
		} else {
			ck.notes = append(ck.notes, "helper specification dropped (does not fit the current code): "+m)
		}
	}
	for {
		ck.results = nil
		ck.failures = nil
		done := map[*Contract]bool{}
		var work []*Contract
		for _, c := range ld.contracts {
			if hasProp(c, *prop) {
				if c.opts["tier"] == "thorough" && *tier != "thorough" {
					continue
				}
				work = append(work, c)
			}
		}
		redo := false
		for len(work) > 0 && !redo {
			c := work[0]
			work = work[1:]
			if done[c] || c.dropped {
				continue
			}
			done[c] = true
			res, fl := ck.prove(c, false)
			for id := range res.modular {
				ck.usedMod[id] = true
			}
			// a result given by equations (def) loses nothing to the body
			inline := false
			for id := range res.modular {
				for _, d := range ld.contracts {
					inline = inline || d.id == id && d.modular && !d.flags["def"]
				}
			}
			if len(fl) > 0 && inline && ck.left() > 200*time.Second {
				r2, fl2 := ck.prove(c, true)
				if len(fl2) < len(fl) || len(fl2) == 0 {
					ck.notes = append(ck.notes, "verified without callee contracts: "+c.id)
					res, fl = r2, fl2
				}
			}
			support := !hasProp(c, *prop) || c.flags["support"]
			if len(fl) > 0 && support {
				// a helper contract which does not hold is not used
				c.dropped = true
				ck.notes = append(ck.notes, "helper contract dropped: "+c.id+" ("+fl[0].name()+")")
				redo = true
				break
			}
			ck.results = append(ck.results, res)
			ck.failures = append(ck.failures, fl...)
			for id := range res.modular {
				for _, d := range ld.contracts {
					if d.id == id && d.modular && !done[d] && !d.dropped {
						work = append(work, d)
					}
				}
			}
		}
		if !redo {
			break
		}
	}
	fails = append(fails, ck.failures...)
	return ck.finish(ld, *out, *repo, *knownFile, fails, *noReplay)
}

func (ck *checker) finish(ld *Loaded, out, repo, knownFile string, fails []failure, noReplay bool) int {
	type agg struct {
		r     oblReport
		total int
	}
	by := map[string]int{}
	var list []oblReport
	idx := map[string]int{}
	nObl, nOK, nTriv, nBnd, nBndOK := 0, 0, 0, 0, 0
	var funcs, bounded, inlined []string
	trusted := map[string]bool{}
	inl := map[string]bool{}
	var execS float64
	for _, r := range ck.results {
		if r.c.flags["bounded"] {
			bounded = append(bounded, r.c.id)
		} else if r.c.target != nil {
			funcs = append(funcs, r.c.id)
		} else {
			funcs = append(funcs, r.c.id+" (lemma)")
		}
		for k := range r.inlined {
			if !strings.Contains(k, ".verif_") && !strings.Contains(k, ".inv_") {
				inl[k] = true
			}
		}
		for k := range r.trusted {
			trusted[k] = true
		}
		ck.notes = append(ck.notes, r.notes...)
		execS += r.execTime.Seconds()
		for _, o := range r.obls {
			if r.c.flags["bounded"] {
				nBnd++
				if o.res.status == "unsat" {
					nBndOK++
				}
				continue
			}
			nObl++
			if o.res.status == "unsat" {
				nOK++
				by[o.res.solver]++
				if o.res.solver == "simplifier" {
					nTriv++
				}
			}
			key := r.c.id + "|" + o.kind + "|" + o.name
			if i, ok := idx[key]; ok {
				list[i].Count++
				list[i].Seconds += o.res.dur.Seconds()
				if o.res.solver != "" && !strings.Contains(list[i].By, o.res.solver) {
					list[i].By += "," + o.res.solver
				}
			} else {
				idx[key] = len(list)
				w := ""
				if ld != nil && o.kind != "ensures" && o.pos.IsValid() {
					p := ld.fset.Position(o.pos)
					w = fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, repo+"/"), p.Line)
				}
				list = append(list, oblReport{Contract: r.c.id, Obligation: o.name, Kind: o.kind, Where: w, Count: 1, By: o.res.solver, Seconds: o.res.dur.Seconds()})
			}
		}
	}
	for k := range inl {
		inlined = append(inlined, k)
	}
	sort.Strings(inlined)
	sort.Strings(funcs)
	// violations
	kn := readKnown(knownFile)
	code := 0
	var viol []map[string]interface{}
	os.MkdirAll(filepath.Join(out, "replay"), 0o755)
	reported := map[string]bool{}
	nrep := 0
	for _, f := range fails {
		cid := "-"
		if f.c != nil {
			cid = f.c.id
		}
		matched := false
		for _, k := range kn {
			if k.prop == ck.prop && k.contract == cid && k.obl == f.name() {
				matched = true
				if !reported["known"+cid+f.name()] {
					reported["known"+cid+f.name()] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s: %s %s\n", ck.prop, cid, f.name(), k.note)
				}
			}
		}
		if matched {
			continue
		}
		key := cid
		if reported[key] {
			continue
		}
		reported[key] = true
		nrep++
		path := filepath.Join(out, "replay", fmt.Sprintf("%s_%d.txt", ck.prop, nrep))
		confirmed, text := false, ""
		if !noReplay && f.c != nil {
			var fl []failure
			for _, g := range fails {
				if g.c == f.c {
					fl = append(fl, g)
				}
			}
			confirmed, text = ck.replay(f.c, fl, repo, out, nrep)
		}
		var sb strings.Builder
		fmt.Fprintf(&sb, "property: %s\ncontract: %s\n", ck.prop, cid)
		for _, g := range fails {
			if g.c == f.c {
				fmt.Fprintf(&sb, "failed obligation: %s\n", g.name())
				if g.o != nil {
					fmt.Fprintf(&sb, "  kind: %s at %s (function %s) case %q\n  verifier: %s by %s\n  goal: %s\n", g.o.kind, ld.fset.Position(g.o.pos), g.o.fn, g.o.run, g.o.res.status, g.o.res.solver, trunc(g.o.ctx.Simp(g.o.goal).String(), 2000))
					if g.o.res.model != nil {
						var ms []string
						for t, v := range g.o.res.model {
							if !strings.Contains(t.String(), "!") {
								ms = append(ms, trunc(t.String(), 100)+" = "+v.String())
							}
						}
						sort.Strings(ms)
						fmt.Fprintf(&sb, "  counterexample of the verifier:\n    %s\n", trunc(strings.Join(ms, "\n    "), 4000))
					} else {
						fmt.Fprintf(&sb, "  verifier output: %s\n", trunc(g.o.res.out, 1500))
					}
				}
			}
		}
		sb.WriteString(text)
		os.WriteFile(path, []byte(sb.String()), 0o644)
		line := fmt.Sprintf("VIOLATION property=%s replay=%s", ck.prop, path)
		if !confirmed {
			line += " no-failing-input-found"
		}
		fmt.Printf("failed obligation: %s: %s\n", cid, f.name())
		fmt.Println(line)
		viol = append(viol, map[string]interface{}{"contract": cid, "obligation": f.name(), "replay": path, "confirmed_on_real_code": confirmed})
		code = 1
	}
	var tl []string
	for k := range trusted {
		tl = append(tl, k)
	}
	sort.Strings(tl)
	if len(list) > 150 {
		sort.SliceStable(list, func(i, j int) bool { return rank(list[i].Kind) < rank(list[j].Kind) })
		list = list[:150]
	}
	level := "proof"
	if len(bounded) > 0 {
		level = "other"
	}
	if nObl == 0 {
		nObl = len(fails)
	}
	ev := map[string]interface{}{
		"property": ck.prop, "tier": ck.tier, "seed": ck.seed, "level": level,
		"coverage": map[string]interface{}{
			"obligations": nObl, "discharged": nOK,
			"checker_cmd":                  "govc check -property " + ck.prop + " -tier " + ck.tier,
			"trusted_base":                 append([]string{"govc (go/ssa front end, symbolic execution, term normaliser)", "z3 5.3 / cvc5 1.1 / z3 4.8", "golang.org/x/tools/go/ssa"}, tl...),
			"functions_under_contract":     funcs,
			"repository_functions_reached": inlined,
			"discharged_by":                by,
			"decided_by_simplifier":        nTriv,
			"symbolic_runs":                runsOf(ck.results),
			"reachability_checked":         ck.covered,
			"obligation_list":              list,
			"exec_seconds":                 round2(execS),
			"solver_seconds":               round2(float64(solverNanos) / 1e9),
			"solver_calls":                 solverCalls,
			"callee_contracts_used":        keys(ck.usedMod),
		},
		"wall_s":      round2(time.Since(ck.start).Seconds()),
		"assumptions": assumptions,
		"notes":       uniq(ck.notes),
	}
	if len(bounded) > 0 {
		sort.Strings(bounded)
		cv := ev["coverage"].(map[string]interface{})
		cv["bounded_not_counted_as_proved"] = bounded
		cv["bounded_obligations"], cv["bounded_discharged"] = nBnd, nBndOK
		cv["explanation"] = "deductive verification as for the proved properties, but the contracts listed under bounded_not_counted_as_proved hold only for inputs of the sizes their preconditions name (every content within these sizes); obligations/discharged count the unbounded contracts only"
	}
	if len(viol) > 0 {
		ev["violations"] = viol
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if len(b) > 60000 {
		ev["coverage"].(map[string]interface{})["obligation_list"] = list[:min(len(list), 40)]
		b, _ = json.MarshalIndent(ev, "", " ")
	}
	os.MkdirAll(out, 0o755)
	os.WriteFile(filepath.Join(out, ck.prop+".json"), b, 0o644)
	fmt.Printf("%s: %d contracts, %d obligations, %d discharged (%v), bounded %d/%d, %d failures, %.1fs\n", ck.prop, len(ck.results), nObl, nOK, by, nBndOK, nBnd, len(fails), time.Since(ck.start).Seconds())
	return code
}

func rank(k string) int {
	switch k {
	case "ensures":
		return 0
	case "requires", "lemma":
		return 1
	case "frame":
		return 2
	case "loop-invariant":
		return 3
	}
	return 4
}

func runsOf(rs []*ContractResult) int {
	n := 0
	for _, r := range rs {
		n += r.runs
	}
	return n
}

func round2(f float64) float64 { return float64(int(f*100)) / 100 }

func keys(m map[string]bool) []string {
	r := []string{}
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func uniq(s []string) []string {
	m := map[string]bool{}
	r := []string{}
	for _, x := range s {
		if !m[x] && len(r) < 60 {
			m[x] = true
			r = append(r, x)
		}
	}
	return r
}

var assumptions = []string{
	"partial correctness: termination is not proved",
	"slice and string lengths are at most 2^47; memory allocation succeeds",
	"parameters do not refer to package-level variables; package-level variables never assigned outside initialisation keep their initial values",
	"sequential execution: other goroutines do not interfere between the steps of a verified function except where a contract says so",
	"functions listed as trusted behave as their models say (math/big arithmetic, fmt formatting, sync locks)",
	"the go/ssa translation of the source preserves its meaning; 64-bit int",
}
