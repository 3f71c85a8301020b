package main

import (
	"fmt"
	"math/big"
	"os"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// dischargeAll decides the obligations; queries are built sequentially and solved in parallel.
func dischargeAll(os_ []*Obl, to time.Duration, model bool) {
	for phase := 0; phase < 2; phase++ {
		strict := phase == 0
		pto := to
		if strict && to > 10*time.Second {
			pto = 10 * time.Second
		}
		var wg sync.WaitGroup
		for _, o := range os_ {
			if o.res.status == "unsat" || o.auto && phase > 0 {
				continue
			}
			g := o.ctx.Simp(o.goal)
			if g == True || o.ctx.dead {
				o.res = Result{status: "unsat", solver: "simplifier"}
				continue
			}
			if strict && congProves(o.ctx, g) {
				o.res = Result{status: "unsat", solver: "simplifier"}
				continue
			}
			tb := time.Now()
			q, triv := buildQuery(o.ctx.Facts(), g, o.hints, 3, strict)
			if os_debug && time.Since(tb) > time.Second {
				fmt.Fprintf(os2, "   slow query %.1fs strict=%v ninst=%d %s\n", time.Since(tb).Seconds(), strict, lastInst, o.name)
			}
			if triv {
				o.res = Result{status: "unsat", solver: "simplifier"}
				continue
			}
			wg.Add(1)
			o := o
			go func() {
				defer wg.Done()
				r := q.Solve(pto, model)
				if os_debug && time.Since(tb) > time.Second {
					fmt.Fprintf(os2, "   slow solve %.1fs strict=%v %s run=%s: %s goal %s\n", time.Since(tb).Seconds(), strict, r.status, o.run, o.name, trunc(g.String(), 700))
				}
				if o.res.status == "sat" && r.status != "unsat" && r.status != "sat" {
					o.weak = true
					return // keep the counterexample candidate
				}
				o.res = r
			}()
		}
		wg.Wait()
	}
}

// maxFailed: a contract with this many failed obligations is not looked at further.
const maxFailed = 24

// dischargeSome discharges the obligations of a contract; after too many
// failures the others are left undecided (status "skipped").
func dischargeSome(os_ []*Obl, to time.Duration) {
	const chunk = 512
	for i := 0; i < len(os_); i += chunk {
		part := os_[i:min(i+chunk, len(os_))]
		dischargeAll(part, to, true)
		n := 0
		for _, o := range os_[:i+len(part)] {
			if o.res.status != "unsat" {
				n++
			}
		}
		if n >= maxFailed {
			for _, o := range os_[i+len(part):] {
				if o.res.status != "unsat" {
					o.res = Result{status: "skipped"}
				}
			}
			return
		}
	}
}

// Verification of one contract.
type ContractResult struct {
	c        *Contract
	obls     []*Obl
	err      string
	runs     int
	cover    []coverRec
	params   []Value
	names    []string
	inlined  map[string]bool
	modular  map[string]bool
	trusted  map[string]bool
	notes    []string
	execTime time.Duration
	states   []*State
}

type coverRec struct {
	run string
	ctx *Ctx
	res Result
}

func resetTerms() {
	// terms are kept for the whole process
}

func (ex *Exec) verify(c *Contract, budget time.Duration) (res *ContractResult) {
	res = &ContractResult{c: c}
	ex.curNoMod = c.flags["nomod"]
	strIDs = c.flags["strids"]
	distributeBits = !c.flags["wordwise"]
	ex.reveal = map[string]bool{}
	for _, n := range strings.Split(c.opts["reveal"], ",") {
		ex.reveal["spec."+c.pkg+"."+n] = true
	}
	t0 := time.Now()
	type job struct{ split []int }
	work := []job{{nil}}
	initState.ctx = NewCtx()
	for len(work) > 0 {
		j := work[0]
		work = work[1:]
		ex.obls = nil
		ex.catch = nil
		ex.depth = 0
		ex.spec = 0
		ex.quiet = 0
		ex.loopInst = 0
		ex.hints = nil
		ex.refCtr = refFreshLo.Int64()
		ex.split = j.split
		ex.splitPos = 0
		ex.cur = c
		ex.deadline = t0.Add(budget)
		ex.curRun = ""
		if len(j.split) > 0 {
			ex.curRun = fmt.Sprint(j.split)
		}
		req, err := ex.runContract(c, res)
		if err != "" {
			res.err = err
			if ex.curRun != "" {
				res.err += " (case " + ex.curRun + ")"
			}
			break
		}
		if req != nil {
			for k := req.lo; k <= req.hi+1; k++ {
				work = append(work, job{append(append([]int(nil), j.split...), int(k))})
			}
			continue
		}
		res.runs++
		for _, o := range ex.obls {
			o.hints = append(o.hints, ex.hints...)
			res.obls = append(res.obls, o)
		}
	}
	res.inlined, res.modular, res.trusted, res.notes = ex.inlined, ex.modular, ex.trusted, ex.notes
	res.execTime = time.Since(t0)
	return
}

func (ex *Exec) runContract(c *Contract, res *ContractResult) (req *splitReq, err string) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsupportedErr:
				err = "outside the verifier's reach: " + x.msg
			case *splitReq:
				req = x
			default:
				err = fmt.Sprintf("internal error: %v", r)
				if os_debug {
					os.Stderr.Write(debug.Stack())
				}
			}
		}
	}()
	st := &State{heap: map[string]*HNode{}, ctx: NewCtx()}
	var args []Value
	var names []string
	for _, p := range c.fn.Params {
		args = append(args, ex.paramVal(p, st))
		names = append(names, p.Name())
	}
	res.params, res.names = args, names
	con := &contractRun{c: c, prefix: ""}
	n, _ := ex.execFunction(c.fn, args, nil, st, nil, con)
	if n != nil {
		res.cover = append(res.cover, coverRec{run: ex.curRun, ctx: n.ctx})
	}
	return nil, ""
}

func (ex *Exec) paramVal(p *ssa.Parameter, st *State) Value {
	v := ex.havocVal("p."+p.Name(), p.Type(), st, refParamHi)
	// parameters do not refer to package-level memory (assumption A1)
	for i, k := range leafKeysFlat(p.Type()) {
		if ex.cur != nil && ex.cur.flags["globalargs"] {
			break
		}
		if k == "ptr.r" || k == "sl.r" || k == "map.r" || k == "chan.r" {
			st.ctx = st.ctx.Assume(Ge(comps(v)[i], I(0)))
		}
	}
	return v
}

var _ = big.NewInt
