package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Query is a prepared satisfiability problem (facts and the negated goal).
type Query struct {
	text  string
	atoms []*Term // values to request
	ninst int
}

// definitional axioms for opaque functions, by name: returns ground axioms for an application
type unfolder func(app *Term) []*Term

var unfolders = map[string]unfolder{}

type qstate struct {
	forall   map[*Term]*Term // forall -> placeholder
	skol     map[*Term]*Term
	asserts  []*Term
	done     map[[2]int]bool
	apps     map[string][]*Term
	seen     map[*Term]bool
	newQ     []*Term
	allQ     []*Term
	unfolded map[*Term]bool
	pend     []*Term
	ninst    int
	strict   bool
	pos, neg map[*Term]bool // polarity of the closed foralls
}

// abstract replaces closed foralls by placeholders; pol is the polarity of t
// (1 asserted, -1 negated, 0 both).
func (q *qstate) abstract(t *Term, pol int) *Term {
	if !t.hasQ {
		return t
	}
	type key struct {
		t   *Term
		pol int
	}
	memo := map[key]*Term{}
	var rec func(t *Term, pol int) *Term
	rec = func(t *Term, pol int) *Term {
		if !t.hasQ {
			return t
		}
		k := key{t, pol}
		if r, ok := memo[k]; ok {
			return r
		}
		var r *Term
		if t.op == OForall {
			if t.mb > 0 {
				// open inner quantifier: leave; it becomes closed on instantiation
				r = t
			} else {
				p, ok := q.forall[t]
				if !ok {
					p = BVar(fmt.Sprintf("Q!%d", t.id))
					q.forall[t] = p
					q.allQ = append(q.allQ, t)
				}
				if pol >= 0 {
					q.pos[t] = true
				}
				if pol <= 0 && !q.neg[t] {
					q.neg[t] = true
					q.newQ = append(q.newQ, t)
				}
				r = p
			}
		} else {
			as := make([]*Term, len(t.args))
			for i, a := range t.args {
				p := 0
				switch t.op {
				case OAnd, OOr:
					p = pol
				case ONot:
					p = -pol
				case OIte:
					if i > 0 && t.isBool {
						p = pol
					}
				}
				as[i] = rec(a, p)
			}
			r = rebuild(t, as)
		}
		memo[k] = r
		return r
	}
	return rec(t, pol)
}

func (q *qstate) collect(t *Term) {
	if q.seen[t] {
		return
	}
	q.seen[t] = true
	if t.op == OApp && t.mb == 0 {
		q.apps[t.name] = append(q.apps[t.name], t)
		if unfolders[t.name] != nil {
			q.pend = append(q.pend, t)
		}
	}
	for _, a := range t.args {
		q.collect(a)
	}
}

func (q *qstate) add(t *Term) {
	t = q.abstract(t, 1)
	if t == True {
		return
	}
	if t.op == OAnd {
		for _, a := range t.args {
			q.add(a)
		}
		return
	}
	if t.mb > 0 {
		panic("open assertion " + t.String())
	}
	q.asserts = append(q.asserts, t)
	q.collect(t)
}

type trigger struct {
	name string
	pos  int
	arg  *Term
	app  *Term
}

// refAlias: variables introduced as another name of a term.
var refAlias = map[*Term]*Term{}

func aliasLeaves(t *Term) []*Term {
	ls := iteLeaves(t)
	for i := 0; i < len(ls); i++ {
		if a := refAlias[ls[i]]; a != nil {
			ls = append(ls, iteLeaves(a)...)
		}
	}
	return ls
}

// sameOther: the other arguments of a ground application agree with the trigger's.
func (tr trigger) sameOther(a *Term) bool {
	for i, x := range tr.app.args {
		if i == tr.pos || x.mb > 0 || x == a.args[i] {
			continue
		}
		ok := false
		for _, l := range aliasLeaves(x) {
			for _, m := range aliasLeaves(a.args[i]) {
				if l == m {
					ok = true
				}
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func triggers(f *Term) []trigger {
	bv, body := f.args[0], f.args[1]
	var out []trigger
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || t.mb == 0 {
			return
		}
		seen[t] = true
		if t.op == OForall {
			// look inside too (outer variable may occur)
		}
		if t.op == OApp {
			for i, a := range t.args {
				if a.isBool {
					continue
				}
				_, as, co := linParts(a)
				for j, x := range as {
					if x == bv {
						_ = co[j]
						ok := true
						for jj, y := range as {
							if jj != j && y.mb > 0 {
								ok = false
							}
						}
						if ok {
							out = append(out, trigger{t.name, i, a, t})
						}
					}
				}
			}
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(body)
	// dedupe
	var r []trigger
	for _, x := range out {
		dup := false
		for _, y := range r {
			if x == y {
				dup = true
			}
		}
		if !dup {
			r = append(r, x)
		}
	}
	return r
}

// eqPoints: the values of the bound variable which equations in the body single out.
func eqPoints(f *Term) []*Term {
	bv := f.args[0]
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || t.mb == 0 {
			return
		}
		seen[t] = true
		if t.op == OEq {
			_, as, co := linParts(t.args[0])
			at, ok := -1, true
			for i, x := range as {
				if x == bv && co[i].IsInt64() && (co[i].Int64() == 1 || co[i].Int64() == -1) {
					at = i
				} else if x.mb > 0 {
					ok = false
				}
			}
			if at >= 0 && ok {
				out = append(out, solveFor(bv, t.args[0], I(0)))
			}
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(f.args[1])
	return out
}

// solve arg(bv) = val for bv
func solveFor(bv, arg, val *Term) *Term {
	k, as, co := linParts(arg)
	rest := newAcc()
	rest.k = k
	var c *big.Int
	for i, a := range as {
		if a == bv {
			c = co[i]
		} else {
			rest.add(co[i], a)
		}
	}
	d := Sub(val, rest.term())
	if c.Sign() < 0 {
		d = Neg(d)
		c = new(big.Int).Neg(c)
	}
	if c.Cmp(bi1) == 0 {
		return d
	}
	k, _, co = linParts(d)
	exact := true
	for _, x := range co {
		if new(big.Int).Mod(x, c).Sign() != 0 {
			exact = false
		}
	}
	if exact && new(big.Int).Mod(k, c).Sign() != 0 {
		return nil // another field
	}
	return Div(d, Num(c))
}

const maxInst = 4000

var lastInst int

func (q *qstate) instantiate(f, t *Term) bool {
	key := [2]int{f.id, t.id}
	if q.done[key] || q.ninst > maxInst {
		return false
	}
	q.done[key] = true
	q.ninst++
	body := Subst(f.args[1], map[*Term]*Term{f.args[0]: t})
	q.add(Or(Not(q.forall[f]), body))
	return true
}

// BuildQuery prepares the query "facts and not goal".
func BuildQuery(facts []*Term, goal *Term, hints []*Term, rounds int) (*Query, bool) {
	return buildQuery(facts, goal, hints, rounds, false)
}

func buildQuery(facts []*Term, goal *Term, hints []*Term, rounds int, strict bool) (*Query, bool) {
	q := &qstate{strict: strict, pos: map[*Term]bool{}, neg: map[*Term]bool{}, forall: map[*Term]*Term{}, skol: map[*Term]*Term{}, done: map[[2]int]bool{},
		apps: map[string][]*Term{}, seen: map[*Term]bool{}, unfolded: map[*Term]bool{}}
	defer func() { lastInst = q.ninst }()
	for _, f := range facts {
		q.add(f)
	}
	q.add(Not(goal))
	for _, h := range hints {
		q.collect(h)
	}
	for r := 0; r < rounds; r++ {
		changed := false
		// skolemise
		for len(q.newQ) > 0 {
			nq := q.newQ
			q.newQ = nil
			for _, f := range nq {
				sk := Var(fmt.Sprintf("sk!%d", f.id), nil, nil)
				q.skol[f] = sk
				body := Subst(f.args[1], map[*Term]*Term{f.args[0]: sk})
				q.add(Or(q.forall[f], Not(body)))
				changed = true
			}
		}
		// unfold
		pend := q.pend
		q.pend = nil
		for _, a := range pend {
			if q.unfolded[a] {
				continue
			}
			q.unfolded[a] = true
			for _, ax := range unfolders[a.name](a) {
				q.add(ax)
				changed = true
			}
		}
		type job struct{ f, t *Term }
		var jobs []job
		for _, f := range q.allQ {
			if !q.pos[f] {
				continue
			}
			trs := triggers(f)
			if len(trs) == 0 {
				for _, g := range q.allQ {
					if sk := q.skol[g]; sk != nil {
						jobs = append(jobs, job{f, sk})
					}
				}
			}
			for _, tr := range trs {
				for _, a := range q.apps[tr.name] {
					if tr.pos < len(a.args) && (!strict || tr.sameOther(a)) {
						if v := solveFor(f.args[0], tr.arg, a.args[tr.pos]); v != nil {
							jobs = append(jobs, job{f, v})
						}
					}
				}
			}
			for _, v := range eqPoints(f) {
				jobs = append(jobs, job{f, v})
			}
			for _, h := range hints {
				if !h.isBool {
					jobs = append(jobs, job{f, h})
				}
			}
		}
		for _, j := range jobs {
			if q.instantiate(j.f, j.t) {
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	return q.print()
}

func smtName(s string) string {
	ok := true
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '!' || c == '.' || c == '#' || c == '$') {
			ok = false
		}
	}
	if ok && s[0] > '9' {
		return s
	}
	return "|" + strings.ReplaceAll(strings.ReplaceAll(s, "|", "_"), "\\", "_") + "|"
}

func smtNum(k *big.Int) string {
	if k.Sign() < 0 {
		return "(- " + new(big.Int).Neg(k).String() + ")"
	}
	return k.String()
}

func (q *qstate) print() (*Query, bool) {
	var sb strings.Builder
	ref := map[*Term]int{}
	var order []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		ref[t]++
		if ref[t] > 1 {
			return
		}
		for _, a := range t.args {
			walk(a)
		}
		order = append(order, t)
	}
	for _, a := range q.asserts {
		if a == False {
			return nil, true // trivially unsat
		}
		walk(a)
	}
	sb.WriteString("(set-option :produce-models true)\n(set-logic ALL)\n")
	declared := map[string]bool{}
	var atoms []*Term
	names := map[*Term]string{}
	var rng []string
	srt := func(t *Term) string {
		if t.isBool {
			return "Bool"
		}
		return "Int"
	}
	var defs strings.Builder
	for _, t := range order {
		var e string
		arg := func(i int) string { return names[t.args[i]] }
		all := func() string {
			var s []string
			for _, a := range t.args {
				s = append(s, names[a])
			}
			return strings.Join(s, " ")
		}
		switch t.op {
		case OTrue:
			e = "true"
		case OFalse:
			e = "false"
		case OConst:
			e = smtNum(t.k)
		case OVar:
			n := smtName(t.name)
			if !declared[n] {
				declared[n] = true
				fmt.Fprintf(&sb, "(declare-fun %s () %s)\n", n, srt(t))
			}
			e = n
		case OApp, OXor, OBand:
			nm := t.name
			if t.op == OXor {
				nm = fmt.Sprintf("xor.%d", len(t.args))
			}
			if t.op == OBand {
				nm = fmt.Sprintf("band.%d", len(t.args))
			}
			n := smtName(nm)
			if !declared[n] {
				declared[n] = true
				var s []string
				for _, a := range t.args {
					s = append(s, srt(a))
				}
				fmt.Fprintf(&sb, "(declare-fun %s (%s) %s)\n", n, strings.Join(s, " "), srt(t))
			}
			if len(t.args) == 0 {
				e = n
			} else {
				e = "(" + n + " " + all() + ")"
			}
		case OLin:
			var s []string
			for i := range t.args {
				if t.coef[i].Cmp(bi1) == 0 {
					s = append(s, arg(i))
				} else {
					s = append(s, "(* "+smtNum(t.coef[i])+" "+arg(i)+")")
				}
			}
			if t.k.Sign() != 0 {
				s = append(s, smtNum(t.k))
			}
			if len(s) == 1 {
				e = s[0]
			} else {
				e = "(+ " + strings.Join(s, " ") + ")"
			}
		case OMul:
			e = "(* " + all() + ")"
		case ODiv:
			e = "(div " + all() + ")"
		case OMod:
			e = "(mod " + all() + ")"
		case OIte:
			e = "(ite " + all() + ")"
		case OEq:
			e = "(= " + arg(0) + " 0)"
			if l := t.args[0]; l.op == OLin && len(l.args) == 2 && l.k.Sign() == 0 && l.coef[0].Cmp(bi1) == 0 && l.coef[1].Cmp(biM1) == 0 {
				e = "(= " + names[l.args[0]] + " " + names[l.args[1]] + ")"
			}
		case OLe:
			e = "(<= " + arg(0) + " 0)"
		case ONot:
			e = "(not " + all() + ")"
		case OAnd:
			e = "(and " + all() + ")"
		case OOr:
			e = "(or " + all() + ")"
		default:
			panic("smt: quantifier left")
		}
		if len(t.args) > 0 && (ref[t] > 1 || t.op == OApp) || t.op == OXor || t.op == OBand {
			n := fmt.Sprintf("t%d", t.id)
			fmt.Fprintf(&defs, "(define-fun %s () %s %s)\n", n, srt(t), e)
			names[t] = n
		} else {
			names[t] = e
		}
		if t.op == OVar || t.op == OApp || t.op == OXor || t.op == OBand {
			if t.op == OVar || t.op == OApp {
				atoms = append(atoms, t)
			}
			if !t.isBool {
				if t.lo != nil {
					rng = append(rng, fmt.Sprintf("(assert (<= %s %s))", smtNum(t.lo), names[t]))
				}
				if t.hi != nil {
					rng = append(rng, fmt.Sprintf("(assert (<= %s %s))", names[t], smtNum(t.hi)))
				}
			}
		}
	}
	sb.WriteString(defs.String())
	for _, r := range rng {
		sb.WriteString(r + "\n")
	}
	for _, a := range q.asserts {
		sb.WriteString("(assert " + names[a] + ")\n")
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
	qq := &Query{atoms: atoms, ninst: q.ninst}
	sb.WriteString("(check-sat)\n")
	qq.text = sb.String()
	return qq, false
}

func (q *Query) withValues(limit int) string {
	var sb strings.Builder
	sb.WriteString(q.text)
	n := 0
	for _, a := range q.atoms {
		if n >= limit {
			break
		}
		if a.op == OVar {
			fmt.Fprintf(&sb, "(get-value (%s))\n", smtName(a.name))
			n++
		} else if a.op == OApp {
			fmt.Fprintf(&sb, "(get-value (t%d))\n", a.id)
			for _, x := range a.args {
				_ = x
			}
			n++
		}
	}
	return sb.String()
}

type Result struct {
	to     time.Duration // the limit that was not enough
	status string        // unsat, sat, unknown, error
	solver string
	dur    time.Duration
	model  map[*Term]*big.Int
	out    string
}

var (
	solverSem   = make(chan struct{}, 8)
	solverNanos int64
	solverCalls int64
	solverBy    sync.Map
	queryCache  sync.Map
	dumpDir     string
)

func runSolver(ctx context.Context, name string, argv []string, text string, to time.Duration) (string, string, time.Duration) {
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	if ctx.Err() != nil {
		return "unknown", "", 0
	}
	// longer limits are on processor time, so that a loaded machine does not change verdicts
	wall := to + 2*time.Second
	if to >= 4*time.Second {
		wall = 3*to + 2*time.Second
		argv = append([]string{"/bin/sh", "-c", fmt.Sprintf("ulimit -t %d; exec \"$@\"", int(to/time.Second)), "sh"}, argv...)
	}
	cctx, cancel := context.WithTimeout(ctx, wall)
	defer cancel()
	cmd := exec.CommandContext(cctx, argv[0], argv[1:]...)
	cmd.Stdin = strings.NewReader(text)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	cmd.Run()
	d := time.Since(t0)
	atomic.AddInt64(&solverNanos, int64(d))
	atomic.AddInt64(&solverCalls, 1)
	s := out.String()
	st := "unknown"
	line := s
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		line = s[:i]
	}
	switch strings.TrimSpace(line) {
	case "sat":
		st = "sat"
	case "unsat":
		st = "unsat"
	default:
		if strings.Contains(line, "error") {
			st = "error"
		}
	}
	return st, s, d
}

// Solve decides the query with a portfolio.
func (q *Query) Solve(to time.Duration, model bool) Result {
	text := q.text
	if model {
		text = q.withValues(3000)
	}
	h := sha256.Sum256([]byte(text))
	if r, ok := queryCache.Load(h); ok {
		if r := r.(Result); r.status == "sat" || r.status == "unsat" || r.to >= to {
			return r
		}
	}
	if dumpDir != "" {
		os.WriteFile(filepath.Join(dumpDir, fmt.Sprintf("q%x.smt2", h[:6])), []byte(text), 0o644)
	}
	wms := int(to / time.Millisecond)
	if to >= 4*time.Second {
		wms *= 3
	}
	type sv struct {
		name  string
		argv  []string
		delay time.Duration
	}
	svs := []sv{
		{"z3-5.3", []string{"z3-new", "-in", fmt.Sprintf("-t:%d", wms)}, 0},
		{"cvc5-1.1", []string{"cvc5", "--lang=smt2", "--produce-models", fmt.Sprintf("--tlimit=%d", wms)}, 1500 * time.Millisecond},
		{"z3-4.8", []string{"z3", "-in", fmt.Sprintf("-t:%d", wms)}, 3 * time.Second},
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan Result, len(svs))
	for _, s := range svs {
		s := s
		go func() {
			if s.delay > 0 {
				select {
				case <-time.After(s.delay):
				case <-ctx.Done():
					ch <- Result{status: "unknown", solver: s.name}
					return
				}
			}
			st, out, d := runSolver(ctx, s.name, s.argv, text, to)
			ch <- Result{status: st, solver: s.name, dur: d, out: out}
		}()
	}
	best := Result{status: "unknown", to: to}
	for range svs {
		r := <-ch
		if r.status == "sat" || r.status == "unsat" {
			best = r
			break
		}
		if r.out != "" {
			best.out += r.solver + ": " + trunc(r.out, 300) + "\n"
		}
		if r.status == "error" {
			best.out += "ERROR " + trunc(r.out, 500)
		}
	}
	if best.status == "sat" && model {
		best.model = q.parseModel(best.out)
	}
	queryCache.Store(h, best)
	return best
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (q *Query) parseModel(out string) map[*Term]*big.Int {
	m := map[*Term]*big.Int{}
	byName := map[string]*Term{}
	for _, a := range q.atoms {
		if a.op == OVar {
			byName[smtName(a.name)] = a
		} else {
			byName[fmt.Sprintf("t%d", a.id)] = a
		}
	}
	// lines of the form ((name value))
	flat := strings.ReplaceAll(out, "\n", " ")
	for _, chunk := range strings.Split(flat, "((")[1:] {
		chunk = strings.TrimSpace(chunk)
		var name, rest string
		if strings.HasPrefix(chunk, "|") {
			j := strings.IndexByte(chunk[1:], '|')
			if j < 0 {
				continue
			}
			name, rest = chunk[:j+2], chunk[j+2:]
		} else {
			j := strings.IndexByte(chunk, ' ')
			if j < 0 {
				continue
			}
			name, rest = chunk[:j], chunk[j:]
		}
		t := byName[name]
		if t == nil {
			continue
		}
		rest = strings.NewReplacer("(", " ", ")", " ").Replace(rest)
		f := strings.Fields(rest)
		if len(f) == 0 {
			continue
		}
		neg := false
		if f[0] == "-" && len(f) > 1 {
			neg = true
			f = f[1:]
		}
		switch f[0] {
		case "true":
			m[t] = bi1
		case "false":
			m[t] = bi0
		default:
			v, ok := new(big.Int).SetString(f[0], 10)
			if !ok {
				continue
			}
			if neg {
				v.Neg(v)
			}
			m[t] = v
		}
	}
	return m
}
