package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Obl is a proof obligation: facts of ctx entail goal.
type Obl struct {
	name  string
	kind  string // ensures, requires, frame, safety, inv
	ctx   *Ctx
	goal  *Term
	pos   token.Pos
	fn    string
	run   string
	hints []*Term
	// result
	res    Result
	by     string
	trivia bool
	auto   bool // a guessed invariant: not worth a second attempt
	retry  *Query
	weak   bool // the counterexample is for fewer instances than there are
}

type catcher struct {
	states []*State
	vals   []Value
}

type fnInfo struct {
	rpo    []*ssa.BasicBlock
	idx    map[*ssa.BasicBlock]int
	loops  map[*ssa.BasicBlock]*Loop
	inLoop map[*ssa.BasicBlock]*Loop // innermost
	escape map[ssa.Value]*Loop
	order  []*Loop
}

type Loop struct {
	header  *ssa.BasicBlock
	blocks  map[*ssa.BasicBlock]bool
	parent  *Loop
	ord     int
	escapes []ssa.Value
}

type Frame struct {
	fn     *ssa.Function
	info   *fnInfo
	regs   map[ssa.Value]Value
	args   []Value
	free   []Value
	caller *Frame
	rets   []*State
	rvals  [][]Value
	con    *contractRun // this frame runs a contract body
	base   *State       // state at entry (for invariants)
}

// contractRun is the bookkeeping of one execution of a contract body.
type contractRun struct {
	c         *Contract
	assume    bool // used at a call site: the target call is replaced by its contract
	mods      []modRegion
	preLog    *wlog
	preCtr    int64
	preSt     *State
	called    bool
	fresh     []int64
	results   []Value
	prefix    string
	caller    *Frame
	outerSpec int
	hv        string // prefix of the memory changed by the call
}

type modRegion struct {
	key  string
	ref  *Term
	lo   *Term
	n    *Term
	cond *Term
}

type Exec struct {
	inPure    int    // inside a quantified predicate
	entry     *State // state in which the current loop was entered
	inPred    int    // evaluating a specification predicate (instance numbers are reset afterwards)
	noSolve   int    // inside the definition of a specification function
	ld        *Loaded
	obls      []*Obl
	infos     map[*ssa.Function]*fnInfo
	refCtr    int64
	typeIDs   typeutil.Map
	typeList  []types.Type
	funcTab   []funcEnt
	funcIDs   map[*ssa.Function]int64
	globals   map[*ssa.Global]int64
	inited    map[*ssa.Package]bool
	catch     []*catcher
	spec      int // >0: evaluating specification code (no safety obligations)
	depth     int
	cur       *Contract
	trusted   map[string]bool // external functions/models used
	inlined   map[string]bool
	modular   map[string]bool
	bvDepth   int
	split     []int
	splitPos  int
	splitReq  *splitReq
	curRun    string
	notes     []string
	loopInst  int
	quiet     int
	steps     int
	deadline  time.Time
	reveal    map[string]bool
	fuel      int
	opaque    map[string]*specUF
	noMod     bool // do not use modular contracts (inline everything)
	curNoMod  bool
	boundNote string
	hints     []*Term
	initDepth int
	inInit    int
	initCtr   int64
}

type splitReq struct {
	lo, hi int64
	cond   *Term
}

type funcEnt struct {
	fn   *ssa.Function
	free []Value
	blt  string
}

func NewExec(ld *Loaded) *Exec {
	ex := &Exec{ld: ld, infos: map[*ssa.Function]*fnInfo{}, funcIDs: map[*ssa.Function]int64{}, globals: map[*ssa.Global]int64{},
		inited: map[*ssa.Package]bool{}, trusted: map[string]bool{}, inlined: map[string]bool{}, modular: map[string]bool{},
		funcTab: []funcEnt{{}}, typeList: []types.Type{nil}, reveal: map[string]bool{}, opaque: map[string]*specUF{}}
	ex.refCtr = refFreshLo.Int64()
	initState = &State{heap: map[string]*HNode{}, ctx: NewCtx(), zero: true}
	ex.typeIDs.SetHasher(typeutil.MakeHasher())
	return ex
}

func (ex *Exec) newRef() *Term {
	if ex.inInit > 0 {
		ex.initCtr--
		return I(ex.initCtr)
	}
	ex.refCtr++
	return I(ex.refCtr)
}

func (ex *Exec) typeID(t types.Type) int64 {
	if v := ex.typeIDs.At(t); v != nil {
		return v.(int64)
	}
	id := int64(len(ex.typeList))
	ex.typeList = append(ex.typeList, t)
	ex.typeIDs.Set(t, id)
	return id
}

func (ex *Exec) funcVal(fn *ssa.Function, free []Value) FuncV {
	if len(free) == 0 {
		if id, ok := ex.funcIDs[fn]; ok {
			return FuncV{I(id)}
		}
	}
	id := int64(len(ex.funcTab))
	ex.funcTab = append(ex.funcTab, funcEnt{fn: fn, free: free})
	if len(free) == 0 {
		ex.funcIDs[fn] = id
	}
	return FuncV{I(id)}
}

// ---------- function structure ----------

func (ex *Exec) info(fn *ssa.Function) *fnInfo {
	if i, ok := ex.infos[fn]; ok {
		return i
	}
	in := &fnInfo{idx: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*Loop{}, inLoop: map[*ssa.BasicBlock]*Loop{}, escape: map[ssa.Value]*Loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			s := b.Succs[i]
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		in.idx[post[i]] = len(in.rpo)
		in.rpo = append(in.rpo, post[i])
	}
	// natural loops
	for _, b := range in.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge b->s
				l := in.loops[s]
				if l == nil {
					l = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					in.loops[s] = l
				}
				var stack []*ssa.BasicBlock
				if !l.blocks[b] {
					l.blocks[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if _, ok := in.idx[p]; ok && !l.blocks[p] {
							l.blocks[p] = true
							stack = append(stack, p)
						}
					}
				}
			} else if in.idx[s] <= in.idx[b] {
				unsupported("irreducible control flow in %s", fn)
			}
		}
	}
	for _, b := range in.rpo {
		if l := in.loops[b]; l != nil {
			l.ord = len(in.order)
			in.order = append(in.order, l)
		}
	}
	for _, b := range in.rpo {
		var best *Loop
		for _, l := range in.order {
			if l.blocks[b] && (best == nil || len(l.blocks) < len(best.blocks)) {
				best = l
			}
		}
		if best != nil {
			in.inLoop[b] = best
		}
	}
	for _, l := range in.order {
		for _, m := range in.order {
			if m != l && m.blocks[l.header] && (l.parent == nil || len(m.blocks) < len(l.parent.blocks)) {
				l.parent = m
			}
		}
	}
	// escaping values
	for _, b := range in.rpo {
		for _, ins := range b.Instrs {
			v, ok := ins.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			for l := in.inLoop[b]; l != nil; l = l.parent {
				esc := false
				for _, r := range *v.Referrers() {
					if _, dbg := r.(*ssa.DebugRef); dbg {
						continue
					}
					rb := r.Block()
					if ph, ok := r.(*ssa.Phi); ok {
						for i, e := range ph.Edges {
							if e == v && !l.blocks[ph.Block().Preds[i]] {
								esc = true
							}
						}
						// a phi right at the exit takes the value on the edge
						continue
					}
					if !l.blocks[rb] {
						esc = true
					}
				}
				if esc {
					l.escapes = append(l.escapes, v)
					in.escape[v] = l // innermost loop first; keep outermost escaping
				}
			}
		}
	}
	ex.infos[fn] = in
	return in
}

// ---------- running functions ----------

type edge struct {
	pred, to *ssa.BasicBlock
	st       *State
	phis     []Value
}

func (ex *Exec) execFunction(fn *ssa.Function, args, free []Value, st *State, caller *Frame, con *contractRun) (*State, []Value) {
	if len(fn.Blocks) == 0 {
		unsupported("no body: %s", fn)
	}
	ex.depth++
	if ex.depth > 60 {
		unsupported("call depth exceeded at %s", fn)
	}
	defer func() { ex.depth-- }()
	fr := &Frame{fn: fn, info: ex.info(fn), regs: map[ssa.Value]Value{}, args: args, free: free, caller: caller, con: con}
	savedDefs := st.defs
	st.defs = nil
	savedRegs := st.regs
	st.regs = nil
	all := map[*ssa.BasicBlock]bool{}
	for _, b := range fr.info.rpo {
		all[b] = true
	}
	if all[fn.Recover] {
		delete(all, fn.Recover)
	}
	fr.base = st.clone()
	ex.runBlocks(fr, all, nil, map[*ssa.BasicBlock][]edge{fn.Blocks[0]: {{to: fn.Blocks[0], st: st}}})
	if len(fr.rets) == 0 {
		return nil, nil
	}
	n, vals := mergeStates(fr.rets, fr.rvals)
	if n == nil {
		return nil, nil
	}
	n.defs = savedDefs
	n.regs = savedRegs
	return n, vals
}

func (ex *Exec) runBlocks(fr *Frame, region map[*ssa.BasicBlock]bool, header *ssa.BasicBlock, in map[*ssa.BasicBlock][]edge) (outs []edge) {
	route := func(e edge) {
		if e.to == header || !region[e.to] {
			outs = append(outs, e)
		} else {
			in[e.to] = append(in[e.to], e)
		}
	}
	for _, b := range fr.info.rpo {
		if !region[b] {
			continue
		}
		es := in[b]
		if len(es) == 0 {
			continue
		}
		delete(in, b)
		if l := fr.info.loops[b]; l != nil && b != header {
			for _, e := range ex.runLoop(fr, l, es) {
				route(e)
			}
			continue
		}
		st, phis := ex.mergeEdges(es)
		if st == nil {
			continue
		}
		ex.setPhis(fr, st, b, phis)
		for _, e := range ex.execBlock(fr, b, st) {
			route(e)
		}
	}
	return
}

func (ex *Exec) mergeEdges(es []edge) (*State, []Value) {
	var sts []*State
	var vals [][]Value
	for _, e := range es {
		sts = append(sts, e.st)
		vals = append(vals, e.phis)
	}
	st, v := mergeStates(sts, vals)
	return st, v
}

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var r []*ssa.Phi
	for _, i := range b.Instrs {
		if p, ok := i.(*ssa.Phi); ok {
			r = append(r, p)
		} else {
			break
		}
	}
	return r
}

func (ex *Exec) setPhis(fr *Frame, st *State, b *ssa.BasicBlock, vals []Value) {
	for i, p := range phisOf(b) {
		if vals != nil {
			ex.set(fr, st, p, vals[i]) // also drops the value of an earlier visit
		}
	}
}

func (ex *Exec) mkEdge(fr *Frame, from, to *ssa.BasicBlock, st *State) edge {
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	e := edge{pred: from, to: to, st: st}
	for _, p := range phisOf(to) {
		e.phis = append(e.phis, ex.get(fr, st, p.Edges[pi]))
	}
	// record escaping registers
	for l := fr.info.inLoop[from]; l != nil && !l.blocks[to]; l = l.parent {
		for _, v := range l.escapes {
			if _, ok := st.regs[v]; ok {
				continue // the value this path got where it left an inner loop
			}
			if x, ok := fr.regs[v]; ok {
				m := make(map[interface{}]Value, len(st.regs)+1)
				for k, y := range st.regs {
					m[k] = y
				}
				m[v] = x
				st.regs = m
			}
		}
	}
	return e
}

// ---------- loops ----------

const unrollLimit = 200

func (ex *Exec) runLoop(fr *Frame, l *Loop, es []edge) []edge {
	inv := ex.loopSpec(fr, l)
	if inv != nil && inv.unroll > 0 || ex.spec > 0 {
		lim := unrollLimit
		if inv != nil && inv.unroll > 0 {
			lim = inv.unroll
		}
		out, ok := ex.unroll(fr, l, es, lim, true)
		if ok {
			return out
		}
		unsupported("loop %d of %s: unroll limit reached", l.ord, fr.fn)
	}
	// try unrolling first; fall back to cutting
	nob := len(ex.obls)
	ncatch := make([]int, len(ex.catch))
	for i, c := range ex.catch {
		ncatch[i] = len(c.states)
	}
	var es2 []edge
	for _, e := range es {
		e.st = e.st.clone()
		es2 = append(es2, e)
	}
	nrets := len(fr.rets)
	if inv == nil || !inv.cut {
		out, ok := ex.unroll(fr, l, es2, unrollLimit, false)
		if ok {
			return out
		}
	}
	ex.obls = ex.obls[:nob]
	for i, c := range ex.catch {
		c.states = c.states[:ncatch[i]]
	}
	fr.rets = fr.rets[:nrets]
	fr.rvals = fr.rvals[:nrets]
	return ex.cutLoop(fr, l, es, inv)
}

func (ex *Exec) unroll(fr *Frame, l *Loop, es []edge, limit int, force bool) ([]edge, bool) {
	var exits []edge
	var los []*big.Int
	t0 := time.Now()
	concrete := true // no iteration so far was left open by the path condition
	for it := 0; ; it++ {
		if it > limit && !(concrete && it <= 4000) || !force && it >= 2 && time.Since(t0) > 20*time.Second {
			return nil, false
		}
		outs := ex.runBlocks(fr, l.blocks, l.header, map[*ssa.BasicBlock][]edge{l.header: es})
		var backs []edge
		for _, o := range outs {
			if o.to == l.header {
				if !o.st.ctx.dead {
					backs = append(backs, o)
				}
			} else {
				exits = append(exits, o)
			}
		}
		if len(backs) == 0 {
			return exits, true
		}
		// is the back edge decided?
		anc := es[0].st.ctx
		for _, e := range es[1:] {
			anc = commonCtx(anc, e.st.ctx)
		}
		undecided := false
		var lo *big.Int
		for _, b := range backs {
			g, _ := b.st.ctx.suffix(commonCtx(anc, b.st.ctx))
			for _, x := range g {
				if x != True {
					undecided = true
				}
			}
			// remaining distance: best (largest) lower bound over the guards
			for _, x := range g {
				if x.op == OLe {
					rl, _ := b.st.ctx.Rng(x.args[0])
					if rl != nil && (lo == nil || rl.Cmp(lo) > 0) {
						lo = rl
					}
				}
			}
		}
		if undecided && !force && ex.headerDecided(fr, l, backs) {
			// the trip count is concrete; only early exits are undecided
			es = backs
			continue
		}
		concrete = concrete && !undecided
		if undecided && !force {
			los = append(los, lo)
			n := len(los)
			if n >= 2 {
				a, b := los[n-2], los[n-1]
				if a == nil || b == nil {
					if n >= 4 {
						return nil, false
					}
				} else {
					// estimate
					d := new(big.Int).Sub(b, a) // progress (los grow towards 0)
					rem := new(big.Int).Neg(b)
					if d.Sign() <= 0 {
						if n >= 4 {
							return nil, false
						}
					} else {
						est := new(big.Int).Div(rem, d)
						// geometric?
						two := new(big.Int).Mul(b, big.NewInt(3))
						geo := two.Cmp(new(big.Int).Mul(a, bi2)) > 0 // |b| < 2/3 |a|
						if est.Cmp(big.NewInt(int64(limit))) > 0 && !geo && n >= 3 {
							return nil, false
						}
					}
				}
			}
		}
		if undecided {
			var keep []edge
			for _, b := range backs {
				if !ex.infeasible(b.st.ctx) {
					keep = append(keep, b)
				}
			}
			backs = keep
			if len(backs) == 0 {
				return exits, true
			}
		}
		es = backs
	}
}

// headerDecided: the loop condition was a constant in this iteration.
func (ex *Exec) headerDecided(fr *Frame, l *Loop, backs []edge) bool {
	in := l.header.Instrs
	iff, ok := in[len(in)-1].(*ssa.If)
	if !ok {
		return false
	}
	for _, b := range backs {
		v, ok := fr.regs[iff.Cond]
		if b.st.regs != nil {
			if x, ok2 := b.st.regs[iff.Cond]; ok2 {
				v, ok = x, true
			}
		}
		t, isT := v.(*Term)
		if !ok || !isT || !t.isConst() && t != True && t != False {
			return false
		}
	}
	return true
}

func (ex *Exec) infeasible(c *Ctx) bool {
	if c.dead {
		return true
	}
	return ex.decideTO(c, False, 4*time.Second)
}

func (ex *Exec) decide(c *Ctx, goal *Term) bool { return ex.decideTO(c, goal, 3*time.Second) }

func (ex *Exec) decideTO(c *Ctx, goal *Term, to time.Duration) bool {
	goal = c.Simp(goal)
	if goal == True {
		return true
	}
	if ex.noSolve > 0 {
		return false
	}
	q, triv := buildQuery(c.Facts(), goal, nil, 2, true)
	if triv {
		return true
	}
	r := q.Solve(to, false)
	if os_debug {
		fmt.Fprintf(os2, "decide %s: %s\n", r.status, trunc(goal.String(), 200))
	}
	return r.status == "unsat"
}

// havocVal creates an unconstrained value of type t.
func (ex *Exec) havocVal(name string, t types.Type, st *State, refHi *big.Int) Value {
	if ks := leafKeys(t); ks != nil {
		c := make([]*Term, len(ks))
		for i, k := range ks {
			n := name
			if len(ks) > 1 {
				n = name + "." + k[strings.IndexByte(k, '.')+1:]
			}
			if k == "bool" {
				c[i] = BVar(n)
				continue
			}
			r := appRange[k]
			lo, hi := r[0], r[1]
			if strings.HasSuffix(k, ".r") || k == "if.b" || k == "str.s" {
				hi = refHi
			}
			c[i] = Var(n, lo, hi)
		}
		v := fromComps(t, c)
		if sl, ok := v.(SliceV); ok {
			st.assumeSlice(sl)
		}
		return v
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		r := StructV{}
		for i := 0; i < u.NumFields(); i++ {
			r.f = append(r.f, ex.havocVal(name+"."+u.Field(i).Name(), u.Field(i).Type(), st, refHi))
		}
		return r
	case *types.Array:
		r := ArrayV{}
		if u.Len() > 4096 {
			unsupported("havoc of large array")
		}
		for i := int64(0); i < u.Len(); i++ {
			r.e = append(r.e, ex.havocVal(fmt.Sprintf("%s.%d", name, i), u.Elem(), st, refHi))
		}
		return r
	case *types.Tuple:
		r := TupleV{}
		for i := 0; i < u.Len(); i++ {
			r.e = append(r.e, ex.havocVal(fmt.Sprintf("%s.%d", name, i), u.At(i).Type(), st, refHi))
		}
		return r
	}
	unsupported("havoc %s", t)
	return nil
}

func comps(v Value) []*Term {
	switch x := v.(type) {
	case nil:
		return nil
	case StructV:
		var r []*Term
		for _, f := range x.f {
			r = append(r, comps(f)...)
		}
		return r
	case ArrayV:
		var r []*Term
		for _, f := range x.e {
			r = append(r, comps(f)...)
		}
		return r
	case TupleV:
		var r []*Term
		for _, f := range x.e {
			r = append(r, comps(f)...)
		}
		return r
	case IterV:
		return nil
	}
	return toComps(v)
}

type cand struct {
	name string
	def  bool
	user bool
	term *Term // over havoc variables (auto candidates)
	f    func(st *State, vals []Value) *Term
}

// rangeBound recognises the index of a "for range" loop as compiled by the
// SSA builder: i = phi(-1, i+1), with i+1 < n tested in the header; n is
// computed before the loop.
func rangeBound(l *Loop, p *ssa.Phi) ssa.Value {
	in := l.header.Instrs
	iff, ok := in[len(in)-1].(*ssa.If)
	if !ok || len(p.Edges) < 2 {
		return nil
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS || cmp.Block() != l.header {
		return nil
	}
	add, ok := cmp.X.(*ssa.BinOp)
	if !ok || add.Op != token.ADD || add.Block() != l.header || add.X != ssa.Value(p) {
		return nil
	}
	if c, ok := add.Y.(*ssa.Const); !ok || c.Int64() != 1 {
		return nil
	}
	if !l.blocks[l.header.Succs[0]] || l.blocks[l.header.Succs[1]] {
		return nil
	}
	outer := 0
	for i, e := range p.Edges {
		if l.blocks[l.header.Preds[i]] && e != ssa.Value(add) {
			return nil
		}
		if !l.blocks[l.header.Preds[i]] {
			outer++
		}
	}
	if outer != 1 {
		return nil
	}
	switch n := cmp.Y.(type) {
	case *ssa.Const:
		return n
	case ssa.Instruction:
		if !l.blocks[n.Block()] {
			return cmp.Y
		}
	}
	return nil
}

func (ex *Exec) cutLoop(fr *Frame, l *Loop, es []edge, spec *loopSpec) []edge {
	st0, init := ex.mergeEdges(es)
	if st0 == nil {
		return nil
	}
	phis := phisOf(l.header)
	ex.loopInst++
	lname := fmt.Sprintf("L%d.%s.%d", ex.loopInst, fr.fn.Name(), l.ord)
	startInst := ex.loopInst
	startFresh := nfresh
	mark := ex.refCtr
	const span = 1 << 20
	iterHi := big.NewInt(mark + span)
	// mod regions per key
	type modset struct {
		any  bool
		refs []region
	}
	mods := map[string]*modset{}
	var cands []*cand
	// string iterators: the position of the iterator is a memory cell, handled as memory

	// iterator cells etc. are ordinary memory.
	mkHavoc := func() (*State, []Value) {
		st := st0.clone()
		ex.refCtr = mark + span
		ex.loopInst = startInst
		vals := make([]Value, len(phis))
		for i, p := range phis {
			// the index of a range loop stays below the length
			if n := rangeBound(l, p); n != nil {
				if iv, ok := init[i].(*Term); ok && iv.isConst() && iv.k.Cmp(biM1) == 0 {
					v := Var(fmt.Sprintf("%s.%s%d", lname, p.Comment, i), biM1, new(big.Int).Sub(maxLen, bi1))
					vals[i] = v
					if nv, ok := ex.get(fr, st, n).(*Term); ok {
						st.ctx = st.ctx.Assume(Or(Lt(v, nv), Eq(v, Num(biM1))))
					}
				}
			}
			if vals[i] == nil {
				vals[i] = ex.havocVal(fmt.Sprintf("%s.%s%d", lname, p.Comment, i), p.Type(), st, iterHi)
			}
			// references: entry value or allocated since the loop was entered
			iv := comps(init[i])
			for j, c := range comps(vals[i]) {
				if c.isBool {
					continue
				}
				k := leafKeysFlat(p.Type())[j]
				if strings.HasSuffix(k, ".r") {
					st.ctx = st.ctx.Assume(Or(Eq(c, iv[j]), Ge(c, I(mark+1)), Eq(c, I(0))))
				}
			}
		}
		for k, m := range mods {
			h := &HNode{kind: hHavoc, key: k, prev: st.h(k), uf: fmt.Sprintf("hv.%s.%s", lname, k)}
			if _, ok := appRange[h.uf]; !ok {
				r := appRange[k]
				if strings.HasSuffix(k, ".r") || k == "if.b" || k == "str.s" {
					r[1] = iterHi
				}
				appRange[h.uf] = r
			}
			h.regs = m.refs
			if m.any {
				var inits []*Term
				for i, p := range phis {
					iv := comps(init[i])
					ks := leafKeysFlat(p.Type())
					for j := range iv {
						if strings.HasSuffix(ks[j], ".r") {
							inits = append(inits, iv[j])
						}
					}
				}
				regs := m.refs
				h.keep = func(ref *Term) *Term {
					c := Le(ref, I(mark))
					for _, x := range inits {
						c = And(c, Not(Eq(ref, x)))
					}
					for _, g := range regs {
						c = And(c, Not(Eq(ref, g.ref)))
					}
					return c
				}
			}
			st.heap[k] = h
		}
		return st, vals
	}
	isHavocVar := func(t *Term) bool {
		return t.op == OVar && strings.HasPrefix(t.name, lname+".") || t.op == OApp && strings.HasPrefix(t.name, "hv."+lname+".")
	}
	// iteration-local names: loops and calls inside the body, fresh values
	local := func(name string) bool {
		name = strings.TrimPrefix(name, "hv.")
		if i := strings.LastIndexByte(name, '!'); i >= 0 {
			j := i + 1
			n := 0
			for j < len(name) && name[j] >= '0' && name[j] <= '9' {
				n = n*10 + int(name[j]-'0')
				j++
			}
			if j > i+1 && n > startFresh {
				return true
			}
		}
		if len(name) > 1 && (name[0] == 'L' || name[0] == 'C') {
			n, j := 0, 1
			for j < len(name) && name[j] >= '0' && name[j] <= '9' {
				n = n*10 + int(name[j]-'0')
				j++
			}
			if j > 1 && j < len(name) && name[j] == '.' && n >= startInst {
				return true
			}
		}
		return false
	}
	variant := func(t *Term) bool {
		found := false
		seen := map[*Term]bool{}
		var rec func(t *Term)
		rec = func(t *Term) {
			if found || seen[t] {
				return
			}
			seen[t] = true
			if isHavocVar(t) || (t.op == OVar || t.op == OApp) && local(t.name) {
				found = true
				return
			}
			for _, a := range t.args {
				rec(a)
			}
		}
		rec(t)
		return found
	}
	runBody := func(st *State, vals []Value) (backs, exits []edge) {
		e := edge{to: l.header, st: st, phis: vals}
		outs := ex.runBlocks(fr, l.blocks, l.header, map[*ssa.BasicBlock][]edge{l.header: {e}})
		for _, o := range outs {
			if o.to == l.header {
				if !o.st.ctx.dead {
					backs = append(backs, o)
				}
			} else {
				exits = append(exits, o)
			}
		}
		return
	}
	save := func() (int, []int, int) {
		nc := make([]int, len(ex.catch))
		for i, c := range ex.catch {
			nc[i] = len(c.states)
		}
		return len(ex.obls), nc, len(fr.rets)
	}
	restore := func(no int, nc []int, nr int) {
		ex.obls = ex.obls[:no]
		for i, c := range ex.catch {
			c.states = c.states[:nc[i]]
		}
		fr.rets = fr.rets[:nr]
		fr.rvals = fr.rvals[:nr]
	}
	evalCands := func(st *State, vals []Value) *State {
		for _, c := range cands {
			t := c.f(st, vals)
			st.ctx = st.ctx.Assume(t)
		}
		return st
	}
	// auto candidates need the dry run's guards
	var backs, exits []edge
	no, nc, nr := save()
	sub := func(t *Term, from, to []Value) *Term {
		m := map[*Term]*Term{}
		for i := range from {
			a, b := comps(from[i]), comps(to[i])
			for j := range a {
				if a[j].op == OVar {
					m[a[j]] = b[j]
				}
			}
		}
		return Subst(t, m)
	}
	for round := 0; ; round++ {
		if round > 12 {
			unsupported("loop write set did not stabilise in %s", fr.fn)
		}
		st, vals := mkHavoc()
		start := st.log
		ex.quiet++
		backs, exits = runBody(st, vals)
		ex.quiet--
		changed := false
		all := append(append([]edge{}, backs...), exits...)
		seenLog := map[*wlog]bool{}
		for p := start; p != nil; p = p.prev {
			seenLog[p] = true
		}
		sts := []*State{}
		for _, e := range all {
			sts = append(sts, e.st)
		}
		for _, r := range fr.rets[nr:] {
			sts = append(sts, r)
		}
		for _, s := range sts {
			for p := s.log; p != nil && !seenLog[p]; p = p.prev {
				seenLog[p] = true
				m := mods[p.key]
				if m == nil {
					m = &modset{}
					mods[p.key] = m
					changed = true
				}
				for _, ref := range iteLeaves(p.ref) {
					if ref.isConst() && ref.k.Cmp(big.NewInt(mark)) > 0 {
						continue // allocated in this iteration
					}
					if variant(ref) {
						if !m.any {
							m.any = true
							changed = true
						}
						continue
					}
					rg := region{ref: ref}
					if p.n != nil && p.lo != nil && !variant(p.lo) && !variant(p.n) {
						rg.lo, rg.n = p.lo, p.n
					}
					dup := false
					exact := 0
					for _, g := range m.refs {
						if g.ref == ref {
							exact++
							if g.n == nil || g.n == rg.n && g.lo == rg.lo {
								dup = true
							}
						}
					}
					if exact >= 4 {
						rg.lo, rg.n = nil, nil
					}
					if !dup {
						var rs []region
						for _, g := range m.refs {
							if g.ref != ref || rg.n != nil {
								rs = append(rs, g)
							}
						}
						m.refs = append(rs, rg)
						changed = true
					}
				}
				if len(m.refs) == 0 && !m.any {
					// only fresh objects: still must havoc contents of earlier iterations' objects
					hasRefPhi := false
					for _, ph := range phis {
						for _, k := range leafKeysFlat(ph.Type()) {
							if strings.HasSuffix(k, ".r") || k == "if.b" {
								hasRefPhi = true
							}
						}
					}
					if hasRefPhi {
						m.any = true
						changed = true
					}
				}
			}
		}
		if round == 0 || changed {
			restore(no, nc, nr)
		}
		if !changed {
			// candidates
			if len(cands) == 0 {
				cands = ex.autoCands(fr, l, st0, vals, init, backs, exits, isHavocVar, sub)
				if spec != nil {
					cands = append(cands, ex.userCands(fr, l, spec, st0, init)...)
				}
			}
			restore(no, nc, nr)
			break
		}
	}
	// Houdini
	var invObls []*Obl
	for round := 0; ; round++ {
		invObls = nil
		bad := map[*cand]bool{}
		type chk struct {
			c *cand
			o *Obl
		}
		var chks []chk
		for _, c := range cands {
			for _, t := range splitGoal(st0.ctx, c.f(st0, init), c.user) {
				chks = append(chks, chk{c, &Obl{name: lname + " " + c.name + " holds on entry", kind: "loop-invariant", auto: !c.user, ctx: st0.ctx, goal: t, run: ex.curRun}})
			}
		}
		st, vals := mkHavoc()
		st = evalCands(st, vals)
		restore(no, nc, nr)
		ex.quiet++
		if round == 0 && len(cands) > 0 {
			// quiet pass only for pruning
		}
		ex.quiet--
		backs, exits = runBody(st, vals)
		for _, b := range backs {
			for _, c := range cands {
				for _, t := range splitGoal(b.st.ctx, c.f(b.st, b.phis), c.user) {
					chks = append(chks, chk{c, &Obl{name: lname + " " + c.name + " is preserved", kind: "loop-invariant", auto: !c.user, ctx: b.st.ctx, goal: t, run: ex.curRun}})
				}
			}
		}
		// reference discipline of loop variables (implicit candidate)
		for _, b := range backs {
			for i, p := range phis {
				iv, nv := comps(init[i]), comps(b.phis[i])
				ks := leafKeysFlat(p.Type())
				for j := range nv {
					if nv[j].isBool || !strings.HasSuffix(ks[j], ".r") {
						continue
					}
					c := Or(Eq(nv[j], iv[j]), Ge(nv[j], I(mark+1)), Eq(nv[j], I(0)))
					if !ex.decide(b.st.ctx, c) {
						unsupported("loop variable %s of %s may refer to unrelated memory", p.Comment, fr.fn)
					}
				}
			}
		}
		var os []*Obl
		for _, c := range chks {
			os = append(os, c.o)
		}
		tDis := time.Now()
		dischargeAll(os, 15*time.Second, os_debug)
		if os_debug {
			fmt.Fprintf(os2, "%s round %d: %d candidates, %d checks, %.1fs\n", lname, round, len(cands), len(os), time.Since(tDis).Seconds())
			for _, c := range chks {
				if c.o.res.dur > 2*time.Second {
					fmt.Fprintf(os2, "   %s %s %.1fs %s\n", c.o.name, c.o.res.status, c.o.res.dur.Seconds(), c.o.res.solver)
				}
			}
		}
		for _, c := range chks {
			if c.o.res.status != "unsat" {
				bad[c.c] = true
				if c.c.user && os_debug {
					g := c.o.ctx.Simp(c.o.goal)
					fmt.Fprintf(os2, "inv dropped: %s (%s)\n", c.o.name, c.o.res.status)
					if g.op != OAnd {
						g = And(g)
					}
					gs := []*Term{g}
					if g.op == OAnd {
						gs = g.args
					}
					for _, x := range gs {
						if !ex.decideTO(c.o.ctx, x, 5*time.Second) {
							fmt.Fprintf(os2, "   conjunct %v\n", x)
						}
					}
					for t, v := range c.o.res.model {
						fmt.Fprintf(os2, "      %s = %s\n", trunc(t.String(), 100), v)
					}
				}
			}
		}
		if len(bad) == 0 {
			for _, c := range chks {
				c.o.trivia = !c.c.user
				invObls = append(invObls, c.o)
			}
			break
		}
		var keep []*cand
		for _, c := range cands {
			if !bad[c] {
				keep = append(keep, c)
			} else if c.user {
				ex.notes = append(ex.notes, "loop invariant not inductive: "+lname+" "+c.name)
			}
		}
		cands = keep
	}
	if ex.quiet == 0 {
		ex.obls = append(ex.obls, invObls...)
	}
	return exits
}

// splitGoal lists the conjuncts of a user invariant, which are proved separately.
func splitGoal(c *Ctx, t *Term, user bool) []*Term {
	if !user {
		return []*Term{t}
	}
	t = c.Simp(t)
	if t.op == OAnd {
		return t.args
	}
	return []*Term{t}
}

var os_debug = os.Getenv("GOVC_DEBUG") != ""
var os2 = os.Stderr

func iteLeaves(t *Term) []*Term {
	if t.op == OIte {
		return append(iteLeaves(t.args[1]), iteLeaves(t.args[2])...)
	}
	return []*Term{t}
}

func leafKeysFlat(t types.Type) []string {
	if ks := leafKeys(t); ks != nil {
		return ks
	}
	var r []string
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			r = append(r, leafKeysFlat(u.Field(i).Type())...)
		}
	case *types.Array:
		for i := int64(0); i < u.Len(); i++ {
			r = append(r, leafKeysFlat(u.Elem())...)
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			r = append(r, leafKeysFlat(u.At(i).Type())...)
		}
	}
	return r
}

func (ex *Exec) autoCands(fr *Frame, l *Loop, st0 *State, vals, init []Value, backs, exits []edge, isHv func(*Term) bool, sub func(*Term, []Value, []Value) *Term) []*cand {
	var cs []*cand
	seen := map[*Term]bool{}
	add := func(name string, t *Term) {
		if t == True || t == False || seen[t] || len(cs) > 40 {
			return
		}
		// only over phi variables and loop-invariant terms (no havoced memory)
		bad := false
		vis := map[*Term]bool{}
		var rec func(t *Term)
		rec = func(t *Term) {
			if bad || vis[t] {
				return
			}
			vis[t] = true
			if t.op == OApp && isHv(t) {
				bad = true
			}
			for _, a := range t.args {
				rec(a)
			}
		}
		rec(t)
		if bad {
			return
		}
		seen[t] = true
		cs = append(cs, &cand{name: name, term: t, f: func(st *State, vs []Value) *Term { return sub(t, vals, vs) }})
	}
	phis := phisOf(l.header)
	type intPhi struct {
		v, i *Term
		step *big.Int
	}
	var ips []intPhi
	for i := range phis {
		vc, ic := comps(vals[i]), comps(init[i])
		for j := range vc {
			if vc[j].op != OVar {
				continue
			}
			if vc[j].isBool {
				add("auto-eq", Iff(vc[j], ic[j]))
				continue
			}
			ip := intPhi{v: vc[j], i: ic[j]}
			same := true
			var step *big.Int
			for _, b := range backs {
				d := Sub(comps(b.phis[i])[j], vc[j])
				if !d.isConst() || step != nil && step.Cmp(d.k) != 0 {
					same = false
					break
				}
				step = d.k
			}
			if same && step != nil {
				ip.step = step
			}
			ips = append(ips, ip)
			add("auto-eq", Eq(vc[j], ic[j]))
			add("auto-ge", Ge(vc[j], ic[j]))
			add("auto-le", Le(vc[j], ic[j]))
		}
	}
	for i := range ips {
		for j := i + 1; j < len(ips); j++ {
			a, b := ips[i], ips[j]
			if a.step == nil || b.step == nil {
				continue
			}
			if a.step.Sign() == 0 || b.step.Sign() == 0 {
				continue
			}
			add("auto-lin", Eq(Scale(b.step, Sub(a.v, a.i)), Scale(a.step, Sub(b.v, b.i))))
		}
	}
	// slice off + len constant etc. are covered by auto-lin when steps are constant.
	// conditions of the loop
	conds := map[*Term]bool{}
	grab := func(c *Ctx) {
		g, _ := c.suffix(commonCtx(c, st0.ctx))
		for _, x := range g {
			for _, y := range append([]*Term{x}, x.args...) {
				if y.op == OLe {
					conds[y] = true
				}
				if y.op == ONot && y.args[0].op == OLe {
					conds[Not(y)] = true
				}
				if y.op == OEq || y.op == ONot && y.args[0].op == OEq {
					z := y
					if y.op == ONot {
						z = y.args[0]
					}
					conds[Le0(z.args[0])] = true
					conds[Le0(Neg(z.args[0]))] = true
				}
			}
		}
	}
	for _, b := range backs {
		grab(b.st.ctx)
	}
	for _, e := range exits {
		grab(e.st.ctx)
	}
	var cl []*Term
	for c := range conds {
		if c.op == OLe {
			cl = append(cl, c)
		}
	}
	sort.Slice(cl, func(i, j int) bool { return cl[i].id < cl[j].id })
	for _, c := range cl {
		add("auto-guard", c)
		for _, ip := range ips {
			if ip.step == nil || ip.step.Sign() == 0 {
				continue
			}
			_, as, co := linParts(c.args[0])
			for q, a := range as {
				if a == ip.v {
					d := new(big.Int).Mul(co[q], ip.step)
					d.Abs(d)
					add("auto-guard1", Le0(Sub(c.args[0], Num(d))))
				}
			}
		}
		add("auto-guard1", Le0(Sub(c.args[0], I(1))))
	}
	return cs
}
