package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// loopSpec collects what is known about a loop.
func (ex *Exec) loopSpec(fr *Frame, l *Loop) *loopSpec {
	s := &loopSpec{}
	name := fr.fn.String()
	if n, ok := ex.ld.unrolls[name]; ok {
		s.unroll = n
	}
	if ex.ld.cuts[name] || ex.ld.cuts[fmt.Sprintf("%s#%d", name, l.ord)] {
		s.cut = true
	}
	// a loop moved into a helper is still the loop of its former function
	own := false
	for _, i := range ex.ld.invs {
		own = own || i.target == funcKey(fr.fn) || i.target == name
	}
	for f := fr.caller; f != nil && !own && !s.cut && s.unroll == 0; f = f.caller {
		if f.fn == nil {
			continue
		}
		for c := range ex.ld.cuts {
			if c == f.fn.String() || strings.HasPrefix(c, f.fn.String()+"#") {
				s.cut = true
			}
		}
	}
	return s
}

// invsFor returns the candidate invariants for loop l of frame fr: those
// written for the function itself, or failing that for one of its callers.
func (ex *Exec) invsFor(fr *Frame, l *Loop) []*invSpec {
	for f := fr; f != nil; f = f.caller {
		if f.fn == nil {
			continue
		}
		name := funcKey(f.fn)
		name2 := f.fn.String()
		var r []*invSpec
		for _, i := range ex.ld.invs {
			if i.target == name || i.target == name2 {
				if f == fr && i.ord >= 0 && i.ord != l.ord {
					continue
				}
				r = append(r, i)
			}
		}
		if len(r) > 0 {
			return r
		}
	}
	return nil
}

type binder func(st *State, vals []Value) Value

type namedBinder struct {
	name string
	t    types.Type
	b    binder
	rank int // negative: not a variable of the source
}

// userCands instantiates the user invariants for a loop.
func (ex *Exec) userCands(fr *Frame, l *Loop, spec *loopSpec, st0 *State, init []Value) []*cand {
	invs := ex.invsFor(fr, l)
	if len(invs) == 0 {
		return nil
	}
	nbs := ex.binders(fr, l, st0, init)
	var out []*cand
	for _, iv := range invs {
		sig := iv.fn.Signature
		np := sig.Params().Len()
		choices := make([][]namedBinder, np)
		okAll := true
		for i := 0; i < np; i++ {
			p := sig.Params().At(i)
			for _, nb := range nbs {
				if nb.name == p.Name() && types.Identical(nb.t, p.Type()) {
					choices[i] = append(choices[i], nb)
				}
			}
			if len(choices[i]) > 1 {
				// prefer loop variables over outer variables
				best := choices[i][0]
				for _, c := range choices[i] {
					if c.rank < best.rank {
						best = c
					}
				}
				choices[i] = []namedBinder{best}
			}
			if len(choices[i]) == 0 && !strings.HasPrefix(p.Name(), "old_") {
				for _, nb := range nbs {
					if nb.rank <= 2 && types.Identical(nb.t, p.Type()) && !strings.HasPrefix(nb.name, "old_") && nb.rank >= 0 {
						choices[i] = append(choices[i], nb)
					}
				}
			}
			if len(choices[i]) == 0 && !strings.HasPrefix(p.Name(), "old_") {
				// the loop may have been rewritten over a range
				for _, nb := range nbs {
					if nb.rank < 0 && types.Identical(nb.t, p.Type()) {
						choices[i] = append(choices[i], nb)
					}
				}
			}
			if len(choices[i]) == 0 {
				okAll = false
			}
		}
		if !okAll {
			continue
		}
		var combos [][]namedBinder
		var rec func(i int, cur []namedBinder)
		rec = func(i int, cur []namedBinder) {
			if len(combos) >= 12 {
				return
			}
			if i == np {
				combos = append(combos, append([]namedBinder(nil), cur...))
				return
			}
			for _, c := range choices[i] {
				rec(i+1, append(cur, c))
			}
		}
		rec(0, nil)
		for ci, c := range combos {
			c := c
			iv := iv
			out = append(out, &cand{name: fmt.Sprintf("%s/%d", iv.name, ci), user: true, def: iv.def, f: func(st *State, vals []Value) *Term {
				var args []Value
				for _, b := range c {
					args = append(args, b.b(st, vals))
				}
				sv := ex.entry
				ex.entry = st0
				defer func() { ex.entry = sv }()
				return ex.evalPred(fr, st, iv.fn, args)
			}})
		}
	}
	return out
}

// evalPred evaluates a boolean specification function.
func (ex *Exec) evalPred(fr *Frame, st *State, fn *ssa.Function, args []Value) *Term {
	ex.spec++
	ex.inPred++
	defer func() { ex.inPred-- }()
	sv := ex.catch
	ex.catch = nil
	ctr := ex.refCtr
	inst := ex.loopInst
	defer func() { ex.spec--; ex.catch = sv; ex.refCtr = ctr; ex.loopInst = inst }()
	s := st.clone()
	n, v := ex.execFunction(fn, args, nil, s, &Frame{fn: nil, caller: nil, con: conOfFrame(fr)}, nil)
	if n == nil {
		return True
	}
	return v[0].(*Term)
}

func conOfFrame(fr *Frame) *contractRun {
	for f := fr; f != nil; f = f.caller {
		if f.con != nil {
			return f.con
		}
	}
	return nil
}

// binders lists the source-level variables visible at the loop header.
func (ex *Exec) binders(fr *Frame, l *Loop, st0 *State, init []Value) []namedBinder {
	var out []namedBinder
	phis := phisOf(l.header)
	for i, p := range phis {
		i := i
		n := p.Comment
		if n == "rangeindex" {
			out = append(out, namedBinder{"rng", p.Type(), func(st *State, vals []Value) Value { return Add(vals[i].(*Term), I(1)) }, -1})
			continue
		}
		out = append(out, namedBinder{n, p.Type(), func(st *State, vals []Value) Value { return vals[i] }, 0})
		out = append(out, namedBinder{"old_" + n, p.Type(), func(st *State, vals []Value) Value { return init[i] }, 0})
	}
	for i, p := range fr.fn.Params {
		i := i
		out = append(out, namedBinder{p.Name(), p.Type(), func(st *State, vals []Value) Value { return fr.args[i] }, 2})
		out = append(out, namedBinder{"arg_" + p.Name(), p.Type(), func(st *State, vals []Value) Value { return fr.args[i] }, 2})
	}
	for i, p := range fr.fn.FreeVars {
		i := i
		if pt, ok := p.Type().Underlying().(*types.Pointer); ok {
			out = append(out, namedBinder{p.Name(), pt.Elem(), func(st *State, vals []Value) Value {
				a := fr.free[i].(PtrV)
				return st.load(pt.Elem(), a.ref, a.off)
			}, 2})
		}
	}
	// local values dominating the header
	seen := map[string]bool{}
	for _, b := range fr.fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.DebugRef:
				if x.IsAddr || !b.Dominates(l.header) || b == l.header {
					continue
				}
				id := identName(x)
				if id == "" {
					continue
				}
				v := x.X
				if _, ok := fr.regs[v]; !ok {
					if _, isc := v.(*ssa.Const); !isc {
						continue
					}
				}
				out = append(out, namedBinder{id, v.Type(), func(st *State, vals []Value) Value { return ex.get(fr, st, v) }, 1})
				if !seen[id] {
					seen[id] = true
				}
			case *ssa.Alloc:
				if !b.Dominates(l.header) {
					continue
				}
				if _, ok := fr.regs[x]; !ok {
					continue
				}
				v, t := ssa.Value(x), derefType(x.Type())
				out = append(out, namedBinder{x.Comment, t, func(st *State, vals []Value) Value {
					p := ex.get(fr, st, v).(PtrV)
					return st.load(t, p.ref, p.off)
				}, 1})
				out = append(out, namedBinder{"old_" + x.Comment, t, func(st *State, vals []Value) Value {
					p := ex.get(fr, st0, v).(PtrV)
					return st0.load(t, p.ref, p.off)
				}, 1})
			case *ssa.Range:
				if _, ok := fr.regs[x]; !ok || !b.Dominates(l.header) {
					continue
				}
				v := ssa.Value(x)
				used := false
				for _, h := range l.header.Instrs {
					if nx, ok := h.(*ssa.Next); ok && nx.Iter == v {
						used = true
					}
				}
				if !used {
					continue
				}
				out = append(out, namedBinder{"pos", types.Typ[types.Int], func(st *State, vals []Value) Value {
					it := ex.get(fr, st, v).(IterV)
					return st.load(types.Typ[types.Int], it.cell.ref, it.cell.off)
				}, -1})
			}
		}
	}
	// later debug refs win over earlier ones: reverse order among rank 1
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func identName(x *ssa.DebugRef) string {
	type named interface{ String() string }
	if o := x.Object(); o != nil {
		return o.Name()
	}
	return ""
}

// ---------- opaque specification functions ----------

func (ex *Exec) revealed(name string) bool { return ex.reveal[name] }

func (ex *Exec) applySpec(sp *specUF, args []Value) []Value {
	var cs []*Term
	allConst := true
	for _, a := range args {
		for _, c := range comps(a) {
			cs = append(cs, c)
			if !c.isConst() && c != True && c != False {
				allConst = false
			}
		}
	}
	if allConst && !sp.opaque {
		return nil
	}
	res := sp.fn.Signature.Results()
	if sp.opaque && res.Len() == 1 && len(leafKeysFlat(res.At(0).Type())) > 1 {
		var out []*Term
		for i, k := range leafKeysFlat(res.At(0).Type()) {
			n := fmt.Sprintf("%s.%d", sp.name, i)
			if k == "bool" {
				out = append(out, AppB(n, cs...))
				continue
			}
			t := App(n, cs...)
			if r, ok := appRange[k]; ok && t.lo == nil && t.hi == nil {
				t.lo, t.hi = r[0], r[1]
				appRange[n] = r
			}
			out = append(out, t)
		}
		return one(ex.rebuildVal(res.At(0).Type(), &out))
	}
	if res.Len() != 1 || len(leafKeysFlat(res.At(0).Type())) != 1 {
		unsupported("specification function %s must have one scalar result", sp.name)
	}
	k := leafKeysFlat(res.At(0).Type())[0]
	if unfolders[sp.name] == nil && !sp.opaque {
		cache := map[*Term][]*Term{}
		unfolders[sp.name] = func(app *Term) (axs []*Term) {
			if a, ok := cache[app]; ok {
				return a
			}
			defer func() { cache[app] = axs }()
			c := append([]*Term(nil), app.args...)
			var as []Value
			for i := 0; i < sp.fn.Signature.Params().Len(); i++ {
				as = append(as, ex.rebuildVal(sp.fn.Signature.Params().At(i).Type(), &c))
			}
			ex.spec++
			ex.noSolve++
			ex.inPred++
			defer func() { ex.noSolve--; ex.inPred-- }()
			sv, ctr, inst, q := ex.catch, ex.refCtr, ex.loopInst, ex.quiet
			ex.catch = nil
			ex.quiet++
			st := &State{heap: map[string]*HNode{}, ctx: NewCtx()}
			n, v := ex.execFunction(sp.fn, as, nil, st, nil, nil)
			ex.spec--
			ex.catch, ex.refCtr, ex.loopInst, ex.quiet = sv, ctr, inst, q
			if n == nil {
				return nil
			}
			r := v[0].(*Term)
			if app.isBool {
				return []*Term{Iff(app, r)}
			}
			return []*Term{Eq(app, r)}
		}
	}
	if k == "bool" {
		return one(AppB(sp.name, cs...))
	}
	t := App(sp.name, cs...)
	if t.lo == nil && t.hi == nil {
		if r, ok := appRange[k]; ok {
			t.lo, t.hi = r[0], r[1]
			appRange[sp.name] = r
		}
	}
	return one(t)
}
