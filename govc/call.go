package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

const vspecPath = "flychain/internal/vspec"

type callInfo struct {
	fr   *Frame
	fn   *ssa.Function
	args []Value
	pos  token.Pos
	sig  *types.Signature
}

func one(v Value) []Value { return []Value{v} }

func (ex *Exec) doCall(fr *Frame, st *State, com *ssa.CallCommon, fv Value, args []Value, pos token.Pos) (*State, []Value) {
	if b, ok := com.Value.(*ssa.Builtin); ok {
		return ex.builtin(fr, st, b, com, args, pos)
	}
	if com.IsInvoke() {
		return ex.invoke(fr, st, fv.(IfaceV), com.Method, args, pos)
	}
	if fn := com.StaticCallee(); fn != nil {
		var free []Value
		if mc, ok := com.Value.(*ssa.MakeClosure); ok {
			_ = mc
			f := fv.(FuncV)
			if k, ok := constInt(f.id); ok {
				free = ex.funcTab[k].free
			}
		}
		return ex.callFunction(fr, st, fn, args, free, pos)
	}
	return ex.callValue(fr, st, fv.(FuncV), args, pos, com.Signature())
}

// forkOn runs f for each constant leaf of id.
func (ex *Exec) forkOn(st *State, id *Term, f func(st *State, k int64) (*State, []Value)) (*State, []Value) {
	id = st.ctx.Simp(id)
	leaves := map[int64]bool{}
	var order []int64
	for _, l := range iteLeaves(id) {
		if k, ok := constInt(l); ok {
			if !leaves[k] {
				leaves[k] = true
				order = append(order, k)
			}
		} else {
			return nil, nil
		}
	}
	if len(order) == 1 {
		return f(st, order[0])
	}
	var sts []*State
	var vals [][]Value
	for _, k := range order {
		s := st.clone()
		s.ctx = s.ctx.Guard(Eq(id, I(k)))
		if s.ctx.dead {
			continue
		}
		n, v := f(s, k)
		if n != nil {
			sts = append(sts, n)
			vals = append(vals, v)
		}
	}
	return mergeStates(sts, vals)
}

func allConstLeaves(t *Term) bool {
	for _, l := range iteLeaves(t) {
		if !l.isConst() {
			return false
		}
	}
	return true
}

func (ex *Exec) callValue(fr *Frame, st *State, f FuncV, args []Value, pos token.Pos, sig *types.Signature) (*State, []Value) {
	ex.check(fr, st, Not(Eq(f.id, I(0))), "call of non-nil function", pos)
	if st.ctx.dead {
		return nil, nil
	}
	id := st.ctx.Simp(f.id)
	if !allConstLeaves(id) {
		unsupported("call of unknown function value in %s", fr.fn)
	}
	return ex.forkOn(st, id, func(s *State, k int64) (*State, []Value) {
		if k == 0 {
			return nil, nil
		}
		e := ex.funcTab[k]
		return ex.callFunction(fr, s, e.fn, args, e.free, pos)
	})
}

func (ex *Exec) invoke(fr *Frame, st *State, iv IfaceV, m *types.Func, args []Value, pos token.Pos) (*State, []Value) {
	ex.check(fr, st, Not(Eq(iv.typ, I(0))), "method call on non-nil interface", pos)
	if st.ctx.dead {
		return nil, nil
	}
	typ := st.ctx.Simp(iv.typ)
	if !allConstLeaves(typ) {
		if f := ex.ld.imodels[m.FullName()]; f != nil {
			ex.trusted["model of any "+m.FullName()] = true
			return ex.execFunction(f, append([]Value{iv}, args...), nil, st, fr, nil)
		}
		if n, v, ok := ex.opaqueInvoke(fr, st, iv, m, args); ok {
			return n, v
		}
		if infeasible(st) {
			return nil, nil
		}
		unsupported("call of %s on unknown dynamic type in %s", m.FullName(), fr.fn)
	}
	return ex.forkOn(st, typ, func(s *State, k int64) (*State, []Value) {
		if k == 0 {
			return nil, nil
		}
		t := ex.typeList[k]
		fn := ex.ld.prog.LookupMethod(t, m.Pkg(), m.Name())
		if fn == nil {
			return nil, nil
		}
		recv := s.load(t, iv.box, boxOff)
		return ex.callFunction(fr, s, fn, append([]Value{recv}, args...), nil, pos)
	})
}

// opaqueInvoke: a few pure interface methods on unknown dynamic types.
func (ex *Exec) opaqueInvoke(fr *Frame, st *State, iv IfaceV, m *types.Func, args []Value) (*State, []Value, bool) {
	switch m.FullName() {
	case "(error).Error", "(fmt.Stringer).String", "(reflect.Type).String":
		ex.trusted["dynamic "+m.FullName()+": a pure function of the receiver"] = true
		n := App("dyn."+m.Name()+".n", iv.typ, iv.box)
		if n.lo == nil {
			n.lo, n.hi = bi0, maxLen
		}
		return st, one(StrV{App("dyn."+m.Name()+".s", iv.typ, iv.box), I(0), n}), true
	}
	return nil, nil, false
}

// stdlib packages whose source is executed rather than modelled
var inlinePkgs = map[string]bool{
	"encoding/hex": true, "errors": true, "unicode/utf8": true, "bytes": true, "strings": true, "sort": true,
	"encoding/binary": true, "strconv": true, "internal/stringslite": true, "internal/bytealg": true, "slices": true,
	"math/bits": true, "math": true, "internal/strconv": true, "cmp": true, "container/heap": true, "unicode": true, "io": true, "internal/byteorder": true, "reflect": false,
}

func (ex *Exec) inlineOK(fn *ssa.Function) bool {
	p := fn.Package()
	if p == nil {
		if fn.Origin() != nil && fn.Origin().Package() != nil {
			p = fn.Origin().Package()
		} else if fn.Parent() != nil {
			return ex.inlineOK(fn.Parent())
		} else if fn.Synthetic != "" {
			return true // wrappers, thunks
		}
	}
	if p == nil {
		return true
	}
	path := p.Pkg.Path()
	return strings.HasPrefix(path, "flychain") || inlinePkgs[path]
}

func funcKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (ex *Exec) callFunction(fr *Frame, st *State, fn *ssa.Function, args, free []Value, pos token.Pos) (*State, []Value) {
	key := funcKey(fn)
	if strings.HasPrefix(key, vspecPath+".") {
		return ex.intrinsic(fr, st, fn, strings.TrimPrefix(key, vspecPath+"."), args, pos)
	}
	ci := &callInfo{fr: fr, fn: fn, args: args, pos: pos, sig: fn.Signature}
	if m, ok := models[key]; ok {
		ex.trusted[key] = true
		return m(ex, st, ci)
	}
	if o := fn.Object(); o != nil && fn.Synthetic == "" {
		if m, ok := ex.ld.models[key]; ok && (fr == nil || fr.fn != m) {
			ex.trusted["model of "+key] = true
			return ex.execFunction(m, args, nil, st, fr, nil)
		}
	}
	if sp, ok := ex.ld.specs[fn]; ok && !ex.revealed(sp.name) {
		if r := ex.applySpec(sp, args); r != nil {
			return st, r
		}
	}
	// contract handling
	if fr != nil && fr.con != nil && fr.con.c.target == fn && fr.fn == fr.con.c.fn {
		return ex.targetCall(fr, st, fn, args, free, pos)
	}
	if c := ex.ld.modular[fn]; c != nil && !ex.noMod && !ex.curNoMod && !c.dropped && ex.useModular(fr, c) {
		ex.modular[c.id] = true
		return ex.applyContract(fr, st, c, args, pos)
	}
	ex.ld.ensureBuilt(fn)
	if len(fn.Blocks) > 0 && ex.inlineOK(fn) {
		if strings.HasPrefix(key, "flychain") || strings.Contains(key, "(flychain") || strings.Contains(key, "(*flychain") {
			ex.inlined[key] = true
		} else {
			ex.trusted["source of "+key+" (executed symbolically, not trusted)"] = true
		}
		return ex.execFunction(fn, args, free, st, fr, nil)
	}
	if infeasible(st) {
		return nil, nil
	}
	unsupported("call of %s from %s", key, callerName(fr))
	return nil, nil
}

// infeasible asks the solvers whether the path conditions contradict each other.
func infeasible(st *State) bool {
	if st.ctx.dead {
		return true
	}
	q, triv := BuildQuery(st.ctx.Facts(), False, nil, 2)
	return triv || q.Solve(5*time.Second, false).status == "unsat"
}

func callerName(fr *Frame) string {
	if fr == nil {
		return "?"
	}
	return fr.fn.String()
}

func (ex *Exec) useModular(fr *Frame, c *Contract) bool {
	// inside the verification of c itself, the target body must be executed;
	// recursive calls use the contract.
	return true
}

// ---------- contracts ----------

// targetCall executes the contracted function inside its own contract.
func (ex *Exec) targetCall(fr *Frame, st *State, fn *ssa.Function, args, free []Value, pos token.Pos) (*State, []Value) {
	con := fr.con
	first := !con.called
	con.called = true
	if !con.assume {
		preLog, preCtr := st.log, ex.refCtr
		if first {
			con.preCtr = preCtr
		}
		sv := ex.spec
		ex.spec = 0
		n, rs := ex.execFunction(fn, args, free, st, fr, nil)
		ex.spec = sv
		if n == nil {
			return nil, nil
		}
		if first && !con.c.flags["noframe"] {
			ex.frameObls(fr, n, preLog, preCtr, con)
		}
		return n, rs
	}
	// call site: havoc
	if ex.inPred > 0 {
		unsupported("contracted function %s called from a specification", fn)
	}
	ex.loopInst++
	name := fmt.Sprintf("C%d.%s", ex.loopInst, fn.Name())
	con.hv = "hv." + name + "."
	if !con.c.flags["pure"] {
		byKey := map[string][]region{}
		for _, m := range con.mods {
			byKey[m.key] = append(byKey[m.key], region{ref: m.ref, lo: m.lo, n: m.n, cond: m.cond})
			st.log = &wlog{st.log, m.key, m.ref, m.lo, m.n, st.ctx}
		}
		for k, rs := range byKey {
			h := &HNode{kind: hHavoc, key: k, prev: st.h(k), uf: "hv." + name + "." + k, regs: rs}
			if r, ok := appRange[k]; ok {
				appRange[h.uf] = r
			}
			st.heap[k] = h
		}
	}
	con.preCtr = ex.refCtr
	const span = 1 << 16
	ex.refCtr += span
	var rs []Value
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		rs = append(rs, ex.havocVal(fmt.Sprintf("%s.r%d", name, i), res.At(i).Type(), st, big.NewInt(con.preCtr+span)))
	}
	if !first {
		unsupported("contract %s calls its target more than once", con.c.name)
	}
	con.results = rs
	return st, rs
}

func (ex *Exec) frameObls(fr *Frame, st *State, preLog *wlog, preCtr int64, con *contractRun) {
	stop := map[*wlog]bool{}
	for p := preLog; p != nil; p = p.prev {
		stop[p] = true
	}
	type ent struct {
		key string
		g   *Term
	}
	seen := map[ent]bool{}
	n := 0
	for p := st.log; p != nil && !stop[p]; p = p.prev {
		if p.ref.isConst() && p.ref.k.Cmp(big.NewInt(preCtr)) > 0 {
			continue
		}
		if p.ctx.dead {
			continue
		}
		g := Gt(p.ref, I(preCtr))
		for _, m := range con.mods {
			if m.key != p.key {
				continue
			}
			c := Eq(p.ref, m.ref)
			if m.cond != nil {
				c = And(c, m.cond)
			}
			if m.n != nil {
				if p.n == nil {
					c = False
				} else {
					c = And(c, Le(m.lo, p.lo), Le(Add(p.lo, p.n), Add(m.lo, m.n)))
				}
			}
			if p.n != nil {
				c = Or(c, Le(p.n, I(0)))
			}
			g = Or(g, c)
		}
		g = p.ctx.Simp(g)
		if g == True || seen[ent{p.key, g}] {
			continue
		}
		seen[ent{p.key, g}] = true
		n++
		if ex.quiet == 0 && ex.spec == 0 {
			ex.addObl(&Obl{name: con.prefix + "writes only the declared memory", kind: "frame", ctx: p.ctx, goal: g, run: ex.curRun}, fr)
		}
	}
	if n == 0 && ex.quiet == 0 && ex.spec == 0 {
		ex.addObl(&Obl{name: con.prefix + "writes only the declared memory", kind: "frame", ctx: st.ctx, goal: True, run: ex.curRun}, fr)
	}
}

// applyContract replaces a call by the contract of the callee.
func (ex *Exec) applyContract(fr *Frame, st *State, c *Contract, args []Value, pos token.Pos) (*State, []Value) {
	con := &contractRun{c: c, assume: true, prefix: callerName(fr) + " calls " + c.name + ": "}
	sv := ex.spec
	pf := &Frame{fn: fr.fn, con: nil}
	con.caller = pf
	con.outerSpec = sv
	ex.spec++
	n, _ := ex.execFunction(c.fn, args, nil, st, fr, con)
	ex.spec = sv
	if n == nil {
		return nil, nil
	}
	if !con.called {
		unsupported("contract %s does not call its target on every path", c.name)
	}
	return n, con.results
}

// ---------- builtins ----------

func (ex *Exec) builtin(fr *Frame, st *State, b *ssa.Builtin, com *ssa.CallCommon, args []Value, pos token.Pos) (*State, []Value) {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case StrV:
			return st, one(x.n)
		case SliceV:
			return st, one(x.n)
		case ArrayV:
			return st, one(I(int64(len(x.e))))
		case PtrV:
			return st, one(I(derefType(com.Args[0].Type()).Underlying().(*types.Array).Len()))
		case RefV:
			if _, ok := com.Args[0].Type().Underlying().(*types.Chan); ok {
				n, _ := ex.chanLens(st, x.ref)
				return st, one(Ite(Eq(x.ref, I(0)), I(0), n))
			}
		}
	case "cap":
		switch x := args[0].(type) {
		case RefV:
			_, c := ex.chanLens(st, x.ref)
			return st, one(Ite(Eq(x.ref, I(0)), I(0), c))
		case SliceV:
			return st, one(x.c)
		}
	case "append":
		return ex.appendOp(fr, st, com, args)
	case "copy":
		d := args[0].(SliceV)
		et := com.Args[0].Type().Underlying().(*types.Slice).Elem()
		var n *Term
		if s, ok := args[1].(StrV); ok {
			n = st.ctx.Simp(Ite(Le(d.n, s.n), d.n, s.n))
			st.copyIn("uint8", d.ref, d.off, n, func(i *Term) *Term { return s.at(i) })
			return st, one(n)
		}
		s := args[1].(SliceV)
		n = st.ctx.Simp(Ite(Le(d.n, s.n), d.n, s.n))
		ex.copyElems(st, et, d.ref, d.off, s.ref, s.off, n)
		return st, one(n)
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			y := a.(*Term)
			if b.Name() == "min" {
				r = Ite(Le(r, y), r, y)
			} else {
				r = Ite(Ge(r, y), r, y)
			}
		}
		return st, one(r)
	case "clear":
		if s, ok := args[0].(SliceV); ok {
			et := com.Args[0].Type().Underlying().(*types.Slice).Elem()
			sz := Scale(big.NewInt(slots(et)), s.n)
			for _, k := range allKeys(et) {
				z := keyZero(k)
				st.copyIn(k, s.ref, s.off, sz, func(i *Term) *Term { return z })
			}
			return st, nil
		}
	case "print", "println":
		return st, nil
	case "ssa:wrapnilchk":
		p := args[0].(PtrV)
		ex.nilCheck(fr, st, p.ref, pos)
		return st, one(p)
	case "recover":
		return st, one(IfaceV{I(0), I(0)})
	case "close":
		unsupported("close of channel in %s", fr.fn)
	case "delete":
		m := args[0].(RefV)
		mt := com.Args[0].Type().Underlying().(*types.Map)
		k := ex.mapKey(st, mt.Key(), args[1])
		st.wr(mapPrefix(mt)+".has", m.ref, k, I(0))
		return st, nil
	}
	unsupported("builtin %s in %s", b.Name(), fr.fn)
	return nil, nil
}

func (ex *Exec) copyElems(st *State, et types.Type, dref, doff, sref, soff, n *Term) {
	if n.isC(0) {
		return
	}
	sz := big.NewInt(slots(et))
	// snapshot sources first
	keys := allKeys(et)
	hs := map[string]*HNode{}
	for _, k := range keys {
		hs[k] = st.h(k)
	}
	tot := Scale(sz, n)
	for _, k := range keys {
		h := hs[k]
		st.copyIn(k, dref, doff, tot, func(i *Term) *Term { return Select(h, sref, Add(soff, i)) })
	}
}

func (ex *Exec) appendOp(fr *Frame, st *State, com *ssa.CallCommon, args []Value) (*State, []Value) {
	s := args[0].(SliceV)
	et := com.Args[0].Type().Underlying().(*types.Slice).Elem()
	sz := big.NewInt(slots(et))
	var k *Term
	var cp func(t *State, ref, off *Term)
	switch y := args[1].(type) {
	case StrV:
		k = y.n
		cp = func(t *State, ref, off *Term) {
			t.copyIn("uint8", ref, off, t.ctx.Simp(y.n), func(i *Term) *Term { return y.at(i) })
		}
	case SliceV:
		k = y.n
		cp = func(t *State, ref, off *Term) { ex.copyElems(t, et, ref, off, y.ref, y.off, t.ctx.Simp(y.n)) }
	}
	k = st.ctx.Simp(k)
	if k.isC(0) {
		return st, one(s)
	}
	n := Add(s.n, k)
	st.ctx = st.ctx.Assume(Le(n, Num(maxLen)))
	fits := st.ctx.Simp(Le(n, s.c))
	var sts []*State
	var vals [][]Value
	if fits != False {
		a := st.clone()
		a.ctx = a.ctx.Guard(fits)
		if !a.ctx.dead {
			ref := s.ref
			if !ref.isConst() {
				a.ctx = a.ctx.propagate(ref)
			}
			if lo, hi := a.ctx.Rng(ref); lo != nil && !ref.isConst() && (ref.lo == nil || lo.Cmp(ref.lo) > 0) {
				// give the memory written a name whose range is known outside this branch, too
				ref = Var(freshName("app.ref"), lo, hi)
				refAlias[ref] = s.ref
				a.ctx = a.ctx.Assume(Eq(ref, s.ref))
			}
			cp(a, ref, Add(s.off, Scale(sz, s.n)))
			sts = append(sts, a)
			vals = append(vals, one(SliceV{ref, s.off, n, s.c}))
		}
	}
	if fits != True {
		b := st
		b.ctx = b.ctx.Guard(Not(fits))
		if !b.ctx.dead {
			r := ex.newRef()
			save := b.log
			for _, key := range allKeys(et) {
				b.fill(key, r, keyZero(key))
			}
			ex.copyElems(b, et, r, I(0), s.ref, s.off, b.ctx.Simp(s.n))
			cp(b, r, Scale(sz, s.n))
			b.log = save
			c := Var(freshName("cap"), bi0, maxLen)
			b.ctx = b.ctx.Assume(Ge(c, n))
			sts = append(sts, b)
			vals = append(vals, one(SliceV{r, I(0), n, c}))
		}
	}
	m, v := mergeStates(sts, vals)
	return m, v
}

// ---------- intrinsics (package vspec) ----------

func (ex *Exec) conOf(fr *Frame) *Frame {
	for f := fr; f != nil; f = f.caller {
		if f.con != nil {
			return f
		}
	}
	return nil
}

func (ex *Exec) callClosure(fr *Frame, st *State, f Value, args []Value, pos token.Pos) (*State, []Value) {
	return ex.callValue(fr, st, f.(FuncV), args, pos, nil)
}

// pure evaluates a boolean closure on args without effects.
func (ex *Exec) pureBool(fr *Frame, st *State, f Value, args []Value, pos token.Pos) *Term {
	ex.spec++
	ex.inPure++
	defer func() { ex.spec--; ex.inPure-- }()
	sv := ex.catch
	ex.catch = nil
	ctr := ex.refCtr
	s := st.clone()
	n, v := ex.callClosure(fr, s, f, args, pos)
	ex.refCtr = ctr
	ex.catch = sv
	if n == nil {
		return True
	}
	return v[0].(*Term)
}

func (ex *Exec) quant(fr *Frame, st *State, lo, hi *Term, f Value, pos token.Pos) *Term {
	lo, hi = st.ctx.Simp(lo), st.ctx.Simp(hi)
	if lo.isConst() && hi.isConst() {
		d := new(big.Int).Sub(hi.k, lo.k)
		if d.Sign() <= 0 {
			return True
		}
		if d.Cmp(big.NewInt(80)) <= 0 {
			r := True
			for i := lo.k.Int64(); i < hi.k.Int64(); i++ {
				r = And(r, ex.pureBool(fr, st, f, []Value{I(i)}, pos))
			}
			return r
		}
	}
	v := qfresh()
	s := st.clone()
	s.ctx = s.ctx.Guard(And(Ge(v, lo), Lt(v, hi)))
	if s.ctx.dead {
		return True
	}
	body := ex.pureBool(fr, s, f, []Value{v}, pos)
	return closeForall(v, Implies(And(Ge(v, lo), Lt(v, hi)), body))
}

func (ex *Exec) variadic(st *State, v Value) []Value {
	s := v.(SliceV)
	n, ok := constInt(s.n)
	if !ok {
		unsupported("variable number of variadic arguments")
	}
	it := types.NewInterfaceType(nil, nil)
	var r []Value
	for i := int64(0); i < n; i++ {
		r = append(r, st.load(it, s.ref, Add(s.off, I(i))))
	}
	return r
}

func (ex *Exec) unbox(st *State, v Value) (types.Type, Value) {
	iv := v.(IfaceV)
	k, ok := constInt(iv.typ)
	if !ok {
		unsupported("interface of unknown type in specification")
	}
	if k == 0 {
		return nil, nil
	}
	t := ex.typeList[k]
	return t, st.load(t, iv.box, boxOff)
}

type flatCell struct {
	key string
	off int64
}

func flatCells(t types.Type) []flatCell {
	if ks := leafKeys(t); ks != nil {
		var r []flatCell
		for _, k := range ks {
			r = append(r, flatCell{k, 0})
		}
		return r
	}
	var r []flatCell
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			o := fieldOff(u, i)
			for _, c := range flatCells(u.Field(i).Type()) {
				r = append(r, flatCell{c.key, c.off + o})
			}
		}
	case *types.Array:
		sz := slots(u.Elem())
		for i := int64(0); i < u.Len(); i++ {
			for _, c := range flatCells(u.Elem()) {
				r = append(r, flatCell{c.key, c.off + i*sz})
			}
		}
	}
	return r
}

func (ex *Exec) modRegions(st *State, v Value) []modRegion {
	t, x := ex.unbox(st, v)
	var r []modRegion
	switch y := x.(type) {
	case PtrV:
		et := derefType(t)
		if leafKeys(et) == nil && slots(et) > 1 {
			// contiguous region per key
			for _, k := range allKeys(et) {
				r = append(r, modRegion{key: k, ref: y.ref, lo: y.off, n: I(slots(et))})
			}
			return r
		}
		for _, c := range flatCells(et) {
			r = append(r, modRegion{key: c.key, ref: y.ref, lo: Add(y.off, I(c.off)), n: I(1)})
		}
	case SliceV:
		et := t.Underlying().(*types.Slice).Elem()
		for _, k := range allKeys(et) {
			r = append(r, modRegion{key: k, ref: y.ref, lo: y.off, n: Scale(big.NewInt(slots(et)), y.n)})
		}
	case RefV:
		if mt, ok := t.Underlying().(*types.Map); ok {
			pre := mapPrefix(mt)
			r = append(r, modRegion{key: pre + ".has", ref: y.ref})
			for i, lk := range leafKeysFlat(mt.Elem()) {
				r = append(r, modRegion{key: fmt.Sprintf("%s.%d.%s", pre, i, lk), ref: y.ref})
			}
		}
	default:
		unsupported("Modifies of %T", x)
	}
	return r
}

func strLit(v Value) string {
	s, ok := v.(StrV).lit()
	if !ok {
		return "?"
	}
	return s
}

func (ex *Exec) intrinsic(fr *Frame, st *State, fn *ssa.Function, name string, args []Value, pos token.Pos) (*State, []Value) {
	cf := ex.conOf(fr)
	var con *contractRun
	if cf != nil {
		con = cf.con
	}
	switch name {
	case "Requires":
		c := st.ctx.Simp(args[0].(*Term))
		if con != nil && con.assume && con.outerSpec == 0 {
			sv := ex.spec
			ex.spec = con.outerSpec
			if c != True {
				if len(ex.catch) > 0 {
					// a violated precondition under a panic observer is still an obligation
				}
				if ex.quiet == 0 {
					ex.addObl(&Obl{name: con.prefix + "precondition", kind: "requires", ctx: st.ctx, goal: c, pos: pos, run: ex.curRun}, fr)
				}
			}
			ex.spec = sv
		}
		st.ctx = st.ctx.Assume(c)
		if st.ctx.dead {
			return nil, nil
		}
		return st, nil
	case "Ensures":
		c := st.ctx.Simp(args[1].(*Term))
		if con != nil && con.assume {
			st.ctx = st.ctx.Assume(c)
			if con.c.flags["def"] && con.hv != "" {
				defineCells(st, c, con.hv)
				if os_debug {
					fmt.Fprintln(os2, "define", con.hv, trunc(c.String(), 2000), c.op)
				}
			}
			return st, nil
		}
		if ex.quiet == 0 {
			ex.addObl(&Obl{name: con.prefix + strLit(args[0]), kind: "ensures", ctx: st.ctx, goal: c, pos: pos, run: ex.curRun}, cf)
		}
		return st, nil
	case "Lemma": // proved, then assumed
		if ex.inPure > 0 {
			return st, nil
		}
		c := st.ctx.Simp(args[1].(*Term))
		if con != nil && con.assume {
			return st, nil
		}
		if ex.quiet == 0 && c != True {
			ex.addObl(&Obl{name: con.prefix + strLit(args[0]), kind: "lemma", ctx: st.ctx, goal: c, pos: pos, run: ex.curRun}, cf)
		}
		st.ctx = st.ctx.Assume(c)
		return st, nil
	case "ForallLemma": // proved for an arbitrary i (with the lemmas stated on the way), then assumed for all
		if con != nil && con.assume || ex.inPure > 0 {
			return st, nil
		}
		lo, hi := st.ctx.Simp(args[1].(*Term)), st.ctx.Simp(args[2].(*Term))
		k := Var(freshName("any"), nil, nil)
		s2 := st.clone()
		s2.ctx = s2.ctx.Assume(And(Ge(k, lo), Lt(k, hi)))
		if !s2.ctx.dead {
			ex.spec++
			sv, ctr := ex.catch, ex.refCtr
			ex.catch = nil
			n, v := ex.callClosure(fr, s2, args[3], []Value{k}, pos)
			ex.refCtr, ex.catch = ctr, sv
			ex.spec--
			if n != nil {
				c := n.ctx.Simp(v[0].(*Term))
				if ex.quiet == 0 && c != True {
					ex.addObl(&Obl{name: con.prefix + strLit(args[0]), kind: "lemma", ctx: n.ctx, goal: c, pos: pos, run: ex.curRun}, cf)
				}
			}
			st.ctx = st.ctx.Assume(ex.quant(fr, st, lo, hi, args[3], pos))
		}
		return st, nil
	case "Result": // records the results of the target for callers
		return st, nil
	case "Forall":
		return st, one(ex.quant(fr, st, args[0].(*Term), args[1].(*Term), args[2], pos))
	case "Exists":
		f := args[2]
		lo, hi := st.ctx.Simp(args[0].(*Term)), st.ctx.Simp(args[1].(*Term))
		if lo.isConst() && hi.isConst() {
			d := new(big.Int).Sub(hi.k, lo.k)
			if d.Sign() <= 0 {
				return st, one(False)
			}
			if d.Cmp(big.NewInt(80)) <= 0 {
				r := False
				for i := lo.k.Int64(); i < hi.k.Int64(); i++ {
					r = Or(r, ex.pureBool(fr, st, f, []Value{I(i)}, pos))
				}
				return st, one(r)
			}
		}
		v := qfresh()
		s := st.clone()
		s.ctx = s.ctx.Guard(And(Ge(v, lo), Lt(v, hi)))
		if s.ctx.dead {
			return st, one(False)
		}
		body := ex.pureBool(fr, s, f, []Value{v}, pos)
		return st, one(Not(closeForall(v, Implies(And(Ge(v, lo), Lt(v, hi)), Not(body)))))
	case "Modifies":
		for _, a := range ex.variadic(st, args[0]) {
			con.mods = append(con.mods, ex.modRegions(st, a)...)
		}
		return st, nil
	case "Fresh":
		_, x := ex.unbox(st, args[0])
		var ref *Term
		switch y := x.(type) {
		case PtrV:
			ref = y.ref
		case SliceV:
			ref = y.ref
		default:
			unsupported("Fresh of %T", x)
		}
		return st, one(Gt(ref, I(con.preCtr)))
	case "Disjoint":
		return st, one(ex.disjoint(st, args[0], args[1]))
	case "Separate": // different allocations
		_, x := ex.unbox(st, args[0])
		_, y := ex.unbox(st, args[1])
		a, b := st.ctx.Simp(refOff(x).ref), st.ctx.Simp(refOff(y).ref)
		if st.ctx.Simp(Eq(a, I(0))) == False || st.ctx.Simp(Eq(b, I(0))) == False {
			return st, one(Not(Eq(a, b)))
		}
		return st, one(Or(Not(Eq(a, b)), Eq(a, I(0))))
	case "SameMem":
		_, x := ex.unbox(st, args[0])
		_, y := ex.unbox(st, args[1])
		a, b := refOff(x), refOff(y)
		return st, one(And(Eq(a.ref, b.ref), Eq(a.off, b.off)))
	case "Panics":
		c := &catcher{}
		ex.catch = append(ex.catch, c)
		sv := ex.spec
		ex.spec = 0
		s := st.clone()
		n, _ := ex.callClosure(fr, s, args[0], nil, pos)
		ex.spec = sv
		ex.catch = ex.catch[:len(ex.catch)-1]
		var sts []*State
		var vals [][]Value
		if n != nil {
			sts = append(sts, n)
			vals = append(vals, one(False))
		}
		for _, p := range c.states {
			q := p.clone()
			q.defs, q.regs = st.defs, st.regs
			sts = append(sts, q)
			vals = append(vals, one(True))
		}
		m, v := mergeStates(sts, vals)
		if m == nil {
			return nil, nil
		}
		m.defs, m.regs = st.defs, st.regs
		return m, v
	case "Split":
		x := st.ctx.Simp(args[0].(*Term))
		if con != nil && con.assume {
			return st, one(x)
		}
		lo, ok1 := constInt(args[1].(*Term))
		hi, ok2 := constInt(args[2].(*Term))
		if !ok1 || !ok2 {
			unsupported("Split bounds")
		}
		return ex.doSplit(st, x, lo, hi)
	case "SplitBool":
		x := st.ctx.Simp(args[0].(*Term))
		if con != nil && con.assume || x == True || x == False {
			return st, one(x)
		}
		n, v := ex.doSplit(st, Ite(x, I(1), I(0)), 0, 1)
		if n == nil {
			return nil, nil
		}
		return n, one(B(v[0].(*Term).isC(1)))
	case "Gen":
		return st, one(True)
	case "Hint":
		for _, a := range ex.variadic(st, args[0]) {
			_, v := ex.unbox(st, a)
			ex.hints = append(ex.hints, comps(v)...)
		}
		return st, nil
	case "Distinct", "IndexIn":
		sl := args[0].(SliceV)
		n, isk := constInt(st.ctx.Simp(sl.n))
		ref, off := st.ctx.Simp(sl.ref), st.ctx.Simp(sl.off)
		if !isk || n > 1<<16 || !ref.isConst() || ref.k.Sign() >= 0 || !off.isConst() {
			unsupported("%s of a list that is not a table", name)
		}
		word := func(i *Term) StrV { return st.load(types.Typ[types.String], ref, Add(off, i)).(StrV) }
		if name == "IndexIn" {
			if !strIDs {
				unsupported("IndexIn without strids")
			}
			t := App("idxin", ref, off, I(n), strID(args[1].(StrV)))
			if unfolders["idxin"] == nil {
				unfolders["idxin"] = func(app *Term) []*Term {
					w := idxinWord(app.args[0], app.args[1], app)
					return []*Term{Lt(app, app.args[2]), Implies(Ge(app, I(0)), Eq(w, app.args[3]))}
				}
			}
			idxinWord = func(ref, off, i *Term) *Term {
				return strID(st.load(types.Typ[types.String], ref, Add(off, i)).(StrV))
			}
			return st, one(t)
		}
		seen := map[string]bool{}
		for i := int64(0); i < n; i++ {
			l, ok := word(I(i)).lit()
			if !ok {
				unsupported("Distinct of unknown words")
			}
			if seen[l] {
				return st, one(False)
			}
			seen[l] = true
		}
		if strIDs {
			q := qfresh()
			st.ctx = st.ctx.Assume(closeForall(q, Implies(And(Ge(q, I(0)), Lt(q, I(n))), Eq(App("idxin", ref, off, I(n), strID(word(q))), q))))
		}
		return st, one(True)
	case "ByteAtEntry":
		if ex.entry == nil {
			unsupported("ByteAtEntry outside a loop invariant")
		}
		x := args[0].(SliceV)
		return st, one(ex.entry.load(types.Typ[types.Uint8], x.ref, Add(x.off, args[1].(*Term))))
	case "BigByte":
		p := args[0].(PtrV)
		x := st.load(bigIntNamed, p.ref, p.off).(*Term)
		return st, one(bigByte(x, args[1].(*Term)))
	case "All", "Any":
		x := args[0].(SliceV)
		n, ok := constInt(st.ctx.Simp(x.n))
		if !ok {
			unsupported("%s of an unknown number of conditions", fn.Name())
		}
		var r []*Term
		for i := int64(0); i < n; i++ {
			r = append(r, st.load(types.Typ[types.Bool], x.ref, Add(x.off, I(i))).(*Term))
		}
		if fn.Name() == "All" {
			return st, one(And(r...))
		}
		return st, one(Or(r...))
	case "BigExt": // numbers with the same digits are equal
		ld := func(v Value) *Term {
			p := v.(PtrV)
			return st.ctx.Simp(absT(st.load(bigIntNamed, p.ref, p.off).(*Term)))
		}
		a, b := ld(args[0]), ld(args[1])
		j := Var(freshName("digit"), bi0, nil)
		st.ctx = st.ctx.Assume(Or(Eq(a, b), And(Or(Lt(j, byteCount(a)), Lt(j, byteCount(b))), Not(Eq(bigByte(a, j), bigByte(b, j))))))
		return st, nil
	case "Prime":
		p := args[0].(PtrV)
		x := st.load(bigIntNamed, p.ref, p.off).(*Term)
		return st, one(And(Gt(x, I(1)), AppB("prime", x)))
	case "BigRest":
		p := args[0].(PtrV)
		x := st.load(bigIntNamed, p.ref, p.off).(*Term)
		r := ex.newRef()
		sv := st.log
		st.wr("big", r, I(0), App("bigdrop", st.ctx.Simp(absT(x)), args[1].(*Term)))
		st.log = sv
		return st, one(PtrV{r, I(0)})
	case "MulPowMod":
		ld := func(v Value) *Term { p := v.(PtrV); return st.ctx.Simp(st.load(bigIntNamed, p.ref, p.off).(*Term)) }
		r := ex.newRef()
		sv := st.log
		v := withCtx(st.ctx, func() *Term { return Mod(Mul(ld(args[0]), IPow(ld(args[1]), ld(args[2]))), ld(args[3])) })
		st.wr("big", r, I(0), v)
		st.log = sv
		return st, one(PtrV{r, I(0)})
	case "BigDigits":
		unsupported("BigDigits")
	case "Locked":
		_, x := ex.unbox(st, args[0])
		p := x.(PtrV)
		k := leafKeys(derefType(ex.typeOfBox(args[0])))
		return st, one(Eq(st.sel(k[0], p.ref, p.off), I(1)))
	case "Len2":
	}
	unsupported("vspec.%s", name)
	return nil, nil
}

func (ex *Exec) typeOfBox(v Value) types.Type {
	k, _ := constInt(v.(IfaceV).typ)
	return ex.typeList[k]
}

func refOff(v Value) PtrV {
	switch y := v.(type) {
	case PtrV:
		return y
	case SliceV:
		return PtrV{y.ref, y.off}
	case StrV:
		return PtrV{y.sid, y.off}
	}
	unsupported("address of %T", v)
	return PtrV{}
}

func (ex *Exec) disjoint(st *State, a, b Value) *Term {
	ra, rb := ex.modRegions(st, a), ex.modRegions(st, b)
	r := True
	for _, x := range ra {
		for _, y := range rb {
			if x.key != y.key {
				continue
			}
			c := Not(Eq(x.ref, y.ref))
			if x.n != nil && y.n != nil {
				c = Or(c, Le(Add(x.lo, x.n), y.lo), Le(Add(y.lo, y.n), x.lo))
			}
			r = And(r, c)
		}
	}
	return r
}

// doSplit performs a case split on the value of x: one symbolic run per value.
func (ex *Exec) doSplit(st *State, x *Term, lo, hi int64) (*State, []Value) {
	if x.isConst() {
		return st, one(x)
	}
	p := ex.splitPos
	ex.splitPos++
	if p >= len(ex.split) {
		panic(&splitReq{lo: lo, hi: hi, cond: x})
	}
	k := ex.split[p]
	if k > int(hi) {
		st.ctx = st.ctx.Guard(Or(Lt(x, I(lo)), Gt(x, I(hi))))
		if st.ctx.dead || ex.infeasible(st.ctx) {
			return nil, nil
		}
		return st, one(st.ctx.Simp(x))
	}
	st.ctx = st.ctx.Guard(Eq(x, I(int64(k))))
	if st.ctx.dead {
		return nil, nil
	}
	return st, one(I(int64(k)))
}

// idxinWord numbers the text of entry i of a table.
var idxinWord func(ref, off, i *Term) *Term

// defineCells writes down the values of unknown memory cells which c, a fact, equates with something.
func defineCells(st *State, c *Term, prefix string) {
	if c.op == OAnd {
		for _, x := range c.args {
			defineCells(st, x, prefix)
		}
		return
	}
	if a, v := solveCell(c, prefix); a != nil {
		st.wr(strings.TrimPrefix(a.name, prefix), a.args[0], a.args[1], v)
	}
}

// solveCell solves an equation for a memory cell with the prefix.
func solveCell(c *Term, prefix string) (cell, val *Term) {
	if c.op != OEq {
		return nil, nil
	}
	k, as, co := linParts(c.args[0])
	for i, a := range as {
		if a.op != OApp || !strings.HasPrefix(a.name, prefix) || len(a.args) != 2 || new(big.Int).Abs(co[i]).Cmp(bi1) != 0 {
			continue
		}
		rest := newAcc()
		rest.k = k
		ok := true
		for j := range as {
			if j != i {
				rest.add(co[j], as[j])
				ok = ok && !occurs(as[j], a)
			}
		}
		if !ok {
			continue
		}
		v := rest.term()
		if co[i].Sign() > 0 {
			v = Neg(v)
		}
		return a, v
	}
	return nil, nil
}
