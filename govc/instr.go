package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---------- registers ----------

func (ex *Exec) get(fr *Frame, st *State, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constVal(x)
	case *ssa.Global:
		return PtrV{I(ex.globalRef(x)), I(0)}
	case *ssa.Function:
		return ex.funcVal(x, nil)
	case *ssa.Parameter:
		for i, p := range fr.fn.Params {
			if p == x {
				return fr.args[i]
			}
		}
	case *ssa.FreeVar:
		for i, p := range fr.fn.FreeVars {
			if p == x {
				return fr.free[i]
			}
		}
	case *ssa.Builtin:
		return nil
	}
	if len(st.regs) > 0 {
		if r, ok := st.regs[v]; ok {
			return r
		}
	}
	r, ok := fr.regs[v]
	if !ok {
		unsupported("undefined value %s in %s", v.Name(), fr.fn)
	}
	return r
}

func (ex *Exec) set(fr *Frame, st *State, v ssa.Value, val Value) {
	if len(st.regs) > 0 {
		if _, ok := st.regs[v]; ok {
			m := make(map[interface{}]Value, len(st.regs))
			for k, y := range st.regs {
				if k != interface{}(v) {
					m[k] = y
				}
			}
			st.regs = m
		}
	}
	fr.regs[v] = mapVal(val, st.ctx.Simp)
}

func (ex *Exec) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return ex.zeroVal(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return B(constant.BoolVal(c.Value))
		case u.Info()&types.IsString != 0:
			return litString(constant.StringVal(c.Value))
		case u.Info()&types.IsInteger != 0:
			v := constant.ToInt(c.Value)
			n, ok := new(big.Int).SetString(v.ExactString(), 10)
			if !ok {
				unsupported("constant %s", c)
			}
			return Num(n)
		case u.Info()&types.IsFloat != 0:
			if constant.Sign(c.Value) == 0 {
				return I(0)
			}
			return App("float." + c.Value.ExactString())
		}
	case *types.TypeParam:
	}
	unsupported("constant %s", c)
	return nil
}

func (ex *Exec) zeroVal(t types.Type) Value {
	if ks := leafKeys(t); ks != nil {
		c := make([]*Term, len(ks))
		for i, k := range ks {
			c[i] = keyZero(k)
		}
		return fromComps(t, c)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		r := StructV{}
		for i := 0; i < u.NumFields(); i++ {
			r.f = append(r.f, ex.zeroVal(u.Field(i).Type()))
		}
		return r
	case *types.Array:
		r := ArrayV{}
		if u.Len() > 5000 {
			unsupported("large array value")
		}
		for i := int64(0); i < u.Len(); i++ {
			r.e = append(r.e, ex.zeroVal(u.Elem()))
		}
		return r
	case *types.Tuple:
		r := TupleV{}
		for i := 0; i < u.Len(); i++ {
			r.e = append(r.e, ex.zeroVal(u.At(i).Type()))
		}
		return r
	}
	unsupported("zero value of %s", t)
	return nil
}

func (ex *Exec) allocObj(st *State, t types.Type) PtrV {
	r := ex.newRef()
	for _, k := range allKeys(t) {
		st.fill(k, r, keyZero(k))
	}
	return PtrV{r, I(0)}
}

// ---------- safety ----------

func (ex *Exec) check(fr *Frame, st *State, cond *Term, what string, pos token.Pos) {
	if st.ctx.dead {
		return
	}
	cond = st.ctx.Simp(cond)
	if cond == True {
		return
	}
	if ex.spec > 0 {
		return
	}
	if len(ex.catch) > 0 {
		if cond != False && ex.decide(st.ctx, cond) {
			st.ctx = st.ctx.Assume(cond)
			return
		}
		ps := st.clone()
		ps.ctx = ps.ctx.Guard(Not(cond))
		if !ps.ctx.dead {
			c := ex.catch[len(ex.catch)-1]
			c.states = append(c.states, ps)
		}
		st.ctx = st.ctx.Guard(cond)
		return
	}
	if ex.quiet == 0 {
		ex.addObl(&Obl{name: what, kind: "safety", ctx: st.ctx, goal: cond, pos: pos, run: ex.curRun}, fr)
	}
	st.ctx = st.ctx.Assume(cond)
}

func (ex *Exec) addObl(o *Obl, fr *Frame) {
	if o.pos == token.NoPos && fr != nil {
		o.pos = fr.fn.Pos()
	}
	if fr != nil {
		o.fn = fr.fn.String()
	}
	ex.obls = append(ex.obls, o)
}

func (ex *Exec) nilCheck(fr *Frame, st *State, ref *Term, pos token.Pos) {
	if ref.isConst() && ref.k.Sign() != 0 {
		return
	}
	ex.check(fr, st, Not(Eq(ref, I(0))), "no nil dereference", pos)
}

// ---------- integers ----------

func intInfo(t types.Type) (bits int, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsFloat|types.IsComplex) != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func intRange(bits int, signed bool) (lo, hi *big.Int) {
	if signed {
		return new(big.Int).Neg(pow2(bits - 1)), new(big.Int).Sub(pow2(bits-1), bi1)
	}
	return bi0, new(big.Int).Sub(pow2(bits), bi1)
}

func (ex *Exec) wrap(st *State, t *Term, bits int, signed, solver bool) *Term {
	t = st.ctx.Simp(t)
	lo, hi := intRange(bits, signed)
	l, h := st.ctx.Rng(t)
	lok := l != nil && l.Cmp(lo) >= 0
	hok := h != nil && h.Cmp(hi) <= 0
	if lok && hok {
		return t
	}
	if solver && !st.ctx.dead {
		g := True
		if !lok {
			g = And(g, Ge(t, Num(lo)))
		}
		if !hok {
			g = And(g, Le(t, Num(hi)))
		}
		if ex.decideTO(st.ctx, g, time.Second) {
			st.ctx = st.ctx.Assume(g)
			return t
		}
	}
	if signed {
		return Sub(Mod(Add(t, Num(pow2(bits-1))), Num(pow2(bits))), Num(pow2(bits-1)))
	}
	return Mod(t, Num(pow2(bits)))
}

// toU converts a signed value to its unsigned bit pattern.
// disjointBits proves from the path that one operand is a multiple of 2^k and
// the other is below 2^k.
func (ex *Exec) disjointBits(st *State, a, b *Term, bits int) bool {
	a, b = st.ctx.Simp(toU(st, a, bits)), st.ctx.Simp(toU(st, b, bits))
	if a.isConst() || b.isConst() {
		return false
	}
	sa, ok1 := support(a)
	sb, ok2 := support(b)
	if !ok1 || !ok2 || new(big.Int).And(sa, sb).Sign() == 0 {
		return false
	}
	for i := 0; i < 2; i++ {
		k := sa.TrailingZeroBits()
		if sa.Sign() != 0 && k > 0 {
			if _, hi := st.ctx.Rng(b); hi != nil && hi.BitLen() <= int(k) {
				return true
			}
			if b.op != OXor && st.ctx.speaksOf(b) && ex.decideTO(st.ctx, Lt(b, Num(pow2(int(k)))), time.Second) {
				return true
			}
		}
		a, b, sa, sb = b, a, sb, sa
	}
	return false
}

func toU(st *State, t *Term, bits int) *Term {
	if l, _ := st.ctx.Rng(t); l != nil && l.Sign() >= 0 {
		return t
	}
	return st.ctx.Simp(Mod(t, Num(pow2(bits))))
}
func fromU(t *Term, bits int, signed bool) *Term {
	if !signed {
		return t
	}
	if t.hi != nil && t.hi.Cmp(pow2(bits-1)) < 0 {
		return t
	}
	return Ite(Ge(t, Num(pow2(bits-1))), Sub(t, Num(pow2(bits))), t)
}

func constInt(t *Term) (int64, bool) {
	if t.isConst() && t.k.IsInt64() {
		return t.k.Int64(), true
	}
	return 0, false
}

func (ex *Exec) shiftAmounts(st *State, y *Term, max int64) (lo, hi int64) {
	l, h := st.ctx.Rng(y)
	lo, hi = 0, max
	if l != nil && l.IsInt64() && l.Int64() > 0 {
		lo = l.Int64()
	}
	if h != nil && h.IsInt64() && h.Int64() < max {
		hi = h.Int64()
	}
	if lo > hi {
		lo = hi
	}
	return
}

func (ex *Exec) binop(fr *Frame, st *State, op token.Token, t types.Type, xt types.Type, yt types.Type, x, y Value, pos token.Pos) Value {
	switch op {
	case token.EQL:
		return ex.eqVal(st, xt, yt, x, y)
	case token.NEQ:
		return Not(ex.eqVal(st, xt, yt, x, y))
	}
	if isString(xt) {
		a, b := x.(StrV), y.(StrV)
		switch op {
		case token.ADD:
			return concat(st, a, b)
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			return ex.strCmp(st, op, a, b)
		}
	}
	if isFloat(xt) {
		a, b := x.(*Term), y.(*Term)
		switch op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			return AppB("float."+op.String(), a, b)
		}
		return App("float."+op.String(), a, b)
	}
	a, b := x.(*Term), y.(*Term)
	if a.isBool {
		switch op {
		case token.AND, token.LAND:
			return And(a, b)
		case token.OR, token.LOR:
			return Or(a, b)
		}
	}
	bits, signed, ok := intInfo(xt)
	if !ok {
		unsupported("binop %s on %s", op, xt)
	}
	switch op {
	case token.LSS:
		return Lt(a, b)
	case token.LEQ:
		return Le(a, b)
	case token.GTR:
		return Gt(a, b)
	case token.GEQ:
		return Ge(a, b)
	case token.ADD:
		return ex.wrap(st, Add(a, b), bits, signed, bits == 64)
	case token.SUB:
		return ex.wrap(st, Sub(a, b), bits, signed, bits == 64)
	case token.MUL:
		return ex.wrap(st, Mul(a, b), bits, signed, false)
	case token.QUO, token.REM:
		ex.check(fr, st, Not(Eq(b, I(0))), "no division by zero", pos)
		la, _ := st.ctx.Rng(a)
		lb, _ := st.ctx.Rng(b)
		if la != nil && la.Sign() >= 0 && lb != nil && lb.Sign() >= 0 {
			if op == token.QUO {
				return st.ctx.Simp(Div(a, b))
			}
			return st.ctx.Simp(Mod(a, b))
		}
		if b.isConst() && b.k.Sign() > 0 {
			// truncated division
			q := Ite(Ge(a, I(0)), Div(a, b), Neg(Div(Neg(a), b)))
			if op == token.QUO {
				return st.ctx.Simp(q)
			}
			return st.ctx.Simp(Ite(Ge(a, I(0)), Mod(a, b), Neg(Mod(Neg(a), b))))
		}
		aa := Ite(Ge(a, I(0)), a, Neg(a))
		ab := Ite(Ge(b, I(0)), b, Neg(b))
		q := Div(aa, ab)
		q = Ite(Iff(Ge(a, I(0)), Ge(b, I(0))), q, Neg(q))
		if op == token.QUO {
			return ex.wrap(st, q, bits, signed, false)
		}
		m := Mod(aa, ab)
		return st.ctx.Simp(Ite(Ge(a, I(0)), m, Neg(m)))
	case token.AND:
		if ex.disjointBits(st, a, b, bits) {
			return I(0)
		}
		return fromU(st.ctx.Simp(Band(toU(st, a, bits), toU(st, b, bits))), bits, signed)
	case token.OR:
		if ex.disjointBits(st, a, b, bits) {
			return fromU(Add(toU(st, a, bits), toU(st, b, bits)), bits, signed)
		}
		return fromU(st.ctx.Simp(Bor(toU(st, a, bits), toU(st, b, bits))), bits, signed)
	case token.XOR:
		if ex.disjointBits(st, a, b, bits) {
			return fromU(Add(toU(st, a, bits), toU(st, b, bits)), bits, signed)
		}
		return fromU(st.ctx.Simp(Xor(toU(st, a, bits), toU(st, b, bits))), bits, signed)
	case token.AND_NOT:
		m := Num(new(big.Int).Sub(pow2(bits), bi1))
		ub := toU(st, b, bits)
		return fromU(st.ctx.Simp(Band(toU(st, a, bits), Sub(m, ub))), bits, signed)
	case token.SHL:
		if _, ysigned, _ := intInfo(yt); ysigned {
			ex.check(fr, st, Ge(b, I(0)), "no negative shift", pos)
		}
		if k, ok := constInt(b); ok {
			if k >= int64(bits) {
				return I(0)
			}
			return ex.wrap(st, Scale(pow2(int(k)), a), bits, signed, false)
		}
		lo, hi := ex.shiftAmounts(st, b, int64(bits))
		r := I(0)
		for k := hi; k >= lo; k-- {
			v := I(0)
			if k < int64(bits) {
				v = ex.wrap(st, Scale(pow2(int(k)), a), bits, signed, false)
			}
			if k == hi {
				r = v
			} else {
				r = Ite(Le(b, I(k)), v, r)
			}
		}
		return r
	case token.SHR:
		if _, ysigned, _ := intInfo(yt); ysigned {
			ex.check(fr, st, Ge(b, I(0)), "no negative shift", pos)
		}
		sh := func(k int64) *Term {
			if k >= int64(bits) {
				k = int64(bits)
				if !signed {
					return I(0)
				}
			}
			return st.ctx.Simp(Div(a, Num(pow2(int(k)))))
		}
		if b.isConst() {
			if !b.k.IsInt64() {
				return sh(int64(bits))
			}
			return sh(b.k.Int64())
		}
		lo, hi := ex.shiftAmounts(st, b, int64(bits))
		r := sh(hi)
		for k := hi - 1; k >= lo; k-- {
			r = Ite(Le(b, I(k)), sh(k), r)
		}
		return r
	}
	unsupported("binop %s", op)
	return nil
}

// ---------- equality ----------

func strEq(a, b StrV) *Term {
	if a.sid == b.sid && a.off == b.off {
		return Eq(a.n, b.n)
	}
	ln := Eq(a.n, b.n)
	if ln == False {
		return False
	}
	n := a.n
	if !n.isConst() {
		n = b.n
	}
	if n.isConst() && n.k.IsInt64() && n.k.Int64() <= 256 {
		r := ln
		for i := int64(0); i < n.k.Int64() && r != False; i++ {
			r = And(r, Eq(a.at(I(i)), b.at(I(i))))
		}
		return r
	}
	if strIDs {
		return Eq(strID(a), strID(b))
	}
	k := qfresh()
	return And(ln, closeForall(k, Implies(And(Ge(k, I(0)), Lt(k, a.n)), Eq(a.at(k), b.at(k)))))
}

// strIDs: strings of unknown length are compared through an uninterpreted
// injective numbering of texts (flag strids of a contract).
var strIDs bool

func strID(a StrV) *Term { return App("text", a.sid, a.off, a.n) }

var qctr int

// qfresh returns a fresh variable to be quantified by closeForall.
func qfresh() *Term {
	qctr++
	return Var(fmt.Sprintf("?q%d", qctr), nil, nil)
}

// closeForall quantifies over v (an ordinary variable made by qfresh).
func closeForall(v, body *Term) *Term {
	if !occurs(body, v) {
		return body
	}
	if body.op == OAnd {
		var as []*Term
		for _, a := range body.args {
			as = append(as, closeForall(v, a))
		}
		return And(as...)
	}
	idx := maxInner(body)
	bv := BoundVar(idx)
	return Forall(bv, Subst(body, map[*Term]*Term{v: bv}))
}

// maxInner: smallest index not used by quantifiers inside t.
func maxInner(t *Term) int {
	m := 0
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || !t.hasQ {
			return
		}
		seen[t] = true
		if t.op == OForall {
			if t.args[0].mb > m {
				m = t.args[0].mb
			}
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
	return m
}

func (ex *Exec) isNilVal(v Value) *Term {
	switch x := v.(type) {
	case PtrV:
		return Eq(x.ref, I(0))
	case SliceV:
		return Eq(x.ref, I(0))
	case IfaceV:
		return Eq(x.typ, I(0))
	case FuncV:
		return Eq(x.id, I(0))
	case RefV:
		return Eq(x.ref, I(0))
	}
	unsupported("nil comparison of %T", v)
	return nil
}

func isZeroConst(v Value) bool {
	switch x := v.(type) {
	case PtrV:
		return x.ref.isC(0)
	case SliceV:
		return x.ref.isC(0)
	case IfaceV:
		return x.typ.isC(0)
	case FuncV:
		return x.id.isC(0)
	case RefV:
		return x.ref.isC(0)
	}
	return false
}

func (ex *Exec) eqVal(st *State, xt, yt types.Type, x, y Value) *Term {
	_, xi := xt.Underlying().(*types.Interface)
	_, yi := yt.Underlying().(*types.Interface)
	if xi && !yi {
		y = ex.makeIface(st, yt, y)
	}
	if yi && !xi {
		x = ex.makeIface(st, xt, x)
	}
	return ex.eqSame(st, xt, x, y)
}

func (ex *Exec) eqSame(st *State, t types.Type, x, y Value) *Term {
	switch a := x.(type) {
	case *Term:
		b := y.(*Term)
		if a.isBool {
			return Iff(a, b)
		}
		if isFloat(t) {
			if a.isConst() && b.isConst() {
				return Eq(a, b)
			}
			return AppB("float.==", a, b)
		}
		return Eq(a, b)
	case StrV:
		return strEq(a, y.(StrV))
	case PtrV:
		b := y.(PtrV)
		if isZeroConst(a) {
			return ex.isNilVal(b)
		}
		if isZeroConst(b) {
			return ex.isNilVal(a)
		}
		return And(Eq(a.ref, b.ref), Or(Eq(a.off, b.off), Eq(a.ref, I(0))))
	case SliceV:
		if isZeroConst(y) {
			return ex.isNilVal(x)
		}
		return ex.isNilVal(y)
	case FuncV:
		if isZeroConst(y) {
			return ex.isNilVal(x)
		}
		return ex.isNilVal(y)
	case RefV:
		return Eq(a.ref, y.(RefV).ref)
	case IfaceV:
		return ex.eqIface(st, t, a, y.(IfaceV))
	case StructV:
		b := y.(StructV)
		u := t.Underlying().(*types.Struct)
		r := True
		for i := range a.f {
			r = And(r, ex.eqSame(st, u.Field(i).Type(), a.f[i], b.f[i]))
		}
		return r
	case ArrayV:
		b := y.(ArrayV)
		u := t.Underlying().(*types.Array)
		r := True
		for i := range a.e {
			r = And(r, ex.eqSame(st, u.Elem(), a.e[i], b.e[i]))
		}
		return r
	}
	unsupported("equality of %T", x)
	return nil
}

func (ex *Exec) eqIface(st *State, it types.Type, a, b IfaceV) *Term {
	iface, _ := it.Underlying().(*types.Interface)
	if a.typ == b.typ && a.box == b.box {
		return True
	}
	if isZeroConst(a) {
		return Eq(b.typ, I(0))
	}
	if isZeroConst(b) {
		return Eq(a.typ, I(0))
	}
	r := False
	te := st.ctx.Simp(Eq(a.typ, b.typ))
	if te == False {
		return False
	}
	// known dynamic types
	ids := map[int64]bool{}
	for _, t := range append(iteLeaves(a.typ), iteLeaves(b.typ)...) {
		if t.isConst() && t.k.Sign() > 0 {
			if iface == nil || types.Implements(ex.typeList[t.k.Int64()], iface) {
				ids[t.k.Int64()] = true
			}
		}
	}
	known := False
	for id := range ids {
		both := st.ctx.Simp(And(Eq(a.typ, I(id)), Eq(b.typ, I(id))))
		known = Or(known, Eq(a.typ, I(id)))
		if both == False {
			continue
		}
		t := ex.typeList[id]
		if !types.Comparable(t) {
			continue
		}
		r = Or(r, And(both, ex.eqSame(st, t, st.load(t, a.box, boxOff), st.load(t, b.box, boxOff))))
	}
	other := And(te, Not(known), Not(Eq(a.typ, I(0))))
	other = st.ctx.Simp(other)
	r = Or(r, And(Eq(a.typ, I(0)), Eq(b.typ, I(0))))
	if other != False {
		// comparison is symmetric
		r = Or(r, And(other, Or(Eq(a.box, b.box), AppB("iface.eq", a.typ, a.box, b.box), AppB("iface.eq", a.typ, b.box, a.box))))
	}
	return r
}

// boxOff is where the content of an interface value lies in its box: the
// content never changes, so it is kept apart from all assignable memory.
var boxOff = I(-(1 << 50))

func (ex *Exec) makeIface(st *State, t types.Type, v Value) IfaceV {
	if iv, ok := v.(IfaceV); ok {
		if _, isI := t.Underlying().(*types.Interface); isI {
			return iv
		}
	}
	id := ex.typeID(t)
	// constants and pointers get canonical boxes through allocation
	r := ex.newRef()
	save := st.log
	st.store(t, r, boxOff, v)
	st.log = save
	return IfaceV{I(id), r}
}

// ---------- strings ----------

var concatMemo = map[[6]*Term]StrV{}

func concat(st *State, a, b StrV) StrV {
	a.n, b.n = st.ctx.Simp(a.n), st.ctx.Simp(b.n)
	if a.n.isC(0) {
		return b
	}
	if b.n.isC(0) {
		return a
	}
	if la, ok := a.lit(); ok {
		if lb, ok := b.lit(); ok {
			return litString(la + lb)
		}
	}
	k := [6]*Term{a.sid, a.off, a.n, b.sid, b.off, b.n}
	if r, ok := concatMemo[k]; ok {
		return r
	}
	sid := newSeq(fnSeq{func(i *Term) *Term {
		return Ite(Lt(i, a.n), a.at(i), b.at(Sub(i, a.n)))
	}})
	r := StrV{sid, I(0), Add(a.n, b.n)}
	concatMemo[k] = r
	return r
}

func (ex *Exec) strCmp(st *State, op token.Token, a, b StrV) *Term {
	if la, ok := a.lit(); ok {
		if lb, ok := b.lit(); ok {
			switch op {
			case token.LSS:
				return B(la < lb)
			case token.LEQ:
				return B(la <= lb)
			case token.GTR:
				return B(la > lb)
			default:
				return B(la >= lb)
			}
		}
	}
	lt := func(a, b StrV) *Term {
		return AppB("str.lt", a.sid, a.off, a.n, b.sid, b.off, b.n)
	}
	switch op {
	case token.LSS:
		return lt(a, b)
	case token.GTR:
		return lt(b, a)
	case token.LEQ:
		return Or(lt(a, b), strEq(a, b))
	}
	return Or(lt(b, a), strEq(a, b))
}

type b2sKey struct {
	h   *HNode
	ref *Term
}

var b2sMemo = map[b2sKey]*Term{}

// bytesToString snapshots n bytes of memory as a string.
func bytesToString(st *State, s SliceV) StrV {
	n := st.ctx.Simp(s.n)
	if n.isC(0) {
		return litString("")
	}
	ref := st.ctx.Simp(s.ref)
	if ref.op == OIte {
		a := bytesToString(st, SliceV{ref.args[1], s.off, n, s.c})
		b := bytesToString(st, SliceV{ref.args[2], s.off, n, s.c})
		return StrV{Ite(ref.args[0], a.sid, b.sid), Ite(ref.args[0], a.off, b.off), n}
	}
	h := effective(st, st.h("uint8"), ref)
	if h.kind == hCopy && h.str != nil && h.ref == ref {
		in := And(Le(h.idx, s.off), Le(Add(s.off, n), Add(h.idx, h.n)))
		if v, ok := st.ctx.Truth(in); in == True || ok && v {
			return StrV{h.str.sid, Add(h.str.off, Sub(s.off, h.idx)), n}
		}
	}
	// one sequence per object, so that overlapping pieces share it
	k := b2sKey{h, ref}
	sid, ok := b2sMemo[k]
	if !ok {
		sid = newSeq(fnSeq{func(i *Term) *Term { return Select(h, ref, i) }})
		b2sMemo[k] = sid
	}
	return StrV{sid, s.off, n}
}

// effective skips the updates of other objects.
func effective(st *State, h *HNode, ref *Term) *HNode {
	other := func(r *Term) bool {
		e := Eq(ref, r)
		if e == False {
			return true
		}
		v, ok := st.ctx.Truth(e)
		return ok && !v
	}
	memo := map[*HNode]*HNode{}
	var eff func(h *HNode) *HNode
	eff = func(h0 *HNode) (res *HNode) {
		if r, ok := memo[h0]; ok {
			return r
		}
		defer func() { memo[h0] = res }()
		h := h0
		for {
			switch h.kind {
			case hStore, hFill, hCopy:
				if !other(h.ref) {
					return h
				}
				h = h.prev
			case hHavoc:
				if h.keep != nil {
					return h
				}
				for _, g := range h.regs {
					if g.anyRef || !other(g.ref) {
						return h
					}
				}
				h = h.prev
			case hIte:
				a, b := eff(h.a), eff(h.b)
				if a != b {
					return h
				}
				return a
			default:
				return h
			}
		}
	}
	return eff(h)
}

func (ex *Exec) stringToBytes(st *State, s StrV) SliceV {
	r := ex.newRef()
	st.fill("uint8", r, I(0))
	save := st.log
	st.copyIn("uint8", r, I(0), st.ctx.Simp(s.n), func(i *Term) *Term { return s.at(i) })
	if h := st.h("uint8"); h.kind == hCopy && h.ref == r {
		h.str = &s
	}
	st.log = save
	return SliceV{r, I(0), s.n, s.n}
}

// resolveMerged: after a branch the references which a merge of paths left
// conditional may be determined.
func (ex *Exec) resolveMerged(fr *Frame, st *State) {
	if st.ctx.dead || ex.noSolve > 0 {
		return
	}
	n := 0
	done := map[*Term]bool{}
	var visit func(v Value)
	ref := func(t *Term) {
		for n < 8 {
			t = st.ctx.Simp(t)
			if t.op != OIte || done[t.args[0]] {
				return
			}
			c := t.args[0]
			done[c] = true
			n++
			if ex.decideTO(st.ctx, Not(c), time.Second) {
				st.ctx = st.ctx.Assume(Not(c))
			} else if ex.decideTO(st.ctx, c, time.Second) {
				st.ctx = st.ctx.Assume(c)
			} else {
				return
			}
		}
	}
	visit = func(v Value) {
		switch x := v.(type) {
		case SliceV:
			ref(x.ref)
		case PtrV:
			ref(x.ref)
		case StrV:
			ref(x.sid)
		case TupleV:
			for _, e := range x.e {
				visit(e)
			}
		}
	}
	var ks []ssa.Value
	for k, v := range fr.regs {
		switch x := v.(type) {
		case SliceV:
			if x.ref.op == OIte {
				ks = append(ks, k)
			}
		case PtrV:
			if x.ref.op == OIte {
				ks = append(ks, k)
			}
		case StrV:
			if x.sid.op == OIte {
				ks = append(ks, k)
			}
		case TupleV:
			ks = append(ks, k)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].Name() < ks[j].Name() })
	for _, k := range ks {
		visit(fr.regs[k])
	}
}

// ---------- block execution ----------

func (ex *Exec) execBlock(fr *Frame, b *ssa.BasicBlock, st *State) []edge {
	for _, ins := range b.Instrs {
		ex.steps++
		if ex.steps&255 == 0 && !ex.deadline.IsZero() && time.Now().After(ex.deadline) {
			unsupported("time budget for symbolic execution exhausted")
		}
		switch x := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := st.ctx.Simp(ex.get(fr, st, x.Cond).(*Term))
			if c == True {
				return []edge{ex.mkEdge(fr, b, b.Succs[0], st)}
			}
			if c == False {
				return []edge{ex.mkEdge(fr, b, b.Succs[1], st)}
			}
			t, f := st.clone(), st
			t.ctx = t.ctx.Guard(c)
			f.ctx = f.ctx.Guard(Not(c))
			if len(c.args) > 0 && ex.spec == 0 {
				ex.resolveMerged(fr, t)
				ex.resolveMerged(fr, f)
			}
			var es []edge
			if !t.ctx.dead {
				es = append(es, ex.mkEdge(fr, b, b.Succs[0], t))
			}
			if !f.ctx.dead {
				es = append(es, ex.mkEdge(fr, b, b.Succs[1], f))
			}
			return es
		case *ssa.Jump:
			return []edge{ex.mkEdge(fr, b, b.Succs[0], st)}
		case *ssa.Return:
			var vs []Value
			for _, r := range x.Results {
				vs = append(vs, ex.get(fr, st, r))
			}
			fr.rets = append(fr.rets, st)
			fr.rvals = append(fr.rvals, vs)
			return nil
		case *ssa.Panic:
			ex.check(fr, st, False, "explicit panic is unreachable", x.Pos())
			return nil
		case *ssa.RunDefers:
			for st.defs != nil {
				d := st.defs
				st.defs = d.prev
				st = d.run(st)
				if st == nil || st.ctx.dead {
					return nil
				}
			}
		case *ssa.Defer:
			com := x.Call
			var args []Value
			var fv Value
			if com.IsInvoke() {
				fv = ex.get(fr, st, com.Value)
			} else if _, ok := com.Value.(*ssa.Builtin); !ok {
				fv = ex.get(fr, st, com.Value)
			}
			for _, a := range com.Args {
				args = append(args, ex.get(fr, st, a))
			}
			pos := x.Pos()
			st.defs = &deferList{prev: st.defs, run: func(s *State) *State {
				d := s.defs
				s.defs = nil
				n, _ := ex.doCall(fr, s, &com, fv, args, pos)
				if n != nil {
					n.defs = d
				}
				return n
			}}
		case *ssa.Go:
			ex.goStmt(fr, st, x)
		case *ssa.Store:
			p := ex.get(fr, st, x.Addr).(PtrV)
			ex.nilCheck(fr, st, p.ref, x.Pos())
			st.store(x.Val.Type(), p.ref, p.off, ex.get(fr, st, x.Val))
		case *ssa.MapUpdate:
			ex.mapUpdate(fr, st, x)
		case *ssa.Send:
			unsupported("channel send in %s", fr.fn)
		case ssa.Value:
			n, v := ex.value(fr, st, x)
			if n == nil || n.ctx.dead {
				return nil
			}
			st = n
			ex.set(fr, st, x, v)
		default:
			unsupported("instruction %T", ins)
		}
		if st.ctx.dead {
			return nil
		}
	}
	return nil
}

func (ex *Exec) goStmt(fr *Frame, st *State, x *ssa.Go) {
	unsupported("go statement in %s", fr.fn)
}

func derefType(t types.Type) types.Type {
	return t.Underlying().(*types.Pointer).Elem()
}

func (ex *Exec) value(fr *Frame, st *State, v ssa.Value) (*State, Value) {
	switch x := v.(type) {
	case *ssa.Alloc:
		return st, ex.allocObj(st, derefType(x.Type()))
	case *ssa.BinOp:
		return st, ex.binop(fr, st, x.Op, x.Type(), x.X.Type(), x.Y.Type(), ex.get(fr, st, x.X), ex.get(fr, st, x.Y), x.Pos())
	case *ssa.UnOp:
		return st, ex.unop(fr, st, x)
	case *ssa.Call:
		var fv Value
		com := x.Common()
		if _, ok := com.Value.(*ssa.Builtin); !ok {
			fv = ex.get(fr, st, com.Value)
		}
		var args []Value
		for _, a := range com.Args {
			args = append(args, ex.get(fr, st, a))
		}
		n, rs := ex.doCall(fr, st, com, fv, args, x.Pos())
		if n == nil {
			return nil, nil
		}
		if tup, ok := x.Type().(*types.Tuple); ok {
			if tup.Len() == 0 {
				return n, TupleV{}
			}
			return n, TupleV{rs}
		}
		return n, rs[0]
	case *ssa.ChangeInterface:
		return st, ex.get(fr, st, x.X)
	case *ssa.ChangeType:
		return st, ex.get(fr, st, x.X)
	case *ssa.Convert:
		return st, ex.convert(fr, st, x.X.Type(), x.Type(), ex.get(fr, st, x.X))
	case *ssa.MultiConvert:
		return st, ex.convert(fr, st, x.X.Type(), x.Type(), ex.get(fr, st, x.X))
	case *ssa.Extract:
		return st, ex.get(fr, st, x.Tuple).(TupleV).e[x.Index]
	case *ssa.Field:
		return st, ex.get(fr, st, x.X).(StructV).f[x.Field]
	case *ssa.FieldAddr:
		p := ex.get(fr, st, x.X).(PtrV)
		ex.nilCheck(fr, st, p.ref, x.Pos())
		u := derefType(x.X.Type()).Underlying().(*types.Struct)
		return st, PtrV{p.ref, Add(p.off, I(fieldOff(u, x.Field)))}
	case *ssa.Index:
		return st, ex.index(fr, st, x)
	case *ssa.IndexAddr:
		i := ex.get(fr, st, x.Index).(*Term)
		switch u := x.X.Type().Underlying().(type) {
		case *types.Slice:
			s := ex.get(fr, st, x.X).(SliceV)
			ex.check(fr, st, And(Ge(i, I(0)), Lt(i, s.n)), "index in range", x.Pos())
			return st, PtrV{s.ref, Add(s.off, Scale(big.NewInt(slots(u.Elem())), i))}
		case *types.Pointer:
			p := ex.get(fr, st, x.X).(PtrV)
			a := u.Elem().Underlying().(*types.Array)
			ex.nilCheck(fr, st, p.ref, x.Pos())
			ex.check(fr, st, And(Ge(i, I(0)), Lt(i, I(a.Len()))), "index in range", x.Pos())
			return st, PtrV{p.ref, Add(p.off, Scale(big.NewInt(slots(a.Elem())), i))}
		}
	case *ssa.Lookup:
		if isString(x.X.Type()) {
			s := ex.get(fr, st, x.X).(StrV)
			i := ex.get(fr, st, x.Index).(*Term)
			ex.check(fr, st, And(Ge(i, I(0)), Lt(i, s.n)), "index in range", x.Pos())
			return st, s.at(i)
		}
		return st, ex.mapLookup(fr, st, x)
	case *ssa.MakeClosure:
		var free []Value
		for _, b := range x.Bindings {
			free = append(free, ex.get(fr, st, b))
		}
		return st, ex.funcVal(x.Fn.(*ssa.Function), free)
	case *ssa.MakeInterface:
		return st, ex.makeIface(st, x.X.Type(), ex.get(fr, st, x.X))
	case *ssa.MakeMap:
		return st, RefV{ex.newRef()}
	case *ssa.MakeChan:
		r := ex.newRef()
		sz := ex.get(fr, st, x.Size).(*Term)
		ex.check(fr, st, Ge(sz, I(0)), "channel size not negative", x.Pos())
		st.fill("chan.len", r, I(0))
		st.fill("chan.cap", r, sz)
		return st, RefV{r}
	case *ssa.MakeSlice:
		n := ex.get(fr, st, x.Len).(*Term)
		c := ex.get(fr, st, x.Cap).(*Term)
		ex.check(fr, st, And(Ge(n, I(0)), Le(n, c)), "make length in range", x.Pos())
		st.ctx = st.ctx.Assume(And(Le(n, Num(maxLen)), Le(c, Num(maxLen))))
		et := x.Type().Underlying().(*types.Slice).Elem()
		r := ex.newRef()
		for _, k := range allKeys(et) {
			st.fill(k, r, keyZero(k))
		}
		return st, SliceV{r, I(0), n, c}
	case *ssa.Next:
		return ex.next(fr, st, x)
	case *ssa.Range:
		if isString(x.X.Type()) {
			p := ex.allocObj(st, types.Typ[types.Int])
			return st, IterV{str: ex.get(fr, st, x.X).(StrV), cell: p, typ: x.X.Type()}
		}
		unsupported("range over map in %s", fr.fn)
	case *ssa.Slice:
		return st, ex.slice(fr, st, x)
	case *ssa.SliceToArrayPointer:
		s := ex.get(fr, st, x.X).(SliceV)
		n := derefType(x.Type()).Underlying().(*types.Array).Len()
		ex.check(fr, st, Ge(s.n, I(n)), "slice long enough for array conversion", x.Pos())
		return st, PtrV{s.ref, s.off}
	case *ssa.TypeAssert:
		return st, ex.typeAssert(fr, st, x)
	case *ssa.Select:
		return ex.selectOp(fr, st, x)
	}
	unsupported("value %T in %s", v, fr.fn)
	return nil, nil
}

// chanLens gives the number of values buffered in a channel and its capacity.
func (ex *Exec) chanLens(st *State, ch *Term) (n, c *Term) {
	appRange["chan.len"] = [2]*big.Int{bi0, big.NewInt(1 << 62)}
	appRange["chan.cap"] = appRange["chan.len"]
	n, c = st.sel("chan.len", ch, I(0)), st.sel("chan.cap", ch, I(0))
	st.ctx = st.ctx.Assume(Or(Eq(ch, I(0)), Le(n, c)))
	return
}

// selectOp is a non-blocking select on one channel of empty values that no
// other goroutine uses meanwhile.
func (ex *Exec) selectOp(fr *Frame, st *State, x *ssa.Select) (*State, Value) {
	if x.Blocking || len(x.States) != 1 {
		unsupported("blocking select in %s", fr.fn)
	}
	s := x.States[0]
	et := s.Chan.Type().Underlying().(*types.Chan).Elem()
	if z, ok := et.Underlying().(*types.Struct); !ok || z.NumFields() != 0 {
		unsupported("select on a channel of %s in %s", et, fr.fn)
	}
	ch := ex.get(fr, st, s.Chan).(RefV).ref
	n, c := ex.chanLens(st, ch)
	ready := And(Not(Eq(ch, I(0))), Lt(n, c))
	d := I(1)
	if s.Dir == types.RecvOnly {
		ready, d = And(Not(Eq(ch, I(0))), Lt(I(0), n)), I(-1)
	}
	st.wr("chan.len", ch, I(0), Ite(ready, Add(n, d), n))
	r := TupleV{e: []Value{Ite(ready, I(0), I(-1)), Ite(ready, True, False)}}
	if s.Dir == types.RecvOnly {
		r.e = append(r.e, ex.zeroVal(et))
	}
	return st, r
}

func (ex *Exec) unop(fr *Frame, st *State, x *ssa.UnOp) Value {
	v := ex.get(fr, st, x.X)
	switch x.Op {
	case token.MUL:
		p := v.(PtrV)
		ex.nilCheck(fr, st, p.ref, x.Pos())
		if st.ctx.dead {
			return ex.zeroVal(x.Type())
		}
		return st.load(x.Type(), p.ref, p.off)
	case token.NOT:
		return Not(v.(*Term))
	case token.SUB:
		if isFloat(x.Type()) {
			return App("float.neg", v.(*Term))
		}
		bits, signed, _ := intInfo(x.Type())
		return ex.wrap(st, Neg(v.(*Term)), bits, signed, bits == 64)
	case token.XOR:
		bits, signed, _ := intInfo(x.Type())
		if signed {
			return Sub(Neg(v.(*Term)), I(1))
		}
		return Sub(Num(new(big.Int).Sub(pow2(bits), bi1)), v.(*Term))
	case token.ARROW:
		unsupported("channel receive in %s", fr.fn)
	}
	unsupported("unop %s", x.Op)
	return nil
}

func (ex *Exec) index(fr *Frame, st *State, x *ssa.Index) Value {
	i := ex.get(fr, st, x.Index).(*Term)
	switch a := ex.get(fr, st, x.X).(type) {
	case StrV:
		ex.check(fr, st, And(Ge(i, I(0)), Lt(i, a.n)), "index in range", x.Pos())
		return a.at(i)
	case ArrayV:
		ex.check(fr, st, And(Ge(i, I(0)), Lt(i, I(int64(len(a.e))))), "index in range", x.Pos())
		if k, ok := constInt(i); ok {
			if k < 0 || k >= int64(len(a.e)) {
				return ex.zeroVal(x.Type())
			}
			return a.e[k]
		}
		r := a.e[len(a.e)-1]
		for j := len(a.e) - 2; j >= 0; j-- {
			r = mergeVal(Le(i, I(int64(j))), a.e[j], r)
		}
		return r
	}
	unsupported("index")
	return nil
}

func (ex *Exec) slice(fr *Frame, st *State, x *ssa.Slice) Value {
	opt := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return ex.get(fr, st, v).(*Term)
	}
	switch u := x.X.Type().Underlying().(type) {
	case *types.Basic:
		s := ex.get(fr, st, x.X).(StrV)
		lo := opt(x.Low, I(0))
		hi := opt(x.High, s.n)
		ex.check(fr, st, And(Ge(lo, I(0)), Le(lo, hi), Le(hi, s.n)), "slice bounds in range", x.Pos())
		return StrV{s.sid, Add(s.off, lo), Sub(hi, lo)}
	case *types.Slice:
		s := ex.get(fr, st, x.X).(SliceV)
		lo := opt(x.Low, I(0))
		hi := opt(x.High, s.n)
		mx := opt(x.Max, s.c)
		ex.check(fr, st, And(Ge(lo, I(0)), Le(lo, hi), Le(hi, mx), Le(mx, s.c)), "slice bounds in range", x.Pos())
		return SliceV{s.ref, Add(s.off, Scale(big.NewInt(slots(u.Elem())), lo)), Sub(hi, lo), Sub(mx, lo)}
	case *types.Pointer:
		a := u.Elem().Underlying().(*types.Array)
		p := ex.get(fr, st, x.X).(PtrV)
		ex.nilCheck(fr, st, p.ref, x.Pos())
		n := I(a.Len())
		lo := opt(x.Low, I(0))
		hi := opt(x.High, n)
		mx := opt(x.Max, n)
		ex.check(fr, st, And(Ge(lo, I(0)), Le(lo, hi), Le(hi, mx), Le(mx, n)), "slice bounds in range", x.Pos())
		return SliceV{p.ref, Add(p.off, Scale(big.NewInt(slots(a.Elem())), lo)), Sub(hi, lo), Sub(mx, lo)}
	}
	unsupported("slice of %s", x.X.Type())
	return nil
}

func (ex *Exec) implements(id *Term, it *types.Interface) *Term {
	if id.isConst() {
		k := id.k.Int64()
		if k == 0 {
			return False
		}
		return B(types.Implements(ex.typeList[k], it))
	}
	if id.op == OIte {
		return Ite(id.args[0], ex.implements(id.args[1], it), ex.implements(id.args[2], it))
	}
	if it.NumMethods() == 0 {
		return Not(Eq(id, I(0)))
	}
	ifid := ex.typeID(it)
	r := And(Not(Eq(id, I(0))), AppB("implements", I(ifid), id))
	return r
}

func (ex *Exec) typeAssert(fr *Frame, st *State, x *ssa.TypeAssert) Value {
	v := ex.get(fr, st, x.X).(IfaceV)
	var ok *Term
	var val func() Value
	if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		ok = ex.implements(v.typ, it)
		val = func() Value { return mergeVal(ok, v, Value(IfaceV{I(0), I(0)})) }
	} else {
		id := ex.typeID(x.AssertedType)
		ok = Eq(v.typ, I(id))
		val = func() Value {
			s2 := st
			r := s2.load(x.AssertedType, v.box, boxOff)
			if x.CommaOk {
				return mergeVal(st.ctx.Simp(ok), r, ex.zeroVal(x.AssertedType))
			}
			return r
		}
	}
	ok = st.ctx.Simp(ok)
	if x.CommaOk {
		if ok == False {
			return TupleV{[]Value{ex.zeroVal(x.AssertedType), ok}}
		}
		return TupleV{[]Value{val(), ok}}
	}
	ex.check(fr, st, ok, "type assertion succeeds", x.Pos())
	if st.ctx.dead {
		return ex.zeroVal(x.AssertedType)
	}
	return val()
}

func (ex *Exec) next(fr *Frame, st *State, x *ssa.Next) (*State, Value) {
	it := ex.get(fr, st, x.Iter).(IterV)
	pos := st.load(types.Typ[types.Int], it.cell.ref, it.cell.off).(*Term)
	s := it.str
	st.ctx = st.ctx.Assume(And(Ge(pos, I(0)), Le(pos, s.n)))
	pos = st.ctx.Simp(pos)
	ok := st.ctx.Simp(Lt(pos, s.n))
	wr := func(t *State, v *Term) {
		t.wr("int", it.cell.ref, it.cell.off, v)
	}
	if ok == False {
		return st, TupleV{[]Value{ok, I(0), I(0)}}
	}
	var sts []*State
	var vals [][]Value
	if ok != True {
		e := st.clone()
		e.ctx = e.ctx.Guard(Not(ok))
		sts = append(sts, e)
		vals = append(vals, []Value{False, I(0), I(0)})
		st.ctx = st.ctx.Guard(ok)
	}
	c := st.ctx.Simp(s.at(pos))
	asc := st.ctx.Simp(Lt(c, I(128)))
	if asc != False {
		a := st
		if asc != True {
			a = st.clone()
			a.ctx = a.ctx.Guard(asc)
		}
		wr(a, Add(pos, I(1)))
		sts = append(sts, a)
		vals = append(vals, []Value{True, pos, c})
	}
	if asc != True {
		st.ctx = st.ctx.Guard(Not(asc))
		if !st.ctx.dead {
			// the rune and the width are functions of the text; a byte above 127
			// never starts a rune below 128, and the width is 1 to 4
			ex.trusted["range over a string: UTF-8 decoding of non-ASCII text"] = true
			n := st
			rv := App("utf8.rune", s.sid, Add(s.off, pos), Sub(s.n, pos))
			w := App("utf8.width", s.sid, Add(s.off, pos), Sub(s.n, pos))
			n.ctx = n.ctx.Assume(And(Ge(rv, I(128)), Le(rv, I(0x10ffff)), Ge(w, I(1)), Le(w, I(4)), Le(Add(pos, w), s.n)))
			wr(n, Add(pos, w))
			sts = append(sts, n)
			vals = append(vals, []Value{True, pos, rv})
		}
	}
	n, vs := mergeStates(sts, vals)
	if n == nil {
		return nil, nil
	}
	return n, TupleV{vs}
}

// ---------- maps (integer-like and string-literal keys are not modelled) ----------

func (ex *Exec) mapUpdate(fr *Frame, st *State, x *ssa.MapUpdate) {
	m := ex.get(fr, st, x.Map).(RefV)
	ex.nilCheck(fr, st, m.ref, x.Pos())
	mt := x.Map.Type().Underlying().(*types.Map)
	k := ex.mapKey(st, mt.Key(), ex.get(fr, st, x.Key))
	pre := mapPrefix(mt)
	c := comps(ex.get(fr, st, x.Value))
	for i, lk := range leafKeysFlat(mt.Elem()) {
		st.wr(fmt.Sprintf("%s.%d.%s", pre, i, lk), m.ref, k, c[i])
	}
	st.wr(pre+".has", m.ref, k, I(1))
}

func mapPrefix(mt *types.Map) string { return "map[" + mt.String() + "]" }

func (ex *Exec) mapKey(st *State, t types.Type, v Value) *Term {
	switch x := v.(type) {
	case *Term:
		if x.isBool {
			return Ite(x, I(1), I(0))
		}
		return x
	case PtrV:
		if x.off.isC(0) {
			return x.ref
		}
	case StrV:
		if l, ok := x.lit(); ok {
			return litString(l).sid
		}
	}
	unsupported("map key %s", t)
	return nil
}

func (ex *Exec) mapLookup(fr *Frame, st *State, x *ssa.Lookup) Value {
	m := ex.get(fr, st, x.X).(RefV)
	mt := x.X.Type().Underlying().(*types.Map)
	k := ex.mapKey(st, mt.Key(), ex.get(fr, st, x.Index))
	pre := mapPrefix(mt)
	if _, ok := appRange[pre+".has"]; !ok {
		appRange[pre+".has"] = [2]*big.Int{bi0, bi1}
	}
	has := And(Not(Eq(m.ref, I(0))), Eq(st.sel(pre+".has", m.ref, k), I(1)))
	var c []*Term
	for i, lk := range leafKeysFlat(mt.Elem()) {
		key := fmt.Sprintf("%s.%d.%s", pre, i, lk)
		if _, ok := appRange[key]; !ok {
			appRange[key] = appRange[lk]
		}
		c = append(c, st.sel(key, m.ref, k))
	}
	has = st.ctx.Simp(has)
	v := mergeVal(has, ex.rebuildVal(mt.Elem(), &c), ex.zeroVal(mt.Elem()))
	if x.CommaOk {
		return TupleV{[]Value{v, has}}
	}
	return v
}

// rebuildVal builds a value of type t from its flattened components.
func (ex *Exec) rebuildVal(t types.Type, c *[]*Term) Value {
	if ks := leafKeys(t); ks != nil {
		v := fromComps(t, (*c)[:len(ks)])
		*c = (*c)[len(ks):]
		return v
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		r := StructV{}
		for i := 0; i < u.NumFields(); i++ {
			r.f = append(r.f, ex.rebuildVal(u.Field(i).Type(), c))
		}
		return r
	case *types.Array:
		r := ArrayV{}
		for i := int64(0); i < u.Len(); i++ {
			r.e = append(r.e, ex.rebuildVal(u.Elem(), c))
		}
		return r
	case *types.Tuple:
		r := TupleV{}
		for i := 0; i < u.Len(); i++ {
			r.e = append(r.e, ex.rebuildVal(u.At(i).Type(), c))
		}
		return r
	}
	unsupported("rebuild %s", t)
	return nil
}

// ---------- conversions ----------

func (ex *Exec) convert(fr *Frame, st *State, from, to types.Type, v Value) Value {
	fb, fs, fok := intInfo(from)
	tb, ts, tok := intInfo(to)
	_ = fb
	_ = fs
	if fok && tok {
		return ex.wrap(st, v.(*Term), tb, ts, false)
	}
	if isString(to) {
		switch x := v.(type) {
		case StrV:
			return x
		case SliceV:
			et := from.Underlying().(*types.Slice).Elem()
			if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return bytesToString(st, x)
			}
			unsupported("[]rune to string")
		case *Term:
			return ex.runeToString(st, x)
		}
	}
	if isString(from) {
		if sl, ok := to.Underlying().(*types.Slice); ok {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return ex.stringToBytes(st, v.(StrV))
			}
		}
		unsupported("string to %s", to)
	}
	if isFloat(to) || isFloat(from) {
		if fok {
			return App(fmt.Sprintf("float.from.%s", from.Underlying()), v.(*Term))
		}
		if tok {
			t := App(fmt.Sprintf("float.to.%s", to.Underlying()), v.(*Term))
			if t.lo == nil {
				t.lo, t.hi = intRange(tb, ts)
			}
			return t
		}
		if isFloat(from) && isFloat(to) {
			return v
		}
	}
	switch v.(type) {
	case PtrV:
		return v
	}
	unsupported("convert %s to %s", from, to)
	return nil
}

func (ex *Exec) runeToString(st *State, r *Term) Value {
	if k, ok := constInt(r); ok {
		return litString(string(rune(k)))
	}
	lt := st.ctx.Simp(And(Ge(r, I(0)), Lt(r, I(128))))
	if lt == True {
		return StrV{newSeq(fnSeq{func(i *Term) *Term { return r }}), I(0), I(1)}
	}
	// general: arbitrary UTF-8 encoding of r
	id := App("utf8.enc", r)
	n := App("utf8.len", r)
	if n.lo == nil {
		n.lo, n.hi = bi1, big.NewInt(4)
	}
	return StrV{id, I(0), n}
}
