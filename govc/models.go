package main

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

type model func(ex *Exec, st *State, ci *callInfo) (*State, []Value)

// models are trusted specifications of functions outside the repository.
var models = map[string]model{}

var bigIntNamed types.Type

// ---------- big integers ----------

func absT(x *Term) *Term {
	if nonneg(x) {
		return x
	}
	t := Ite(Ge(x, I(0)), x, Neg(x))
	if t.op == OIte && t.lo == nil {
		t.lo = bi0
	}
	return t
}

// bigByte(x, j): j-th base-256 digit of |x|.
func bigByte(x, j *Term) *Term {
	a := absT(x)
	if k, ok := constInt(j); ok {
		if k < 0 {
			return I(0)
		}
		if k <= 4096 {
			return Mod(Div(a, Num(pow2(int(8*k)))), I(256))
		}
	}
	return App("bigbyte", a, j)
}

func bigWord(x, j *Term) *Term {
	a := absT(x)
	if k, ok := constInt(j); ok && k >= 0 && k <= 512 {
		return Mod(Div(a, Num(pow2(int(64*k)))), Num(pow2(64)))
	}
	return App("bigword", a, j)
}

var bitThresholds = []int{0, 1, 8, 16, 32, 52, 53, 63, 64, 128, 160, 192, 224, 255, 256, 257, 264, 320, 512, 521}

func bitLen(x *Term) *Term {
	a := absT(x)
	if a.isConst() {
		return I(int64(a.k.BitLen()))
	}
	t := App("bitlen", a)
	{
		lo, hi := bi0, pow2(47) // numbers fit in memory
		if a.lo != nil && a.lo.Sign() > 0 {
			lo = big.NewInt(int64(a.lo.BitLen()))
		}
		if a.hi != nil {
			hi = big.NewInt(int64(a.hi.BitLen()))
		}
		t.lo, t.hi = lo, hi
	}
	return t
}

// rawLe is t <= k without normalisation.
func rawLe(t *Term, k int64) *Term {
	return mk(&Term{op: OLe, isBool: true, args: []*Term{Sub(t, I(k))}})
}

func init() {
	dist := func(name string) func(args []*Term) *Term {
		width := int64(8)
		if name == "bigword" {
			width = 64
		}
		return func(args []*Term) *Term {
			a, j := args[0], args[1]
			if k, ok := constInt(j); ok {
				if k < 0 {
					return I(0)
				}
				if k*width <= 4096*8 {
					return Mod(Div(a, Num(pow2(int(width*k)))), Num(pow2(int(width))))
				}
			}
			if j.op == OIte && iteConstDepth(j) > 0 {
				return Ite(j.args[0], App(name, a, j.args[1]), App(name, a, j.args[2]))
			}
			return nil
		}
	}
	appSimp["bigbyte"] = dist("bigbyte")
	appSimp["bigword"] = dist("bigword")
	appRange["bitlen"] = [2]*big.Int{bi0, pow2(47)}
	appRange["idxin"] = [2]*big.Int{biM1, big.NewInt(1<<16 - 1)}
	appRange["bigbyte"] = [2]*big.Int{bi0, big.NewInt(255)}
	appRange["bigword"] = [2]*big.Int{bi0, new(big.Int).Sub(pow2(64), bi1)}
	appRange["big"] = [2]*big.Int{nil, nil}
	appRange["once"] = [2]*big.Int{bi0, bi1}
	appRange["mutex"] = [2]*big.Int{bi0, bi1}
	unfolders["bitlen"] = func(app *Term) []*Term {
		a := app.args[0]
		var r []*Term
		for _, k := range bitThresholds {
			r = append(r, Iff(rawLe(app, int64(k)), Lt(a, Num(pow2(k)))))
		}
		r = append(r, Implies(Gt(a, I(0)), Eq(App("bigbit", a, Sub(app, I(1))), I(1))))
		return r
	}
	unfolders["bigword"] = func(app *Term) []*Term {
		a, i := app.args[0], app.args[1]
		var ts []*Term
		for k := 0; k < 8; k++ {
			ts = append(ts, Scale(pow2(8*k), App("bigbyte", a, Add(Scale(big.NewInt(8), i), I(int64(k))))))
		}
		return []*Term{Eq(app, Add(ts...)), Implies(Ge(Scale(big.NewInt(64), i), bitLen(a)), Eq(app, I(0))),
			// the top word of a number is not zero
			Implies(And(Gt(a, I(0)), Eq(i, Sub(wordCount(a), I(1)))), Gt(app, I(0)))}
	}
	unfolders["bigbyte"] = func(app *Term) []*Term {
		a, j := app.args[0], app.args[1]
		r := []*Term{
			Implies(Ge(Scale(big.NewInt(8), j), bitLen(a)), Eq(app, I(0))),
			// the top byte is not zero
			Implies(And(Gt(a, I(0)), Eq(j, Sub(byteCount(a), I(1)))), Gt(app, I(0))),
			Implies(Eq(j, I(0)), Eq(app, Mod(a, I(256)))),
		}
		link := func(y *Term, width int) {
			for n, d := range divsOf[y] {
				if k, ok := isPow2(d.args[1].k); ok && n < 100 && k%8 == 0 && (width < 0 || k+8 <= width) {
					r = append(r, Implies(Eq(j, I(int64(k/8))), Eq(app, Mod(d, I(256)))))
				}
			}
		}
		link(a, -1)
		if a.op == OMod && a.args[1].isConst() {
			if w, ok := isPow2(a.args[1].k); ok {
				link(a.args[0], w)
			}
		}
		return r
	}
	m := func(name string, f model) { models["(*math/big.Int)."+name] = f }
	load := func(st *State, v Value) *Term {
		p := v.(PtrV)
		return st.load(bigIntNamed, p.ref, p.off).(*Term)
	}
	store := func(st *State, v Value, x *Term) {
		p := v.(PtrV)
		st.wr("big", p.ref, p.off, st.ctx.Simp(x))
	}
	nn := func(ex *Exec, st *State, ci *callInfo, vs ...Value) bool {
		for _, v := range vs {
			ex.nilCheck(ci.fr, st, v.(PtrV).ref, ci.pos)
		}
		return !st.ctx.dead
	}
	bin := func(f func(x, y *Term) *Term) model {
		return func(ex *Exec, st *State, ci *callInfo) (*State, []Value) {
			if !nn(ex, st, ci, ci.args...) {
				return nil, nil
			}
			store(st, ci.args[0], f(load(st, ci.args[1]), load(st, ci.args[2])))
			return st, one(ci.args[0])
		}
	}
	m("Add", bin(func(x, y *Term) *Term { return Add(x, y) }))
	m("Sub", bin(func(x, y *Term) *Term { return Sub(x, y) }))
	m("Mul", bin(func(x, y *Term) *Term { return Mul(x, y) }))
	un := func(f func(x *Term) *Term) model {
		return func(ex *Exec, st *State, ci *callInfo) (*State, []Value) {
			if !nn(ex, st, ci, ci.args...) {
				return nil, nil
			}
			store(st, ci.args[0], f(load(st, ci.args[1])))
			return st, one(ci.args[0])
		}
	}
	m("Set", un(func(x *Term) *Term { return x }))
	m("Neg", un(Neg))
	m("Abs", un(absT))
	m("Mod", func(ex *Exec, st *State, ci *callInfo) (*State, []Value) { // Euclidean
		if !nn(ex, st, ci, ci.args...) {
			return nil, nil
		}
		x, y := load(st, ci.args[1]), load(st, ci.args[2])
		ex.check(ci.fr, st, Not(Eq(y, I(0))), "no big division by zero", ci.pos)
		r := Mod(x, y)
		if l, _ := st.ctx.Rng(y); l == nil || l.Sign() <= 0 {
			r = Ite(Gt(y, I(0)), Mod(x, y), Mod(x, Neg(y)))
		}
		store(st, ci.args[0], r)
		return st, one(ci.args[0])
	})
	divlike := func(f func(x, y *Term) *Term) model {
		return func(ex *Exec, st *State, ci *callInfo) (*State, []Value) {
			if !nn(ex, st, ci, ci.args...) {
				return nil, nil
			}
			x, y := load(st, ci.args[1]), load(st, ci.args[2])
			ex.check(ci.fr, st, Not(Eq(y, I(0))), "no big division by zero", ci.pos)
			lx, _ := st.ctx.Rng(x)
			ly, _ := st.ctx.Rng(y)
			if lx == nil || lx.Sign() < 0 || ly == nil || ly.Sign() < 0 {
				unsupported("big division of possibly negative numbers")
			}
			store(st, ci.args[0], f(x, y))
			return st, one(ci.args[0])
		}
	}
	m("Exp", func(ex *Exec, st *State, ci *callInfo) (*State, []Value) {
		if !nn(ex, st, ci, ci.args[0], ci.args[1], ci.args[2]) {
			return nil, nil
		}
		x, y := st.ctx.Simp(load(st, ci.args[1])), st.ctx.Simp(load(st, ci.args[2]))
		mp := ci.args[3].(PtrV)
		if l, _ := st.ctx.Rng(y); l == nil || l.Sign() < 0 || !st.ctx.Simp(mp.ref).isC(0) {
			unsupported("modular or inverse big.Int.Exp")
		}
		store(st, ci.args[0], IPow(x, y))
		return st, one(ci.args[0])
	})
	m("Div", divlike(Div))
	m("Quo", divlike(Div))
	m("Rem", divlike(Mod))
	m("And", func(ex *Exec, st *State, ci *callInfo) (*State, []Value) {
		if !nn(ex, st, ci, ci.args...) {
			return nil, nil
		}
		x, y := load(st, ci.args[1]), load(st, ci.args[2])
		if !y.isConst() && x.isConst() {
			x, y = y, x
		}
		var r *Term
		if y.isConst() && y.k.Sign() >= 0 {
			if n, ok := isPow2(new(big.Int).Add(y.k, bi1)); ok {
				r = Mod(x, Num(pow2(n)))
			} else if l, _ := st.ctx.Rng(x); l != nil && l.Sign() >= 0 {
				r = Band(x, y)
			}
		}
		if r == nil {
			lx, _ := st.ctx.Rng(x)
			ly, _ := st.ctx.Rng(y)
			if lx != nil && lx.Sign() >= 0 && ly != nil && ly.Sign() >= 0 {
				r = Band(x, y)
			} else {
				r = App("big.and", x, y)
			}
		}
		store(st, ci.args[0], r)
		return st, one(ci.args[0])
	})
	m("Or", func(ex *Exec, st *State, ci *callInfo) (*State, []Value) {
		if !nn(ex, st, ci, ci.args...) {
			return nil, nil
		}
		x, y := load(st, ci.args[1]), load(st, ci.args[2])
		lx, _ := st.ctx.Rng(x)
		ly, _ := st.ctx.Rng(y)
		var r *Term
		if lx != nil && lx.Sign() >= 0 && ly != nil && ly.Sign() >= 0 {
			r = Bor(x, y)
		} else {
			r = App("big.or", x, y)
		}
		store(st, ci.args[0], r)
		return st, one(ci.args[0])
	})
	shift := func(left bool) model {
		return func(ex *Exec, st *State, ci *callInfo) (*State, []Value) {
			if !nn(ex, st, ci, ci.args[0], ci.args[1]) {
				return nil, nil
			}
			x, n := load(st, ci.args[1]), st.ctx.Simp(ci.args[2].(*Term))
			sh := func(k int64) *Term {
				if left {
					return Scale(pow2(int(k)), x)
				}
				return Div(x, Num(pow2(int(k))))
			}
			var r *Term
			if k, ok := constInt(n); ok {
				r = sh(k)
			} else {
				l, h := st.ctx.Rng(n)
				if l != nil && h != nil && h.IsInt64() && h.Int64()-l.Int64() <= 512 {
					r = sh(h.Int64())
					for k := h.Int64() - 1; k >= l.Int64(); k-- {
						r = Ite(Le(n, I(k)), sh(k), r)
					}
				} else {
					p := App("pow2", n)
					if left {
						r = Mul(x, p)
					} else {
						r = Div(x, p)
					}
				}
			}
			store(st, ci.args[0], r)
			return st, one(ci.args[0])
		}
	}
	m("Lsh", shift(true))
	m("Rsh", shift(false))
	m("Cmp", func(ex *Exec, st *State, ci *callInfo) (*State, []Value) {
		if !nn(ex, st, ci, ci.args...) {
			return nil, nil
		}
		d := Sub(load(st, ci.args[0]), load(st, ci.args[1]))
		return st, one(sign(st.ctx.Simp(d)))
	})
	m("CmpAbs", func(ex *Exec, st *State, ci *callInfo) (*State, []Value) {
		if !nn(ex, st, ci, ci.args...) {
			return nil, nil
		}
		d := Sub(absT(load(st, ci.args[0])), absT(load(st, ci.args[1])))
		return st, one(sign(st.ctx.Simp(d)))
	})
	m("Sign", func(ex *Exec, st *State, ci *callInfo) (*State, []Value) {
		if !nn(ex, st, ci, ci.args...) {
			return nil, nil
		}
		return st, one(sign(load(st, ci.args[0])))
	})
	m("BitLen", func(ex *Exec, st *State, ci *callInfo) (*State, []Value) {
		if !nn(ex, st, ci, ci.args...) {
			return nil, nil
		}
		x := load(st, ci.args[0])
		b := bitLen(x)
		return st, one(b)
	})
	m("IsUint64", func(ex *Exec, st *State, ci *callInfo) (*State, []Value) {
		x := load(st, ci.args[0])
		return st, one(And(Ge(x, I(0)), Lt(x, Num(pow2(64)))))
	})
	m("IsInt64", func(ex *Exec, st *State, ci *callInfo) (*State, []Value) {
		x := load(st, ci.args[0])
		return st, one(And(Ge(x, Num(i64lo)), Le(x, Num(i64h))))
	})
	m("Uint64", func(ex *Exec, st *State, ci *callInfo) (*State, []Value) {
		x := load(st, ci.args[0])
		return st, one(ex.wrap(st, x, 64, false, false))
	})
	m("Int64", func(ex *Exec, st *State, ci *callInfo) (*State, []Value) {
		x := load(st, ci.args[0])
		return st, one(ex.wrap(st, x, 64, true, false))
	})
	setInt := func(ex *Exec, st *State, ci *callInfo) (*State, []Value) {
		if !nn(ex, st, ci, ci.args[0]) {
			return nil, nil
		}
		store(st, ci.args[0], ci.args[1].(*Term))
		return st, one(ci.args[0])
	}
	m("SetInt64", setInt)
	m("SetUint64", setInt)
	m("Bit", func(ex *Exec, st *State, ci *callInfo) (*State, []Value) {
		if !nn(ex, st, ci, ci.args[0]) {
			return nil, nil
		}
		x, i := load(st, ci.args[0]), st.ctx.Simp(ci.args[1].(*Term))
		ex.check(ci.fr, st, Ge(i, I(0)), "bit index not negative", ci.pos)
		if k, ok := constInt(i); ok {
			return st, one(Mod(Div(x, Num(pow2(int(k)))), I(2)))
		}
		t := App("bigbit", x, i)
		t.lo, t.hi = bi0, bi1
		return st, one(t)
	})
	m("SetBytes", func(ex *Exec, st *State, ci *callInfo) (*State, []Value) {
		if !nn(ex, st, ci, ci.args[0]) {
			return nil, nil
		}
		s := ci.args[1].(SliceV)
		store(st, ci.args[0], ex.bytesValue(st, s))
		return st, one(ci.args[0])
	})
	m("Bytes", func(ex *Exec, st *State, ci *callInfo) (*State, []Value) {
		if !nn(ex, st, ci, ci.args[0]) {
			return nil, nil
		}
		x := load(st, ci.args[0])
		a := st.ctx.Simp(absT(x))
		n := st.ctx.Simp(byteCount(a))
		r := ex.newRef()
		st.fill("uint8", r, I(0))
		sv := st.log
		st.copyIn("uint8", r, I(0), n, func(i *Term) *Term { return bigByte(a, Sub(Sub(n, I(1)), i)) })
		st.log = sv
		return st, one(SliceV{r, I(0), n, n})
	})
	m("FillBytes", func(ex *Exec, st *State, ci *callInfo) (*State, []Value) {
		if !nn(ex, st, ci, ci.args[0]) {
			return nil, nil
		}
		a := st.ctx.Simp(absT(load(st, ci.args[0])))
		s := ci.args[1].(SliceV)
		ex.check(ci.fr, st, Le(byteCount(a), s.n), "FillBytes: value fits", ci.pos)
		n := s.n
		st.copyIn("uint8", s.ref, s.off, n, func(i *Term) *Term { return bigByte(a, Sub(Sub(n, I(1)), i)) })
		return st, one(s)
	})
	m("Bits", func(ex *Exec, st *State, ci *callInfo) (*State, []Value) {
		if !nn(ex, st, ci, ci.args[0]) {
			return nil, nil
		}
		a := st.ctx.Simp(absT(load(st, ci.args[0])))
		n := st.ctx.Simp(wordCount(a))
		r := ex.newRef()
		k := leafKeys(types.Typ[types.Uint])[0]
		st.fill(k, r, I(0))
		sv := st.log
		st.copyIn(k, r, I(0), n, func(i *Term) *Term { return bigWord(a, i) })
		st.log = sv
		return st, one(SliceV{r, I(0), n, n})
	})
	m("SetBits", func(ex *Exec, st *State, ci *callInfo) (*State, []Value) {
		if !nn(ex, st, ci, ci.args[0]) {
			return nil, nil
		}
		s := ci.args[1].(SliceV)
		sn := st.ctx.Simp(s.n)
		n, ok := constInt(sn)
		if !ok {
			_, h := st.ctx.Rng(sn)
			if h == nil || h.Cmp(big.NewInt(16)) > 0 {
				h = nil
				for _, k := range []int64{4, 5, 8, 16} {
					if ex.decide(st.ctx, Le(sn, I(k))) {
						h = big.NewInt(k)
						break
					}
				}
			}
			if h == nil {
				unsupported("SetBits of variable length")
			}
			n = h.Int64()
		}
		k := leafKeys(types.Typ[types.Uint])[0]
		v := I(0)
		for i := int64(0); i < n; i++ {
			w := Scale(pow2(int(64*i)), st.sel(k, s.ref, Add(s.off, I(i))))
			v = Add(v, st.ctx.Simp(Ite(Lt(I(i), sn), w, I(0))))
		}
		store(st, ci.args[0], v)
		return st, one(ci.args[0])
	})
	m("SetString", func(ex *Exec, st *State, ci *callInfo) (*State, []Value) {
		if !nn(ex, st, ci, ci.args[0]) {
			return nil, nil
		}
		return ex.bigSetString(st, ci)
	})
	m("Text", func(ex *Exec, st *State, ci *callInfo) (*State, []Value) {
		return ex.bigText(st, ci, load(st, ci.args[0]))
	})
	m("String", func(ex *Exec, st *State, ci *callInfo) (*State, []Value) {
		ci.args = append(ci.args, I(10))
		return ex.bigText(st, ci, load(st, ci.args[0]))
	})
	m("ModInverse", func(ex *Exec, st *State, ci *callInfo) (*State, []Value) {
		if !nn(ex, st, ci, ci.args...) {
			return nil, nil
		}
		g, n := load(st, ci.args[1]), load(st, ci.args[2])
		r := App("modinv", Mod(g, n), n)
		ex.check(ci.fr, st, And(AppB("prime", n), Gt(n, I(1)), Not(Eq(Mod(g, n), I(0)))), "the modular inverse exists", ci.pos)
		if st.ctx.dead {
			return nil, nil
		}
		st.ctx = st.ctx.Assume(And(Ge(r, I(0)), Lt(r, n), Eq(Mod(Mul(r, Mod(g, n)), n), I(1))))
		store(st, ci.args[0], r)
		return st, one(ci.args[0])
	})
	models["math/big.NewInt"] = func(ex *Exec, st *State, ci *callInfo) (*State, []Value) {
		r := ex.newRef()
		sv := st.log
		st.wr("big", r, I(0), ci.args[0].(*Term))
		st.log = sv
		return st, one(PtrV{r, I(0)})
	}

	// ---------- errors and formatting ----------
	models["fmt.Errorf"] = func(ex *Exec, st *State, ci *callInfo) (*State, []Value) {
		t := ex.ld.typeOf("fmt", "wrapError")
		r := ex.newRef()
		pt := types.NewPointer(t)
		return st, one(ex.makeIface(st, pt, PtrV{r, I(0)}))
	}
	freshStr := func(what string) model {
		return func(ex *Exec, st *State, ci *callInfo) (*State, []Value) {
			return st, one(ex.havocVal(freshName(what), types.Typ[types.String], st, refParamHi))
		}
	}
	models["fmt.Sprintf"] = func(ex *Exec, st *State, ci *callInfo) (*State, []Value) {
		if s, ok := ex.sprintf(st, ci); ok {
			return st, one(s)
		}
		return freshStr("sprintf")(ex, st, ci)
	}
	models["fmt.Sprint"] = freshStr("sprint")
	models["fmt.Fprintf"] = func(ex *Exec, st *State, ci *callInfo) (*State, []Value) { return ex.fprintf(st, ci) }
	noop := func(ex *Exec, st *State, ci *callInfo) (*State, []Value) {
		var rs []Value
		res := ci.fn.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			rs = append(rs, ex.havocVal(freshName(ci.fn.Name()), res.At(i).Type(), st, refParamHi))
		}
		return st, rs
	}
	models["fmt.Println"] = noop
	models["fmt.Printf"] = noop
	models["reflect.TypeOf"] = func(ex *Exec, st *State, ci *callInfo) (*State, []Value) {
		t := ex.ld.typeOf("reflect", "rtype")
		if t == nil {
			unsupported("reflect.rtype")
		}
		iv := ci.args[0].(IfaceV)
		// the dynamic type identifier determines the descriptor
		return st, one(mergeVal(st.ctx.Simp(Eq(iv.typ, I(0))), IfaceV{I(0), I(0)}, IfaceV{I(ex.typeID(types.NewPointer(t))), Sub(I(-1<<40), iv.typ)}))
	}
	models["(*reflect.rtype).String"] = func(ex *Exec, st *State, ci *callInfo) (*State, []Value) {
		p := ci.args[0].(PtrV)
		n := App("rtype.name.n", p.ref, p.off)
		if n.lo == nil {
			n.lo, n.hi = bi0, maxLen
		}
		return st, one(StrV{App("rtype.name", p.ref, p.off), I(0), n})
	}
	// ---------- sync ----------
	lock := func(ex *Exec, st *State, ci *callInfo) (*State, []Value) {
		p := ci.args[0].(PtrV)
		ex.nilCheck(ci.fr, st, p.ref, ci.pos)
		st.wr("mutex", p.ref, p.off, I(1))
		return st, nil
	}
	unlock := func(ex *Exec, st *State, ci *callInfo) (*State, []Value) {
		p := ci.args[0].(PtrV)
		ex.check(ci.fr, st, Eq(st.sel("mutex", p.ref, p.off), I(1)), "mutex is held when unlocked", ci.pos)
		st.wr("mutex", p.ref, p.off, I(0))
		return st, nil
	}
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock"} {
		models[n] = lock
	}
	for _, n := range []string{"(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock"} {
		models[n] = unlock
	}
	models["(*sync.Once).Do"] = func(ex *Exec, st *State, ci *callInfo) (*State, []Value) {
		p := ci.args[0].(PtrV)
		done := st.ctx.Simp(Eq(st.sel("once", p.ref, p.off), I(1)))
		var sts []*State
		if done != False {
			a := st.clone()
			a.ctx = a.ctx.Guard(done)
			sts = append(sts, a)
		}
		if done != True {
			b := st.clone()
			b.ctx = b.ctx.Guard(Not(done))
			b.wr("once", p.ref, p.off, I(1))
			n, _ := ex.callValue(ci.fr, b, ci.args[1].(FuncV), nil, ci.pos, nil)
			if n != nil {
				sts = append(sts, n)
			}
		}
		n, _ := mergeStates(sts, nil)
		return n, nil
	}
	models["(*sync.Cond).Signal"] = noop
	models["(*sync.Cond).Broadcast"] = noop
	models["sync.NewCond"] = func(ex *Exec, st *State, ci *callInfo) (*State, []Value) {
		return st, one(ex.allocObj(st, derefType(ci.fn.Signature.Results().At(0).Type())))
	}
	// ---------- bytealg and other assembly ----------
	models["internal/bytealg.IndexByteString"] = func(ex *Exec, st *State, ci *callInfo) (*State, []Value) {
		s, c := ci.args[0].(StrV), ci.args[1].(*Term)
		return st, one(ex.indexOf(st, s.n, func(i *Term) *Term { return Eq(s.at(i), c) }))
	}
	models["internal/stringslite.IndexByte"] = models["internal/bytealg.IndexByteString"]
	models["strings.IndexByte"] = models["internal/bytealg.IndexByteString"]
	models["internal/bytealg.IndexByte"] = func(ex *Exec, st *State, ci *callInfo) (*State, []Value) {
		s, c := ci.args[0].(SliceV), ci.args[1].(*Term)
		h := st.h("uint8")
		return st, one(ex.indexOf(st, s.n, func(i *Term) *Term { return Eq(Select(h, s.ref, Add(s.off, i)), c) }))
	}
	models["internal/bytealg.Equal"] = func(ex *Exec, st *State, ci *callInfo) (*State, []Value) {
		return st, one(strEq(bytesToString(st, ci.args[0].(SliceV)), bytesToString(st, ci.args[1].(SliceV))))
	}
	models["internal/stringslite.Clone"] = func(ex *Exec, st *State, ci *callInfo) (*State, []Value) {
		return st, ci.args[:1]
	}
	models["bytes.Equal"] = models["internal/bytealg.Equal"]
	models["bytes.Compare"] = func(ex *Exec, st *State, ci *callInfo) (*State, []Value) {
		a, b := bytesToString(st, ci.args[0].(SliceV)), bytesToString(st, ci.args[1].(SliceV))
		t := App("bytes.cmp", a.sid, a.off, a.n, b.sid, b.off, b.n)
		t.lo, t.hi = biM1, bi1
		st.ctx = st.ctx.Assume(Iff(Eq(t, I(0)), strEq(a, b)))
		return st, one(t)
	}
	models["runtime.KeepAlive"] = noop
	models["(reflect.Value).IsNil"] = noop
	_ = fmt.Sprint
	_ = (*ssa.Function)(nil)
}

// indexOf returns the least i in [0,n) with p(i), or -1.
func (ex *Exec) indexOf(st *State, n *Term, p func(i *Term) *Term) *Term {
	n = st.ctx.Simp(n)
	if k, ok := constInt(n); ok && k <= 128 {
		r := I(-1)
		for i := k - 1; i >= 0; i-- {
			r = Ite(p(I(i)), I(i), r)
		}
		return st.ctx.Simp(r)
	}
	r := Var(freshName("index"), biM1, maxLen)
	v := qfresh()
	lim := Ite(Ge(r, I(0)), r, n)
	st.ctx = st.ctx.Assume(And(Lt(r, n), Or(Lt(r, I(0)), p(r)),
		closeForall(v, Implies(And(Ge(v, I(0)), Lt(v, lim)), Not(p(v))))))
	return r
}

func sign(d *Term) *Term {
	if d.isConst() {
		return I(int64(d.k.Sign()))
	}
	return Ite(Lt(d, I(0)), I(-1), Ite(Eq(d, I(0)), I(0), I(1)))
}

func byteCount(a *Term) *Term { return Div(Add(bitLen(a), I(7)), I(8)) }
func wordCount(a *Term) *Term { return Div(Add(bitLen(a), I(63)), I(64)) }

// bytesValue: big-endian value of a byte slice.
func (ex *Exec) bytesValue(st *State, s SliceV) *Term {
	n := st.ctx.Simp(s.n)
	if k, ok := constInt(n); ok && k <= 512 {
		v := I(0)
		for i := int64(0); i < k; i++ {
			v = Add(v, Scale(pow2(int(8*(k-1-i))), st.sel("uint8", s.ref, Add(s.off, I(i)))))
		}
		return v
	}
	h := st.h("uint8")
	v := Var(freshName("bytesval"), bi0, nil)
	q := qfresh()
	body := Implies(And(Ge(q, I(0)), Lt(q, n)), Eq(bigByte(v, q), Select(h, s.ref, Add(s.off, Sub(Sub(n, I(1)), q)))))
	st.ctx = st.ctx.Assume(And(closeForall(q, body), Le(bitLen(v), Scale(big.NewInt(8), n))))
	return v
}

func (ex *Exec) bigSetString(st *State, ci *callInfo) (*State, []Value) {
	s := ci.args[1].(StrV)
	base := st.ctx.Simp(ci.args[2].(*Term))
	if !base.isConst() {
		r, v := ex.forkOn(st, base, func(s *State, k int64) (*State, []Value) {
			c2 := *ci
			c2.args = append([]Value(nil), ci.args...)
			c2.args[2] = I(k)
			return ex.bigSetString(s, &c2)
		})
		if r == nil && v == nil {
			unsupported("SetString base")
		}
		return r, v
	}
	s.sid, s.off, s.n = st.ctx.Simp(s.sid), st.ctx.Simp(s.off), st.ctx.Simp(s.n)
	ok := AppB("big.parse.ok", s.sid, s.off, s.n, base)
	v := App("big.parse", s.sid, s.off, s.n, base)
	if b, isk := constInt(base); isk && (b == 10 || b == 16) {
		if n, isn := constInt(st.ctx.Simp(s.n)); isn && n <= 80 {
			ok, v = parseDigits(s, n, b)
		}
	}
	p := ci.args[0].(PtrV)
	// on failure the value of z is undefined
	st.wr("big", p.ref, p.off, Ite(ok, v, App("big.undef", I(int64(nfresh)))))
	nfresh++
	r := mergeVal(ok, p, Value(PtrV{I(0), I(0)}))
	return st, []Value{r, ok}
}

// parseDigits: value of an optionally signed digit string of constant length.
func parseDigits(s StrV, n, base int64) (ok, v *Term) {
	c0 := s.at(I(0))
	if n == 0 {
		return False, I(0)
	}
	digit := func(c *Term) (*Term, *Term) {
		d := Sub(c, I('0'))
		is := And(Ge(c, I('0')), Le(c, I('9')))
		if base == 16 {
			lo := And(Ge(c, I('a')), Le(c, I('f')))
			up := And(Ge(c, I('A')), Le(c, I('F')))
			return Or(is, lo, up), Ite(is, d, Ite(lo, Sub(c, I('a'-10)), Sub(c, I('A'-10))))
		}
		return is, d
	}
	num := func(from int64) (*Term, *Term) {
		if from >= n {
			return False, I(0)
		}
		ok, v := True, I(0)
		for i := from; i < n; i++ {
			g, d := digit(s.at(I(i)))
			ok = And(ok, g)
			v = Add(Scale(big.NewInt(base), v), d)
		}
		return ok, v
	}
	o0, v0 := num(0)
	o1, v1 := num(1)
	neg := Eq(c0, I('-'))
	pos := Eq(c0, I('+'))
	return Ite(Or(neg, pos), o1, o0), Ite(neg, Neg(v1), Ite(pos, v1, v0))
}

var hexTexts = map[*Term]*Term{}

// hexText is the lower-case hexadecimal text of a >= 0.
func hexText(st *State, a *Term) StrV {
	n := Ite(Eq(a, I(0)), I(1), Div(Add(bitLen(a), I(3)), I(4)))
	sid, ok := hexTexts[a]
	if !ok {
		sid = newSeq(fnSeq{func(i *Term) *Term {
			j := Sub(Sub(n, I(1)), i)
			b := bigByte(a, Div(j, I(2)))
			d := Ite(Eq(Mod(j, I(2)), I(0)), Mod(b, I(16)), Div(b, I(16)))
			return Ite(Lt(d, I(10)), Add(d, I('0')), Add(d, I('a'-10)))
		}})
		hexTexts[a] = sid
	}
	return StrV{sid, I(0), st.ctx.Simp(n)}
}

func (ex *Exec) bigText(st *State, ci *callInfo, x *Term) (*State, []Value) {
	base := st.ctx.Simp(ci.args[1].(*Term))
	if base.isC(16) {
		x = st.ctx.Simp(x)
		pos := hexText(st, st.ctx.Simp(absT(x)))
		if lo, _ := st.ctx.Rng(x); lo != nil && lo.Sign() >= 0 {
			return st, one(pos)
		}
		neg := StrV{newSeq(fnSeq{func(i *Term) *Term { return Ite(Eq(i, I(0)), I('-'), pos.at(Sub(i, I(1)))) }}), I(0), Add(pos.n, I(1))}
		return st, one(mergeVal(st.ctx.Simp(Lt(x, I(0))), neg, pos))
	}
	n := App("big.text.n", x, base)
	if n.lo == nil {
		n.lo, n.hi = bi1, maxLen
	}
	t := StrV{App("big.text", x, base), I(0), n}
	if base.isC(10) { // a minus sign for negative numbers, then digits
		q := Var(freshName("q"), nil, nil)
		c := t.at(q)
		neg := st.ctx.Simp(Lt(x, I(0)))
		st.ctx = st.ctx.Assume(And(
			Implies(neg, And(Eq(t.at(I(0)), I('-')), Ge(n, I(2)))),
			closeForall(q, Implies(And(Ge(q, Ite(neg, I(1), I(0))), Lt(q, n)), And(Ge(c, I('0')), Le(c, I('9')))))))
	}
	return st, one(t)
}

// sprintf: text of %s, %v, %x and %% for strings and byte slices, and %c for bytes below 128.
func (ex *Exec) sprintf(st *State, ci *callInfo) (StrV, bool) {
	format, ok := ci.args[0].(StrV).lit()
	if !ok {
		return StrV{}, false
	}
	args := ci.args[1].(SliceV)
	na, ok := constInt(st.ctx.Simp(args.n))
	if !ok {
		return StrV{}, false
	}
	it := ci.fn.Signature.Params().At(1).Type().(*types.Slice).Elem()
	out := litString("")
	used := int64(0)
	for i := 0; i < len(format); i++ {
		j := i
		for j < len(format) && format[j] != '%' {
			j++
		}
		if j > i {
			out = concat(st, out, litString(format[i:j]))
		}
		if j+1 >= len(format) {
			if j < len(format) {
				return StrV{}, false
			}
			break
		}
		i = j + 1
		width := int64(-1)
		if format[i] == '0' {
			width = 0
			for i++; i < len(format) && format[i] >= '0' && format[i] <= '9'; i++ {
				width = width*10 + int64(format[i]-'0')
			}
			if i == len(format) || format[i] != 'x' || width > 64 {
				return StrV{}, false
			}
		}
		if format[i] == '%' {
			out = concat(st, out, litString("%"))
			continue
		}
		if used >= na {
			return StrV{}, false
		}
		iv := st.load(it, args.ref, Add(args.off, I(used))).(IfaceV)
		used++
		k, isk := constInt(st.ctx.Simp(iv.typ))
		if !isk || k == 0 || ex.typeList[k] == nil {
			return StrV{}, false
		}
		t := ex.typeList[k]
		if ms := ex.ld.prog.MethodSets.MethodSet(t); ms.Len() > 0 {
			return StrV{}, false
		}
		v := st.load(t, iv.box, boxOff)
		var piece StrV
		switch x := v.(type) {
		case StrV:
			if width >= 0 {
				return StrV{}, false
			}
			piece = x
		case SliceV:
			if width >= 0 {
				return StrV{}, false
			}
			if b, ok := t.Underlying().(*types.Slice).Elem().Underlying().(*types.Basic); !ok || b.Kind() != types.Uint8 {
				return StrV{}, false
			}
			piece = bytesToString(st, x)
		case *Term:
			b, ok := t.Underlying().(*types.Basic)
			if ok && format[i] == 'x' && b.Info()&types.IsInteger != 0 {
				v := st.ctx.Simp(x)
				if lo, _ := st.ctx.Rng(v); lo == nil || lo.Sign() < 0 {
					if !ex.decide(st.ctx, Ge(v, I(0))) {
						return StrV{}, false
					}
				}
				out = concat(st, out, paddedHex(st, v, width))
				continue
			}
			if !ok || format[i] != 'c' || b.Info()&types.IsInteger == 0 {
				return StrV{}, false
			}
			c := st.ctx.Simp(x)
			lo, hi := st.ctx.Rng(c)
			if lo == nil || hi == nil || lo.Sign() < 0 || hi.Cmp(big.NewInt(127)) > 0 {
				return StrV{}, false
			}
			piece = StrV{newSeq(fnSeq{func(i *Term) *Term { return c }}), I(0), I(1)}
			out = concat(st, out, piece)
			continue
		default:
			return StrV{}, false
		}
		switch format[i] {
		case 's':
		case 'v':
			if _, ok := v.(StrV); !ok {
				return StrV{}, false
			}
		case 'x':
			src := piece
			piece = StrV{newSeq(fnSeq{func(i *Term) *Term {
				b := src.at(Div(i, I(2)))
				d := Ite(Eq(Mod(i, I(2)), I(0)), Div(b, I(16)), Mod(b, I(16)))
				return Ite(Lt(d, I(10)), Add(d, I('0')), Add(d, I('a'-10)))
			}}), I(0), st.ctx.Simp(Scale(big.NewInt(2), src.n))}
		default:
			return StrV{}, false
		}
		out = concat(st, out, piece)
	}
	if used != na {
		return StrV{}, false
	}
	return out, true
}

func (ex *Exec) fprintf(st *State, ci *callInfo) (*State, []Value) {
	if infeasible(st) {
		return nil, nil
	}
	unsupported("fmt.Fprintf")
	return nil, nil
}

// paddedHex is the lower-case hexadecimal text of v >= 0, with zeros in front up to the width.
func paddedHex(st *State, v *Term, width int64) StrV {
	n := Ite(Eq(v, I(0)), I(1), Div(Add(bitLen(v), I(3)), I(4)))
	if width > 0 {
		n = Ite(Lt(v, Num(pow2(int(4*width)))), I(width), n)
	}
	n = st.ctx.Simp(n)
	return StrV{newSeq(fnSeq{func(i *Term) *Term {
		j := Sub(Sub(n, I(1)), i)
		b := bigByte(v, Div(j, I(2)))
		d := Ite(Eq(Mod(j, I(2)), I(0)), Mod(b, I(16)), Div(b, I(16)))
		return Ite(Lt(d, I(10)), Add(d, I('0')), Add(d, I('a'-10)))
	}}), I(0), n}
}
