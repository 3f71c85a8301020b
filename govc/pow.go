package main

import (
	"math/big"
	"sort"
)

// IPow is b to the power e (1 when e <= 0).
func IPow(b, e *Term) *Term { return App("ipow", b, e) }

func isIPow(t *Term) bool { return t.op == OApp && t.name == "ipow" }

func init() {
	appSimp["ipow"] = func(a []*Term) *Term {
		b, e := a[0], a[1]
		if e.isConst() {
			if e.k.Sign() <= 0 {
				return I(1)
			}
			if e.isC(1) {
				return b
			}
			if b.isConst() && e.k.Cmp(big.NewInt(1024)) <= 0 {
				return Num(new(big.Int).Exp(b.k, e.k, nil))
			}
		}
		if b.isC(1) {
			return b
		}
		if isIPow(b) && nonnegC(e) && nonnegC(b.args[1]) {
			return IPow(b.args[0], Mul(b.args[1], e))
		}
		return nil
	}
	unfolders["ipow"] = func(app *Term) []*Term {
		b, e := app.args[0], app.args[1]
		return []*Term{Implies(Le(e, I(0)), Eq(app, I(1))), Implies(Eq(e, I(1)), Eq(app, b))}
	}
	appSimp["bigdrop"] = func(a []*Term) *Term {
		if k, ok := constInt(a[1]); ok && k >= 0 && k <= 512 {
			return Div(a[0], Num(pow2(int(64*k))))
		}
		return nil
	}
	appRange["bigdrop"] = [2]*big.Int{bi0, nil}
	unfolders["bigdrop"] = func(app *Term) []*Term {
		a, i := app.args[0], app.args[1]
		return []*Term{
			Implies(Eq(i, I(0)), Eq(app, a)),
			Implies(Ge(i, I(0)), Eq(app, Add(App("bigword", a, i), Scale(pow2(64), App("bigdrop", a, Add(i, I(1))))))),
			Implies(Ge(Scale(big.NewInt(64), i), bitLen(a)), Eq(app, I(0)))}
	}
}

// mergePows combines the powers of one base among the factors of a product.
func mergePows(as []*Term) []*Term {
	any := false
	for _, a := range as {
		if isIPow(a) && nonnegC(a.args[1]) {
			any = true
		}
	}
	if !any {
		return as
	}
	return powers(as)
}

func powers(as []*Term) []*Term {
	exp := map[*Term]*Term{}
	var order []*Term
	for _, a := range as {
		b, e := a, I(1)
		if isIPow(a) && nonnegC(a.args[1]) {
			b, e = a.args[0], a.args[1]
		}
		if p, ok := exp[b]; ok {
			exp[b] = Add(p, e)
		} else {
			exp[b] = e
			order = append(order, b)
		}
	}
	var out []*Term
	for _, b := range order {
		out = append(out, IPow(b, exp[b]))
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// factors of a monomial with coefficient one, as base -> exponent.
func factors(t *Term) (map[*Term]*Term, bool) {
	if t.isC(1) {
		return map[*Term]*Term{}, true
	}
	if t.op == OLin || t.op == OConst {
		return nil, false
	}
	as := []*Term{t}
	if t.op == OMul {
		as = t.args
	}
	m := map[*Term]*Term{}
	for _, a := range as {
		b, e := a, I(1)
		if isIPow(a) && nonnegC(a.args[1]) {
			b, e = a.args[0], a.args[1]
		}
		if p, ok := m[b]; ok {
			e = Add(p, e)
		}
		m[b] = e
	}
	return m, true
}

// stripCtx supplies the signs of exponents while it is set.
var stripCtx *Ctx

func nonnegC(t *Term) bool {
	if nonneg(t) {
		return true
	}
	if stripCtx == nil {
		return false
	}
	lo, _ := stripCtx.Rng(t)
	return lo != nil && lo.Sign() >= 0
}

func withCtx(c *Ctx, f func() *Term) *Term {
	sv, sm := stripCtx, stripMemo
	stripCtx, stripMemo = c, map[stripKey]*Term{}
	defer func() { stripCtx, stripMemo = sv, sm }()
	return f()
}

type stripKey struct{ t, m *Term }

var stripMemo = map[stripKey]*Term{}

// modStrip gives a term congruent to t modulo m without inner reductions.
func modStrip(t, m *Term) *Term {
	switch t.op {
	case OMod, OMul, OLin, OIte, OApp:
	default:
		return t
	}
	if t.op == OApp && !isIPow(t) {
		return t
	}
	k := stripKey{t, m}
	if r, ok := stripMemo[k]; ok {
		return r
	}
	r := modStrip1(t, m)
	stripMemo[k] = r
	return r
}

func modStrip1(t, m *Term) *Term {
	switch t.op {
	case OMod:
		if t.args[1].isConst() && t.args[1].k.Sign() > 0 && new(big.Int).Mod(t.args[1].k, m.k).Sign() == 0 {
			return modStrip(t.args[0], m)
		}
	case OMul:
		ch := false
		p := I(1)
		for _, a := range t.args {
			b := modStrip(a, m)
			ch = ch || b != a
			p = Mul(p, b)
		}
		if ch {
			return modStrip(p, m)
		}
		for i := 1; i < len(t.args); i++ {
			if t.args[i] == t.args[i-1] {
				as := powers(t.args)
				if len(as) == 1 {
					return as[0]
				}
				return mk(&Term{op: OMul, args: as})
			}
		}
	case OLin:
		ch := false
		s := Num(t.k)
		for i, a := range t.args {
			b := modStrip(a, m)
			ch = ch || b != a
			s = Add(s, Scale(t.coef[i], b))
		}
		if ch {
			return s
		}
	case OApp:
		if b := modStrip(t.args[0], m); b != t.args[0] && nonnegC(t.args[1]) {
			return IPow(b, t.args[1])
		}
	case OIte:
		a, b := modStrip(t.args[1], m), modStrip(t.args[2], m)
		fa, ok1 := factors(a)
		fb, ok2 := factors(b)
		if ok1 && ok2 && len(fa)+len(fb) > 0 && (subset(fa, fb) || subset(fb, fa)) {
			p := I(1)
			var bases []*Term
			for x := range fa {
				bases = append(bases, x)
			}
			for x := range fb {
				if fa[x] == nil {
					bases = append(bases, x)
				}
			}
			sort.Slice(bases, func(i, j int) bool { return bases[i].id < bases[j].id })
			for _, x := range bases {
				e1, e2 := fa[x], fb[x]
				if e1 == nil {
					e1 = I(0)
				}
				if e2 == nil {
					e2 = I(0)
				}
				p = Mul(p, IPow(x, Ite(t.args[0], e1, e2)))
			}
			return p
		}
		if a != t.args[1] || b != t.args[2] {
			return Ite(t.args[0], a, b)
		}
	}
	return t
}

func subset(a, b map[*Term]*Term) bool {
	for x := range a {
		if b[x] == nil {
			return false
		}
	}
	return true
}

func hasPow(t *Term) bool {
	switch t.op {
	case OApp:
		return isIPow(t)
	case OMul, OLin:
		for _, a := range t.args {
			if hasPow(a) {
				return true
			}
		}
	}
	return false
}
