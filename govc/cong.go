package main

import (
	"fmt"
	"math/big"
)

// Congruences modulo a symbolic modulus.

// stripSym gives a term congruent to t modulo m: inner reductions modulo m are
// undone, multiples of m dropped, and equal branches joined.
func stripSym(t, m *Term) *Term {
	if t == m {
		return I(0)
	}
	switch t.op {
	case OMod, OMul, OLin, OIte:
	default:
		return t
	}
	k := stripKey{t, m}
	if r, ok := stripMemo[k]; ok {
		return r
	}
	r := stripSym1(t, m)
	stripMemo[k] = r
	return r
}

func stripSym1(t, m *Term) *Term {
	switch t.op {
	case OMod:
		if t.args[1] == m {
			return stripSym(t.args[0], m)
		}
	case OMul:
		p := I(1)
		for _, a := range t.args {
			p = Mul(p, stripSym(a, m))
		}
		if p != t {
			return stripSym(p, m)
		}
	case OLin:
		ch := false
		s := Num(t.k)
		for i, a := range t.args {
			b := stripSym(a, m)
			ch = ch || b != a
			s = Add(s, Scale(t.coef[i], b))
		}
		if ch {
			return stripSym(s, m)
		}
	case OIte:
		a, b := stripSym(t.args[1], m), stripSym(t.args[2], m)
		if a == b {
			return a
		}
		if a != t.args[1] || b != t.args[2] {
			return Ite(t.args[0], a, b)
		}
	}
	return t
}

// monomial: the factors of an atom of a linear term.
func monomial(t *Term) []*Term {
	if t.op == OMul {
		return t.args
	}
	return []*Term{t}
}

// divides: the factors of a without those of b.
func divides(b, a *Term) ([]*Term, bool) {
	var rest []*Term
	bs := monomial(b)
	i := 0
	for _, x := range monomial(a) { // both sorted by id
		if i < len(bs) && bs[i] == x {
			i++
		} else {
			rest = append(rest, x)
		}
	}
	return rest, i == len(bs)
}

// lead: the monomial a fact is used to eliminate.
func lead(p *Term) int {
	_, as, _ := linParts(p)
	best := -1
	for i, a := range as {
		if best < 0 {
			best = i
			continue
		}
		x, y := monomial(a), monomial(as[best])
		lx, ly := x[len(x)-1].id, y[len(y)-1].id
		if lx > ly || lx == ly && len(x) > len(y) {
			best = i
		}
	}
	return best
}

func conjuncts(t *Term, out []*Term) []*Term {
	if t.op == OAnd {
		for _, a := range t.args {
			out = conjuncts(a, out)
		}
		return out
	}
	return append(out, t)
}

// congGoal: g is an equation between remainders modulo the same symbolic term.
func congGoal(g *Term) *Term {
	if g.op != OEq {
		return nil
	}
	e := g.args[0]
	k, as, co := linParts(e)
	if k.Sign() != 0 || len(as) == 0 || len(as) > 2 {
		return nil
	}
	var m *Term
	for _, a := range as {
		if a.op != OMod || a.args[1].isConst() || m != nil && m != a.args[1] {
			return nil
		}
		m = a.args[1]
	}
	if len(as) == 2 && co[0].Cmp(co[1]) == 0 {
		return nil
	}
	if len(as) == 2 && (co[0].CmpAbs(bi1) != 0 || co[1].CmpAbs(bi1) != 0) {
		return nil
	}
	return m
}

func isCong(g *Term) bool {
	for _, x := range conjuncts(g, nil) {
		if congGoal(x) == nil {
			return false
		}
	}
	return true
}

// congFacts: what is known to vanish modulo m.
func congFacts(c *Ctx, m *Term) []*Term {
	var fs, pending []*Term
	var diseqs []*Term
	seen := map[*Term]bool{}
	var scan func(f *Term)
	scan = func(f *Term) {
		switch f.op {
		case OAnd:
			for _, a := range f.args {
				scan(a)
			}
		case OOr:
			var left []*Term
			for _, a := range f.args {
				if v, ok := c.Truth(a); !ok || v {
					left = append(left, a)
				}
			}
			if len(left) == 1 {
				scan(left[0])
			} else {
				pending = append(pending, Or(left...))
			}
		case OEq:
			if q := stripSym(c.Simp(f.args[0]), m); !q.isConst() && !seen[q] {
				seen[q] = true
				fs = append(fs, q)
			}
		case ONot:
			if e := f.args[0]; e.op == OEq && congGoal(e) == m {
				diseqs = append(diseqs, stripSym(e.args[0], m))
			}
		}
	}
	for _, f := range c.Facts() {
		scan(f)
	}
	if len(diseqs) == 0 {
		return fs
	}
	// equations that would make a disequation fail do not hold
	refuted := func(t *Term) bool {
		if t.op != OEq {
			return false
		}
		z := stripSym(c.Simp(t.args[0]), m)
		with := append([]*Term{z}, fs...)
		for _, d := range diseqs {
			if reducesToZero(d, with) {
				return true
			}
		}
		return false
	}
	for changed := true; changed; {
		changed = false
		ps := pending
		pending = nil
		for _, f := range ps {
			if f.op != OOr {
				continue
			}
			var left []*Term
			for _, a := range f.args {
				if !refuted(a) {
					left = append(left, a)
				}
			}
			if len(left) == 1 {
				n := len(fs)
				scan(left[0])
				changed = changed || len(fs) > n
			} else {
				pending = append(pending, f)
			}
		}
	}
	return fs
}

// congProves decides an equation of remainders by rewriting the difference
// with the equations among the facts.
func congProves(c *Ctx, g *Term) bool {
	for _, x := range conjuncts(g, nil) {
		if x.op == OOr {
			ok := false
			for i, d := range x.args {
				e := c
				for j, o := range x.args {
					if j != i {
						e = e.Assume(Not(o))
					}
				}
				if ok = e.dead || isCong(d) && congProves(e, e.Simp(d)); ok {
					break
				}
			}
			if !ok {
				return false
			}
			continue
		}
		m := congGoal(x)
		if m == nil {
			return false
		}
		p := stripSym(x.args[0], m)
		if p.isC(0) {
			continue
		}
		fs := congFacts(c, m)
		if !reducesToZero(p, fs) {
			if os_debug {
				fmt.Fprintln(os2, "   congruence not shown:", p)
				for _, f := range fs {
					fmt.Fprintln(os2, "      fact:", f)
				}
			}
			return false
		}
	}
	return true
}

// rule rewrites a monomial with an equation.
type rule struct {
	p    *Term
	lead int
}

// solvable: an atom the equation determines.
func solvable(p *Term) int {
	_, as, co := linParts(p)
	best := -1
	for i, a := range as {
		if a.op == OMul || co[i].CmpAbs(bi1) != 0 || best >= 0 && as[best].id > a.id {
			continue
		}
		ok := true
		for j, b := range as {
			if j != i {
				if _, d := divides(a, b); d {
					ok = false
				}
			}
		}
		if ok {
			best = i
		}
	}
	return best
}

func reducesToZero(p *Term, fs []*Term) bool {
	left := append([]*Term{}, fs...)
	for n := 0; n < len(left); n++ {
		at := -1
		for i := n; i < len(left); i++ {
			if solvable(left[i]) >= 0 {
				at = i
				break
			}
		}
		if at < 0 {
			break
		}
		left[n], left[at] = left[at], left[n]
		r := []rule{{left[n], solvable(left[n])}}
		for i := range left {
			if i != n {
				left[i] = reduce(left[i], r)
			}
		}
		p = reduce(p, r)
	}
	var rs []rule
	for _, f := range left {
		if !f.isConst() {
			rs = append(rs, rule{f, lead(f)})
		}
	}
	return reduce(p, rs).isC(0)
}

// reduce is polynomial division.
func reduce(p *Term, fs []rule) *Term {
	for step := 0; step < 4000 && !p.isConst(); step++ {
		_, as, co := linParts(p)
		done := true
	search:
		for i := len(as) - 1; i >= 0; i-- {
			for _, f := range fs {
				_, fa, fc := linParts(f.p)
				rest, ok := divides(fa[f.lead], as[i])
				if !ok {
					continue
				}
				q, r := new(big.Int).QuoRem(co[i], fc[f.lead], new(big.Int))
				if r.Sign() != 0 {
					continue
				}
				t := Scale(q, f.p)
				for _, x := range rest {
					t = Mul(t, x)
				}
				p = Sub(p, t)
				done = false
				break search
			}
		}
		if done {
			break
		}
	}
	return p
}
