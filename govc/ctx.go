package main

import "math/big"

// Ctx is a persistent list of facts with derived literal values and bounds.
type Ctx struct {
	parent *Ctx
	fact   *Term
	depth  int
	dead   bool
	lits   map[*Term]bool
	bnd    map[*Term][2]*big.Int
	memo   map[*Term]*Term
	tmemo  map[*Term]int8
	rmemo  map[rkey][2]*big.Int
	guard  *Term // this fact is a path condition (as opposed to an assumption)
}

func NewCtx() *Ctx { return &Ctx{} }

func (c *Ctx) lit(t *Term) (bool, bool) {
	for p := c; p != nil; p = p.parent {
		if v, ok := p.lits[t]; ok {
			return v, true
		}
	}
	return false, false
}

func (c *Ctx) bounds(t *Term) (lo, hi *big.Int) {
	lo, hi = t.lo, t.hi
	for p := c; p != nil; p = p.parent {
		if b, ok := p.bnd[t]; ok {
			// nearest node has the tightest bounds
			if b[0] != nil && (lo == nil || b[0].Cmp(lo) > 0) {
				lo = b[0]
			}
			if b[1] != nil && (hi == nil || b[1].Cmp(hi) < 0) {
				hi = b[1]
			}
			break
		}
	}
	return
}

func shapeOf(t *Term) (*Term, *big.Int, bool) { // t = ±shape + k, returns shape, k, negated
	if t.op != OLin {
		return t, bi0, false
	}
	if len(t.args) == 1 {
		return t.args[0], t.k, false // coef handled by caller
	}
	neg := t.coef[0].Sign() < 0
	l := newAcc()
	for i, a := range t.args {
		co := t.coef[i]
		if neg {
			co = new(big.Int).Neg(co)
		}
		l.m[a] = co
	}
	// bypass digit merging: already normal
	return l.term(), t.k, neg
}

// Rng: interval of t under the context.
func (c *Ctx) Rng(t *Term) (lo, hi *big.Int) {
	return c.rng(t, 4)
}

type rkey struct {
	t *Term
	d int
}

func (c *Ctx) rng(t *Term, d int) (lo, hi *big.Int) {
	if t.op == OConst {
		return t.k, t.k
	}
	if t.op == OVar {
		return c.bounds(t)
	}
	k := rkey{t, d}
	if r, ok := c.rmemo[k]; ok {
		return r[0], r[1]
	}
	lo, hi = c.rng1(t, d)
	if c.rmemo == nil {
		c.rmemo = map[rkey][2]*big.Int{}
	}
	c.rmemo[k] = [2]*big.Int{lo, hi}
	return
}

func (c *Ctx) rng1(t *Term, d int) (lo, hi *big.Int) {
	switch t.op {
	case OConst:
		return t.k, t.k
	case OLin:
		lo, hi = t.k, t.k
		for i, a := range t.args {
			l, h := c.rng(a, d-1)
			l, h = scaleI(t.coef[i], l, h)
			lo, hi = addB(lo, l), addB(hi, h)
		}
		if len(t.args) > 1 {
			s, k, neg := shapeOf(t)
			l, h := c.bounds(s)
			if neg {
				l, h = scaleI(biM1, l, h)
			}
			l, h = addB(l, k), addB(h, k)
			if l != nil && (lo == nil || l.Cmp(lo) > 0) {
				lo = l
			}
			if h != nil && (hi == nil || h.Cmp(hi) < 0) {
				hi = h
			}
		}
		return
	}
	lo, hi = c.bounds(t)
	if d <= 0 {
		return
	}
	tight := func(l, h *big.Int) {
		if l != nil && (lo == nil || l.Cmp(lo) > 0) {
			lo = l
		}
		if h != nil && (hi == nil || h.Cmp(hi) < 0) {
			hi = h
		}
	}
	switch t.op {
	case OIte:
		if v, ok := c.lit(t.args[0]); ok {
			if v {
				tight(c.rng(t.args[1], d-1))
			} else {
				tight(c.rng(t.args[2], d-1))
			}
		} else {
			l1, h1 := c.rng(t.args[1], d-1)
			l2, h2 := c.rng(t.args[2], d-1)
			tight(minB(l1, l2), maxB(h1, h2))
		}
	case OMul:
		l, h := bi1, bi1
		for _, a := range t.args {
			al, ah := c.rng(a, d-1)
			l, h = mulI(l, h, al, ah)
		}
		tight(l, h)
	case OApp:
		if t.name == "bitlen" {
			l, h := c.rng(t.args[0], d-1)
			if l != nil && l.Sign() > 0 {
				tight(big.NewInt(int64(l.BitLen())), nil)
			}
			if h != nil && h.Sign() >= 0 {
				tight(nil, big.NewInt(int64(h.BitLen())))
			}
		}
	case ODiv:
		if t.args[1].isConst() && t.args[1].k.Sign() > 0 {
			l, h := c.rng(t.args[0], d-1)
			if l != nil {
				l = floorDiv(l, t.args[1].k)
			}
			if h != nil {
				h = floorDiv(h, t.args[1].k)
			}
			tight(l, h)
		}
	case OMod:
		if t.args[1].isConst() && t.args[1].k.Sign() > 0 {
			l, h := c.rng(t.args[0], d-1)
			if l != nil && h != nil {
				m := t.args[1].k
				ql, qh := floorDiv(l, m), floorDiv(h, m)
				if ql.Cmp(qh) == 0 {
					q := new(big.Int).Mul(ql, m)
					tight(new(big.Int).Sub(l, q), new(big.Int).Sub(h, q))
				}
			}
		}
	}
	return
}

// Truth decides a boolean under the context without a solver.
func (c *Ctx) Truth(t *Term) (bool, bool) {
	switch t.op {
	case OTrue:
		return true, true
	case OFalse:
		return false, true
	}
	if m, ok := c.tmemo[t]; ok {
		return m == 1, m != 0
	}
	v, ok := c.truth1(t)
	if c.tmemo == nil {
		c.tmemo = map[*Term]int8{}
	}
	m := int8(0)
	if ok {
		m = 2
		if v {
			m = 1
		}
	}
	c.tmemo[t] = m
	return v, ok
}

func (c *Ctx) truth1(t *Term) (bool, bool) {
	if v, ok := c.lit(t); ok {
		return v, true
	}
	switch t.op {
	case OLe:
		lo, hi := c.Rng(t.args[0])
		if hi != nil && hi.Sign() <= 0 {
			return true, true
		}
		if lo != nil && lo.Sign() > 0 {
			return false, true
		}
	case OEq:
		lo, hi := c.Rng(t.args[0])
		if lo != nil && hi != nil && lo.Sign() == 0 && hi.Sign() == 0 {
			return true, true
		}
		if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
			return false, true
		}
	case ONot:
		v, ok := c.Truth(t.args[0])
		return !v, ok
	case OAnd:
		all := true
		for _, a := range t.args {
			v, ok := c.Truth(a)
			if ok && !v {
				return false, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return true, true
		}
	case OOr:
		all := true
		for _, a := range t.args {
			v, ok := c.Truth(a)
			if ok && v {
				return true, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return false, true
		}
	}
	return false, false
}

// Simp rewrites t using the facts of the context.
func (c *Ctx) Simp(t *Term) *Term {
	if len(t.args) == 0 && !(t.op == OVar) {
		return t
	}
	if c.memo == nil {
		c.memo = map[*Term]*Term{}
	}
	if r, ok := c.memo[t]; ok {
		return r
	}
	r := c.simp1(t)
	c.memo[t] = r
	return r
}

func (c *Ctx) simp1(t *Term) *Term {
	if t.isBool {
		if v, ok := c.Truth(t); ok {
			return B(v)
		}
		switch t.op {
		case OVar:
			return t
		case OIte:
			cc := c.Simp(t.args[0])
			if cc == True {
				return c.Simp(t.args[1])
			}
			if cc == False {
				return c.Simp(t.args[2])
			}
		}
		ch := false
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			if t.op == OForall && i == 0 {
				as[i] = a
				continue
			}
			as[i] = c.Simp(a)
			if as[i] != a {
				ch = true
			}
		}
		if !ch {
			return t
		}
		n := rebuild(t, as)
		if n != t {
			if v, ok := c.Truth(n); ok {
				return B(v)
			}
		}
		return n
	}
	// ints
	if t.op == OVar || t.op == OApp || t.op == ODiv || t.op == OMod || t.op == OBand {
		lo, hi := c.bounds(t)
		if lo != nil && hi != nil && lo.Cmp(hi) == 0 {
			return Num(lo)
		}
	}
	if t.op == OVar {
		return t
	}
	if t.op == OIte {
		cc := c.Simp(t.args[0])
		if cc == True {
			return c.Simp(t.args[1])
		}
		if cc == False {
			return c.Simp(t.args[2])
		}
		a, b := c.Simp(t.args[1]), c.Simp(t.args[2])
		if b.isConst() && b.k.Sign() == 0 && cc.op == OLe {
			q := a
			if q.op == OMod {
				q = q.args[0]
			}
			if q.op == ODiv && q.args[1].isConst() && q.args[1].k.Sign() > 0 && Ge(q.args[0], q.args[1]) == cc {
				if lo, _ := c.Rng(q.args[0]); lo != nil && lo.Sign() >= 0 {
					return a // the quotient is 0 below the divisor
				}
			}
		}
		return Ite(cc, a, b)
	}
	as := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		as[i] = c.Simp(a)
		if as[i] != a {
			ch = true
		}
	}
	n := t
	if ch {
		n = rebuild(t, as)
	}
	if n.op == OMod && n.args[1].isConst() && n.args[1].k.BitLen() > 65 && hasPow(n.args[0]) {
		n = withCtx(c, func() *Term { return Mod(n.args[0], n.args[1]) })
	}
	if (n.op == OMod || n.op == ODiv) && n.args[1].isConst() && n.args[1].k.Sign() > 0 {
		lo, hi := c.Rng(n.args[0])
		if lo != nil && hi != nil {
			m := n.args[1].k
			ql, qh := floorDiv(lo, m), floorDiv(hi, m)
			if ql.Cmp(qh) == 0 {
				if n.op == ODiv {
					return Num(ql)
				}
				return Sub(n.args[0], Num(new(big.Int).Mul(ql, m)))
			}
		}
	}
	return n
}

// Assume adds a fact.
func (c *Ctx) Assume(f *Term) *Ctx { return c.assume(f, false) }

// Guard adds a path condition.
func (c *Ctx) Guard(f *Term) *Ctx { return c.assume(f, true) }

func (c *Ctx) assume(f *Term, guard bool) *Ctx {
	if c.dead {
		return c
	}
	f = c.Simp(f)
	if f == True {
		return c
	}
	if f == False {
		return &Ctx{parent: c, fact: False, depth: c.depth + 1, dead: true}
	}
	if f.op == OAnd {
		for _, a := range f.args {
			c = c.assume(a, guard)
		}
		return c
	}
	n := &Ctx{parent: c, fact: f, depth: c.depth + 1, lits: map[*Term]bool{}, bnd: map[*Term][2]*big.Int{}}
	if guard {
		n.guard = f
	}
	n.derive(f)
	// what was memoised while the node was being built knows only part of f
	n.memo, n.tmemo, n.rmemo = nil, nil, nil
	if n.dead {
		n.fact = False
	}
	return n
}

func (n *Ctx) derive(f *Term) {
	n.lits[f] = true
	nf := Not(f)
	n.lits[nf] = false
	if f.op == ONot {
		n.lits[f.args[0]] = false
	}
	switch f.op {
	case OLe:
		n.prop(f.args[0], true, false, 3)
	case OEq:
		n.prop(f.args[0], true, true, 3)
	case ONot:
		g := f.args[0]
		if g.op == OEq {
			// x != k at an interval end tightens
			t := g.args[0]
			lo, hi := n.Rng(t)
			if lo != nil && lo.Sign() == 0 {
				n.prop(Scale(biM1, Sub(t, I(1))), true, false, 2) // 1 - t <= 0
			} else if hi != nil && hi.Sign() == 0 {
				n.prop(Add(t, I(1)), true, false, 2)
			}
		}
		if g.op == OOr {
			for _, a := range g.args {
				n.derive(Not(a))
			}
		}
	case OAnd:
		for _, a := range f.args {
			n.derive(a)
		}
	case OOr:
		// unit propagation
		var un *Term
		cnt := 0
		for _, a := range f.args {
			v, ok := n.Truth(a)
			if ok && v {
				return
			}
			if !ok {
				un = a
				cnt++
			}
		}
		if cnt == 1 {
			n.derive(un)
		}
	}
}

func (n *Ctx) setBound(t *Term, lo, hi *big.Int) bool {
	cl, ch := n.bounds(t)
	imp := false
	if lo != nil && (cl == nil || lo.Cmp(cl) > 0) {
		cl = lo
		imp = true
	}
	if hi != nil && (ch == nil || hi.Cmp(ch) < 0) {
		ch = hi
		imp = true
	}
	if imp {
		n.bnd[t] = [2]*big.Int{cl, ch}
		if cl != nil && ch != nil && cl.Cmp(ch) > 0 {
			n.dead = true
		}
	}
	return imp
}

// prop: lin <= 0 (and >= 0 when eq).
func (n *Ctx) prop(t *Term, le, eq bool, d int) {
	if d <= 0 || n.dead {
		return
	}
	k, as, co := linParts(t)
	if len(as) == 0 {
		if k.Sign() > 0 || eq && k.Sign() != 0 {
			n.dead = true
		}
		return
	}
	if len(as) > 1 {
		s, k, neg := shapeOf(t)
		nk := new(big.Int).Neg(k)
		// ±s + k <= 0
		if !neg {
			var lo *big.Int
			if eq {
				lo = nk
			}
			n.setBound(s, lo, nk)
		} else {
			var hi *big.Int
			if eq {
				hi = k
			}
			n.setBound(s, k, hi)
		}
	}
	for i, a := range as {
		// co*a <= -k - sum_{j!=i} co_j a_j  ; upper bound uses min of rest
		lo, hi := k, k
		for j, b := range as {
			if j == i {
				continue
			}
			l, h := n.rng(b, 2)
			l, h = scaleI(co[j], l, h)
			lo, hi = addB(lo, l), addB(hi, h)
		}
		var alo, ahi *big.Int
		if lo != nil {
			r := new(big.Int).Neg(lo) // co*a <= r
			if co[i].Sign() > 0 {
				ahi = floorDiv(r, co[i])
			} else {
				// a >= ceil(r/co) ; co<0: a >= -(r)/|co| -> ceil(-r/|co|)
				ac := new(big.Int).Neg(co[i])
				alo = new(big.Int).Neg(floorDiv(r, ac))
			}
		}
		if eq && hi != nil {
			r := new(big.Int).Neg(hi) // co*a >= r
			if co[i].Sign() > 0 {
				l := new(big.Int).Neg(floorDiv(new(big.Int).Neg(r), co[i]))
				alo = l
			} else {
				ac := new(big.Int).Neg(co[i])
				h := floorDiv(new(big.Int).Neg(r), ac)
				ahi = h
			}
		}
		if n.setBound(a, alo, ahi) {
			n.back(a, d-1)
		}
	}
}

// back propagates bounds of a composite atom to its arguments.
func (n *Ctx) back(a *Term, d int) {
	if d <= 0 || n.dead {
		return
	}
	lo, hi := n.bounds(a)
	switch a.op {
	case ODiv:
		if a.args[1].isConst() && a.args[1].k.Sign() > 0 {
			m := a.args[1].k
			if hi != nil {
				b := new(big.Int).Mul(hi, m)
				b.Add(b, m)
				b.Sub(b, bi1)
				n.prop(Sub(a.args[0], Num(b)), true, false, d)
			}
			if lo != nil {
				n.prop(Sub(Num(new(big.Int).Mul(lo, m)), a.args[0]), true, false, d)
			}
		}
	case OIte:
		// prune branch
		if v, ok := n.lit(a.args[0]); ok {
			b := a.args[2]
			if v {
				b = a.args[1]
			}
			if hi != nil {
				n.prop(Sub(b, Num(hi)), true, false, d)
			}
			if lo != nil {
				n.prop(Sub(Num(lo), b), true, false, d)
			}
			return
		}
		l1, h1 := n.rng(a.args[1], 2)
		if hi != nil && l1 != nil && l1.Cmp(hi) > 0 || lo != nil && h1 != nil && h1.Cmp(lo) < 0 {
			n.derive(Not(a.args[0]))
		}
		l2, h2 := n.rng(a.args[2], 2)
		if hi != nil && l2 != nil && l2.Cmp(hi) > 0 || lo != nil && h2 != nil && h2.Cmp(lo) < 0 {
			n.derive(a.args[0])
		}
	}
}

// Facts from root to c.
func (c *Ctx) Facts() []*Term {
	var r []*Term
	for p := c; p != nil; p = p.parent {
		if p.fact != nil {
			r = append(r, p.fact)
		}
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// Common ancestor.
func commonCtx(a, b *Ctx) *Ctx {
	for a != b {
		if a.depth > b.depth {
			a = a.parent
		} else if b.depth > a.depth {
			b = b.parent
		} else {
			a, b = a.parent, b.parent
		}
	}
	return a
}

// suffix: conjunction of facts of c after ancestor anc.
func (c *Ctx) suffix(anc *Ctx) (guards, assumes []*Term) {
	for p := c; p != anc; p = p.parent {
		if p.fact != nil {
			if p.guard != nil || p.dead {
				guards = append(guards, p.fact)
			} else {
				assumes = append(assumes, p.fact)
			}
		}
	}
	for i, j := 0, len(guards)-1; i < j; i, j = i+1, j-1 {
		guards[i], guards[j] = guards[j], guards[i]
	}
	for i, j := 0, len(assumes)-1; i < j; i, j = i+1, j-1 {
		assumes[i], assumes[j] = assumes[j], assumes[i]
	}
	return
}

// propagate resolves the disjunctions about x which c has decided but for one case.
func (c *Ctx) propagate(x *Term) *Ctx {
	for _, f := range c.Facts() {
		if f.op != OOr || len(f.args) > 8 || !occurs(f, x) {
			continue
		}
		var un *Term
		cnt := 0
		for _, a := range f.args {
			v, ok := c.Truth(a)
			if ok && !v {
				continue
			}
			cnt++
			un = a
			if ok {
				cnt = 2
			}
		}
		if cnt == 1 {
			c = c.Assume(un)
		}
	}
	return c
}

// speaksOf: some fact mentions a part of t.
func (c *Ctx) speaksOf(t *Term) bool {
	parts := map[*Term]bool{}
	var collect func(t *Term)
	collect = func(t *Term) {
		if parts[t] || t.op == OConst {
			return
		}
		parts[t] = true
		for _, a := range t.args {
			collect(a)
		}
	}
	collect(t)
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if parts[t] && (t.op == OVar || t.op == OApp || t.op == OMod || t.op == ODiv) {
			return true
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	for _, f := range c.Facts() {
		if rec(f) {
			return true
		}
	}
	return false
}
