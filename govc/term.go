package main

import (
	"encoding/binary"
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Terms are hash-consed and kept in a strong normal form: integer terms are
// linear combinations over atoms, comparisons are "lin = 0" or "lin <= 0".
// All integers are mathematical; machine arithmetic is explicit Mod/Div.

type Op uint8

const (
	OConst Op = iota
	OTrue
	OFalse
	OVar    // Int or Bool
	OApp    // uninterpreted, Int or Bool
	OLin    // k + sum coef*args
	OMul    // nonlinear monomial: product of >= 2 atoms
	ODiv    // floor division args[0] / args[1]
	OMod    // floor modulo
	OXor    // bitwise xor of non-negative 64-bit values (n-ary)
	OBand   // bitwise and of non-negative values (n-ary)
	OIte    // Int or Bool
	OEq     // lin == 0 (Bool)
	OLe     // lin <= 0 (Bool)
	ONot    //
	OAnd    //
	OOr     //
	OForall // args[0]=bound var, args[1]=body
)

type Term struct {
	id     int
	op     Op
	isBool bool
	hasIte bool
	mb     int // 1 + largest bound-variable index occurring free, 0 if none
	hasQ   bool
	name   string
	k      *big.Int
	args   []*Term
	coef   []*big.Int
	lo, hi *big.Int
	tz     int // known number of trailing zero bits (Int terms), capped at 4096
}

var (
	bi0   = big.NewInt(0)
	bi1   = big.NewInt(1)
	biM1  = big.NewInt(-1)
	bi2   = big.NewInt(2)
	termT = map[string]*Term{}
	terms []*Term
	True  = mk(&Term{op: OTrue, isBool: true})
	False = mk(&Term{op: OFalse, isBool: true})
)

// distributeBits controls pushing byte extraction through xor/and.
var distributeBits = true

func pow2(n int) *big.Int { return new(big.Int).Lsh(bi1, uint(n)) }

func isPow2(x *big.Int) (int, bool) {
	if x.Sign() <= 0 {
		return 0, false
	}
	n := x.BitLen() - 1
	if int(x.TrailingZeroBits()) == n {
		return n, true
	}
	return 0, false
}

// divsOf lists the quotients by powers of 256 that were built of a term.
var divsOf = map[*Term][]*Term{}

func mk(t *Term) *Term {
	var b []byte
	b = append(b, byte(t.op))
	if t.isBool {
		b = append(b, 1)
	} else {
		b = append(b, 0)
	}
	if t.name != "" {
		b = append(b, t.name...)
	}
	b = append(b, 0)
	if t.k != nil {
		if t.k.Sign() < 0 {
			b = append(b, '-')
		}
		kb := t.k.Bytes()
		b = binary.AppendUvarint(b, uint64(len(kb)))
		b = append(b, kb...)
	}
	b = append(b, 0xfe)
	for i, a := range t.args {
		b = binary.AppendUvarint(b, uint64(a.id))
		if t.coef != nil {
			c := t.coef[i]
			if c.Sign() < 0 {
				b = append(b, '-')
			} else {
				b = append(b, '+')
			}
			cb := c.Bytes()
			b = binary.AppendUvarint(b, uint64(len(cb)))
			b = append(b, cb...)
		}
	}
	key := string(b)
	if x, ok := termT[key]; ok {
		return x
	}
	t.id = len(terms)
	if t.op == ODiv && t.args[1].isConst() {
		if n, ok := isPow2(t.args[1].k); ok && n%8 == 0 {
			divsOf[t.args[0]] = append(divsOf[t.args[0]], t)
		}
	}
	for _, a := range t.args {
		if a.hasIte {
			t.hasIte = true
		}
		if a.mb > t.mb {
			t.mb = a.mb
		}
		if a.hasQ {
			t.hasQ = true
		}
	}
	if t.op == OIte {
		t.hasIte = true
	}
	if t.op == OForall {
		t.hasQ = true
		t.mb = bodyOuter(t.args[1], t.args[0])
	}
	if !t.isBool {
		t.interval()
	}
	terms = append(terms, t)
	termT[key] = t
	return t
}

// bodyOuter: 1+largest bound index free in body other than bv.
func bodyOuter(body, bv *Term) int {
	m := 0
	var scan func(body *Term, bvs []*Term)
	scan = func(body *Term, bvs []*Term) {
		seen := map[int]bool{}
		var rec func(t *Term)
		rec = func(t *Term) {
			if t.mb <= m || seen[t.id] {
				return
			}
			seen[t.id] = true
			if t.op == OVar {
				for _, v := range bvs {
					if t == v {
						return
					}
				}
				if t.mb > m {
					m = t.mb
				}
				return
			}
			if t.op == OForall {
				scan(t.args[1], append(bvs[:len(bvs):len(bvs)], t.args[0]))
				return
			}
			for _, a := range t.args {
				rec(a)
			}
		}
		rec(body)
	}
	scan(body, []*Term{bv})
	return m
}

func addB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	return new(big.Int).Add(a, b)
}
func minB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

// scale interval by c
func scaleI(c, lo, hi *big.Int) (*big.Int, *big.Int) {
	var l, h *big.Int
	if lo != nil {
		l = new(big.Int).Mul(c, lo)
	}
	if hi != nil {
		h = new(big.Int).Mul(c, hi)
	}
	if c.Sign() < 0 {
		return h, l
	}
	return l, h
}

func floorDiv(a, b *big.Int) *big.Int { // b>0
	q, m := new(big.Int), new(big.Int)
	q.DivMod(a, b, m)
	return q
}

func (t *Term) interval() {
	switch t.op {
	case OConst:
		t.lo, t.hi = t.k, t.k
		if t.k.Sign() == 0 {
			t.tz = 4096
		} else {
			t.tz = int(t.k.TrailingZeroBits())
		}
	case OLin:
		lo, hi := t.k, t.k
		tz := 4096
		if t.k.Sign() != 0 {
			tz = int(t.k.TrailingZeroBits())
		}
		for i, a := range t.args {
			l, h := scaleI(t.coef[i], a.lo, a.hi)
			lo, hi = addB(lo, l), addB(hi, h)
			z := int(t.coef[i].TrailingZeroBits()) + a.tz
			if z < tz {
				tz = z
			}
		}
		t.lo, t.hi, t.tz = lo, hi, tz
	case OMul:
		lo, hi := bi1, bi1
		tz := 0
		for _, a := range t.args {
			tz += a.tz
			lo, hi = mulI(lo, hi, a.lo, a.hi)
		}
		// even power of a single atom is non-negative
		if len(t.args)%2 == 0 {
			same := true
			for _, a := range t.args {
				if a != t.args[0] {
					same = false
				}
			}
			if same && (lo == nil || lo.Sign() < 0) {
				lo = bi0
			}
		}
		if tz > 4096 {
			tz = 4096
		}
		t.lo, t.hi, t.tz = lo, hi, tz
	case ODiv:
		x, y := t.args[0], t.args[1]
		if y.op == OConst && y.k.Sign() > 0 {
			if x.lo != nil {
				t.lo = floorDiv(x.lo, y.k)
			}
			if x.hi != nil {
				t.hi = floorDiv(x.hi, y.k)
			}
			if n, ok := isPow2(y.k); ok && x.tz > n {
				t.tz = x.tz - n
			}
		} else if x.lo != nil && x.lo.Sign() >= 0 && y.lo != nil && y.lo.Sign() > 0 {
			t.lo = bi0
			t.hi = x.hi
		}
	case OMod:
		x, y := t.args[0], t.args[1]
		if y.lo != nil && y.lo.Sign() > 0 {
			t.lo = bi0
			if y.hi != nil {
				t.hi = new(big.Int).Sub(y.hi, bi1)
			}
			if x.lo != nil && x.lo.Sign() >= 0 && x.hi != nil && (t.hi == nil || x.hi.Cmp(t.hi) < 0) {
				t.hi = x.hi
			}
		}
		if y.op == OConst {
			z := y.tz
			if x.tz < z {
				z = x.tz
			}
			t.tz = z
			if y.k.Sign() > 0 && z > 0 && z < 4000 {
				// largest multiple of 2^z below modulus
				if n, ok := isPow2(y.k); ok && n > z {
					h := new(big.Int).Sub(y.k, pow2(z))
					if t.hi == nil || h.Cmp(t.hi) < 0 {
						t.hi = h
					}
				}
			}
		}
	case OXor:
		m := 0
		tz := 4096
		for _, a := range t.args {
			if a.hi == nil || a.lo == nil || a.lo.Sign() < 0 {
				m = -1
				break
			}
			if a.hi.BitLen() > m {
				m = a.hi.BitLen()
			}
			if a.tz < tz {
				tz = a.tz
			}
		}
		if m >= 0 {
			t.lo = bi0
			t.hi = new(big.Int).Sub(pow2(m), bi1)
			t.tz = tz
		}
	case OBand:
		t.lo = bi0
		for _, a := range t.args {
			if a.lo != nil && a.lo.Sign() >= 0 && a.hi != nil && (t.hi == nil || a.hi.Cmp(t.hi) < 0) {
				t.hi = a.hi
			}
			if a.tz > t.tz {
				t.tz = a.tz
			}
		}
	case OIte:
		a, b := t.args[1], t.args[2]
		t.lo, t.hi = minB(a.lo, b.lo), maxB(a.hi, b.hi)
		t.tz = a.tz
		if b.tz < t.tz {
			t.tz = b.tz
		}
	}
}

func mulI(al, ah, bl, bh *big.Int) (*big.Int, *big.Int) {
	// only handle fully finite or non-negative
	if al != nil && ah != nil && bl != nil && bh != nil {
		p := []*big.Int{new(big.Int).Mul(al, bl), new(big.Int).Mul(al, bh), new(big.Int).Mul(ah, bl), new(big.Int).Mul(ah, bh)}
		lo, hi := p[0], p[0]
		for _, x := range p[1:] {
			lo, hi = minB(lo, x), maxB(hi, x)
		}
		return lo, hi
	}
	if al != nil && al.Sign() >= 0 && bl != nil && bl.Sign() >= 0 {
		return new(big.Int).Mul(al, bl), nil
	}
	return nil, nil
}

// ---------- constructors ----------

func Num(x *big.Int) *Term { return mk(&Term{op: OConst, k: x}) }
func I(x int64) *Term      { return Num(big.NewInt(x)) }
func U64(x uint64) *Term   { return Num(new(big.Int).SetUint64(x)) }
func B(b bool) *Term {
	if b {
		return True
	}
	return False
}

// varBounds: variables of one name with different intervals are different variables.
var varBounds = map[string][2]*big.Int{}

func Var(name string, lo, hi *big.Int) *Term {
	eq := func(a, b *big.Int) bool { return a == b || a != nil && b != nil && a.Cmp(b) == 0 }
	for {
		b, ok := varBounds[name]
		if !ok {
			varBounds[name] = [2]*big.Int{lo, hi}
			break
		}
		if eq(b[0], lo) && eq(b[1], hi) {
			break
		}
		name += "'"
	}
	t := mk(&Term{op: OVar, name: name})
	if t.lo == nil {
		t.lo = lo
	}
	if t.hi == nil {
		t.hi = hi
	}
	return t
}
func BVar(name string) *Term { return mk(&Term{op: OVar, name: name, isBool: true}) }

var nfresh int

func freshName(p string) string {
	nfresh++
	return fmt.Sprintf("%s!%d", p, nfresh)
}

func BoundVar(idx int) *Term {
	t := mk(&Term{op: OVar, name: fmt.Sprintf("?b%d", idx)})
	t.mb = idx + 1
	return t
}

// appRange gives intervals of uninterpreted functions.
var appRange = map[string][2]*big.Int{}

func App(name string, args ...*Term) *Term {
	if f := appSimp[name]; f != nil {
		if t := f(args); t != nil {
			return t
		}
	}
	t := mk(&Term{op: OApp, name: name, args: args})
	if r, ok := appRange[name]; ok && t.lo == nil && t.hi == nil {
		t.lo, t.hi = r[0], r[1]
	}
	return t
}
func AppB(name string, args ...*Term) *Term {
	return mk(&Term{op: OApp, name: name, args: args, isBool: true})
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isC(n int64) bool {
	return t.op == OConst && t.k.IsInt64() && t.k.Int64() == n
}

// appSimp rewrites applications of interpreted function symbols.
var appSimp = map[string]func(args []*Term) *Term{}

// linear accumulator
type linAcc struct {
	k *big.Int
	m map[*Term]*big.Int
}

func newAcc() *linAcc { return &linAcc{k: new(big.Int), m: map[*Term]*big.Int{}} }

func (l *linAcc) add(c *big.Int, t *Term) {
	switch t.op {
	case OConst:
		l.k = new(big.Int).Add(l.k, new(big.Int).Mul(c, t.k))
	case OLin:
		l.k = new(big.Int).Add(l.k, new(big.Int).Mul(c, t.k))
		for i, a := range t.args {
			l.addAtom(new(big.Int).Mul(c, t.coef[i]), a)
		}
	default:
		l.addAtom(c, t)
	}
}
func (l *linAcc) addAtom(c *big.Int, t *Term) {
	if o, ok := l.m[t]; ok {
		s := new(big.Int).Add(o, c)
		if s.Sign() == 0 {
			delete(l.m, t)
		} else {
			l.m[t] = s
		}
	} else if c.Sign() != 0 {
		l.m[t] = c
	}
}

// digit view of an atom: t = Mod(Div(base, a), b); b nil when no modulus.
func digitView(t *Term) (base *Term, a, b *big.Int) {
	a = bi1
	base = t
	if t.op == OMod && t.args[1].isConst() {
		b = t.args[1].k
		base = t.args[0]
	}
	if base.op == ODiv && base.args[1].isConst() {
		a = base.args[1].k
		base = base.args[0]
	}
	return
}

// merge adjacent digits: k*Mod(Div(x,a),b) + k*b*Mod(Div(x,ab),c) = k*Mod(Div(x,a),bc)
// and with Div(x,ab) un-modded = k*Div(x,a).
func (l *linAcc) mergeDigits() bool {
	if len(l.m) < 2 {
		return false
	}
	type dk struct {
		base *Term
	}
	groups := map[*Term][]*Term{}
	var bases []*Term
	for t := range l.m {
		base, a, b := digitView(t)
		_ = a
		if b == nil && t.op != ODiv {
			// a plain atom x is Div(x,1): only useful as upper part, never
			continue
		}
		if len(groups[base]) == 0 {
			bases = append(bases, base)
		}
		groups[base] = append(groups[base], t)
	}
	sort.Slice(bases, func(i, j int) bool { return bases[i].id < bases[j].id })
	for _, base := range bases {
		g := groups[base]
		if len(g) < 2 {
			continue
		}
		sort.Slice(g, func(i, j int) bool { return g[i].id < g[j].id })
		for _, t1 := range g {
			_, a1, b1 := digitView(t1)
			if b1 == nil {
				continue
			}
			ab := new(big.Int).Mul(a1, b1)
			for _, t2 := range g {
				if t1 == t2 {
					continue
				}
				_, a2, b2 := digitView(t2)
				if a2.Cmp(ab) != 0 {
					continue
				}
				c1, c2 := l.m[t1], l.m[t2]
				if new(big.Int).Mul(c1, b1).Cmp(c2) != 0 {
					continue
				}
				delete(l.m, t1)
				delete(l.m, t2)
				var nt *Term
				d := Div(base, Num(a1))
				if b2 == nil {
					nt = d
				} else {
					nt = Mod(d, Num(new(big.Int).Mul(b1, b2)))
				}
				l.add(c1, nt)
				return true
			}
		}
	}
	return false
}

// mergeItes replaces several ites on one condition whose branches add up to the same sum.
var mergeDepth int

func (l *linAcc) mergeItes() bool {
	if len(l.m) < 2 || mergeDepth >= 3 {
		return false
	}
	mergeDepth++
	defer func() { mergeDepth-- }()
	var ks []*Term
	for t := range l.m {
		if t.op == OIte {
			ks = append(ks, t)
		}
	}
	if len(ks) < 2 {
		return false
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	by := map[*Term][]*Term{}
	var conds []*Term
	for _, t := range ks {
		c := t.args[0]
		if by[c] == nil {
			conds = append(conds, c)
		}
		by[c] = append(by[c], t)
	}
	for _, c := range conds {
		g := by[c]
		if len(g) < 2 {
			continue
		}
		a, b := newAcc(), newAcc()
		for _, t := range g {
			a.add(l.m[t], t.args[1])
			b.add(l.m[t], t.args[2])
		}
		x, y := a.term(), b.term()
		if x == y {
			for _, t := range g {
				delete(l.m, t)
			}
			l.add(bi1, x)
			return true
		}
	}
	return false
}

func (l *linAcc) term() *Term {
	for l.mergeDigits() {
	}
	for l.mergeItes() {
	}
	if len(l.m) == 0 {
		return Num(l.k)
	}
	keys := make([]*Term, 0, len(l.m))
	for t := range l.m {
		keys = append(keys, t)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
	if len(keys) == 1 && l.k.Sign() == 0 && l.m[keys[0]].Cmp(bi1) == 0 {
		return keys[0]
	}
	co := make([]*big.Int, len(keys))
	for i, t := range keys {
		co[i] = l.m[t]
	}
	return mk(&Term{op: OLin, k: l.k, args: keys, coef: co})
}

func Add(ts ...*Term) *Term {
	l := newAcc()
	for _, t := range ts {
		l.add(bi1, t)
	}
	return l.term()
}
func Sub(a, b *Term) *Term {
	l := newAcc()
	l.add(bi1, a)
	l.add(biM1, b)
	return l.term()
}
func Neg(a *Term) *Term { return Scale(biM1, a) }
func Scale(c *big.Int, a *Term) *Term {
	if c.Sign() == 0 {
		return I(0)
	}
	l := newAcc()
	l.add(c, a)
	return l.term()
}

// parts of a linear term as (coef, atom), constant as (k, nil)
func linParts(t *Term) (*big.Int, []*Term, []*big.Int) {
	switch t.op {
	case OConst:
		return t.k, nil, nil
	case OLin:
		return t.k, t.args, t.coef
	}
	return bi0, []*Term{t}, []*big.Int{bi1}
}

// sameAtoms: a and b can differ by a constant (up to sign).
func sameAtoms(a, b *Term) bool {
	_, x, p := linParts(a)
	_, y, q := linParts(b)
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if x[i] != y[i] || p[i].CmpAbs(q[i]) != 0 {
			return false
		}
	}
	return true
}

func mulAtoms(a, b *Term) *Term { // non-lin, non-const
	var as []*Term
	if a.op == OMul {
		as = append(as, a.args...)
	} else {
		as = append(as, a)
	}
	if b.op == OMul {
		as = append(as, b.args...)
	} else {
		as = append(as, b)
	}
	as = mergePows(as)
	if len(as) == 1 {
		return as[0]
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	return mk(&Term{op: OMul, args: as})
}

func Mul(a, b *Term) *Term {
	if a.isConst() {
		return Scale(a.k, b)
	}
	if b.isConst() {
		return Scale(b.k, a)
	}
	if a.op == OIte && (a.args[1].isConst() || a.args[2].isConst()) {
		return Ite(a.args[0], Mul(a.args[1], b), Mul(a.args[2], b))
	}
	if b.op == OIte && (b.args[1].isConst() || b.args[2].isConst()) {
		return Ite(b.args[0], Mul(a, b.args[1]), Mul(a, b.args[2]))
	}
	ka, ta, ca := linParts(a)
	kb, tb, cb := linParts(b)
	l := newAcc()
	l.k = new(big.Int).Mul(ka, kb)
	for i, t := range ta {
		l.addAtom(new(big.Int).Mul(ca[i], kb), t)
	}
	for j, t := range tb {
		l.addAtom(new(big.Int).Mul(cb[j], ka), t)
	}
	for i, t := range ta {
		for j, u := range tb {
			l.addAtom(new(big.Int).Mul(ca[i], cb[j]), mulAtoms(t, u))
		}
	}
	return l.term()
}

// Div: floor division.
func Div(x, y *Term) *Term {
	if y.isConst() {
		c := y.k
		if c.Sign() > 0 {
			if c.Cmp(bi1) == 0 {
				return x
			}
			if x.isConst() {
				return Num(floorDiv(x.k, c))
			}
			if x.lo != nil && x.hi != nil {
				ql, qh := floorDiv(x.lo, c), floorDiv(x.hi, c)
				if ql.Cmp(qh) == 0 {
					return Num(ql)
				}
			}
			if x.op == OApp && x.name == "bigword" && c.BitLen() == 57 && c.TrailingZeroBits() == 56 {
				return App("bigbyte", x.args[0], Add(Scale(big.NewInt(8), x.args[1]), I(7)))
			}
			switch x.op {
			case ODiv:
				if x.args[1].isConst() && x.args[1].k.Sign() > 0 {
					return Div(x.args[0], Num(new(big.Int).Mul(c, x.args[1].k)))
				}
			case OMod:
				// Div(Mod(z,m),c) with c | m  = Mod(Div(z,c), m/c)
				if x.args[1].isConst() && x.args[1].k.Sign() > 0 {
					q, r := new(big.Int).DivMod(x.args[1].k, c, new(big.Int))
					if r.Sign() == 0 {
						return Mod(Div(x.args[0], y), Num(q))
					}
				}
			case OIte:
				a, b := x.args[1], x.args[2]
				if a.isConst() || b.isConst() {
					return Ite(x.args[0], Div(a, y), Div(b, y))
				}
			case OLin:
				// pull out multiples of c
				out, in := newAcc(), newAcc()
				q, r := new(big.Int).DivMod(x.k, c, new(big.Int))
				out.k = q
				in.k = r
				for i, t := range x.args {
					q, r := new(big.Int), new(big.Int)
					q.DivMod(x.coef[i], c, r)
					if r.Sign() == 0 {
						out.addAtom(q, t)
					} else {
						in.addAtom(x.coef[i], t)
					}
				}
				if len(out.m) > 0 || out.k.Sign() != 0 {
					return Add(out.term(), Div(in.term(), y))
				}
				// common factor g of all coefs and c: Div(g*z + r, g*c') = Div(z + r/g, c')
				g := new(big.Int).Set(c)
				for _, co := range x.coef {
					g.GCD(nil, nil, g, new(big.Int).Abs(co))
				}
				if g.Cmp(bi1) > 0 {
					z := newAcc()
					z.k = floorDiv(x.k, g)
					for i, t := range x.args {
						z.addAtom(new(big.Int).Div(x.coef[i], g), t)
					}
					return Div(z.term(), Num(new(big.Int).Div(c, g)))
				}
				// drop low part: x = hi + lo where hi multiple of g and 0<=lo<g, g|c
				if n := lowSplit(x, c); n != nil {
					return Div(n, y)
				}
			}
		}
	}
	if x.isC(0) {
		return x
	}
	return mk(&Term{op: ODiv, args: []*Term{x, y}})
}

// lowSplit: for x linear, find a low part L (sum of some terms, plus const)
// with 0 <= L < g where all remaining terms are multiples of g, g | c; then
// Div(x, c) = Div(x-L, c). Returns x-L or nil.
func lowSplit(x *Term, c *big.Int) *Term {
	n, ok := isPow2(c)
	if !ok {
		return nil
	}
	best := -1
	for z := 1; z <= n; z++ {
		lo := x.k
		if x.k.Sign() < 0 {
			return nil
		}
		// constant split: low bits of k
		low := new(big.Int).And(x.k, new(big.Int).Sub(pow2(z), bi1))
		lo = low
		hi := low
		cnt := 0
		okz := true
		for i, t := range x.args {
			tz := int(x.coef[i].TrailingZeroBits()) + t.tz
			if tz >= z {
				continue
			}
			l, h := scaleI(x.coef[i], t.lo, t.hi)
			if l == nil || h == nil {
				okz = false
				break
			}
			lo = new(big.Int).Add(lo, l)
			hi = new(big.Int).Add(hi, h)
			cnt++
		}
		if !okz {
			continue
		}
		if lo.Sign() >= 0 && hi.Cmp(pow2(z)) < 0 && (cnt > 0 || low.Sign() > 0) {
			best = z
		}
	}
	if best < 0 {
		return nil
	}
	acc := newAcc()
	low := new(big.Int).And(x.k, new(big.Int).Sub(pow2(best), bi1))
	acc.k = new(big.Int).Sub(x.k, low)
	for i, t := range x.args {
		tz := int(x.coef[i].TrailingZeroBits()) + t.tz
		if tz >= best {
			acc.addAtom(x.coef[i], t)
		}
	}
	return acc.term()
}

// symMod: residue of x modulo c in (-c/2, c/2].
func symMod(x, c *big.Int) *big.Int {
	r := new(big.Int).Mod(x, c)
	if new(big.Int).Lsh(r, 1).Cmp(c) > 0 {
		r.Sub(r, c)
	}
	return r
}

// wordLeaf: t chooses between shifted machine words of a number.
func wordLeaf(t *Term) bool {
	switch t.op {
	case OIte:
		return wordLeaf(t.args[1]) && wordLeaf(t.args[2])
	case ODiv:
		if !t.args[1].isConst() {
			return false
		}
		if n, ok := isPow2(t.args[1].k); !ok || n%8 != 0 {
			return false
		}
		return t.args[0].op == OApp && t.args[0].name == "bigword"
	case OApp:
		return t.name == "bigword" || t.name == "bigbyte"
	}
	return t.isConst()
}

func Mod(x, y *Term) *Term {
	if y.isConst() && y.k.Sign() > 0 {
		c := y.k
		if c.Cmp(bi1) == 0 {
			return I(0)
		}
		if x.isConst() {
			return Num(new(big.Int).Mod(x.k, c))
		}
		if x.lo != nil && x.hi != nil {
			ql, qh := floorDiv(x.lo, c), floorDiv(x.hi, c)
			if ql.Cmp(qh) == 0 {
				return Sub(x, Num(new(big.Int).Mul(ql, c)))
			}
		}
		if c.IsInt64() && c.Int64() == 256 {
			// a byte of a machine word of a number is a byte of the number
			w, k := x, 0
			if w.op == ODiv && w.args[1].isConst() {
				if n, ok := isPow2(w.args[1].k); ok && n%8 == 0 {
					w, k = w.args[0], n/8
				}
			}
			if w.op == OApp && w.name == "bigword" && k < 8 {
				return App("bigbyte", w.args[0], Add(Scale(big.NewInt(8), w.args[1]), I(int64(k))))
			}
		}
		if c.BitLen() > 65 {
			if z := modStrip(x, y); z != x {
				return Mod(z, y)
			}
		}
		switch x.op {
		case OMod:
			if x.args[1].isConst() && x.args[1].k.Sign() > 0 {
				m := x.args[1].k
				if new(big.Int).Mod(m, c).Sign() == 0 {
					return Mod(x.args[0], y)
				}
			}
		case OIte:
			a, b := x.args[1], x.args[2]
			if c.IsInt64() && c.Int64() == 256 && wordLeaf(a) && wordLeaf(b) || a.isConst() || b.isConst() || (a.lo != nil && a.hi != nil && b.lo != nil && b.hi != nil && (a.hi.Cmp(c) < 0 && a.lo.Sign() >= 0 || b.hi.Cmp(c) < 0 && b.lo.Sign() >= 0)) {
				return Ite(x.args[0], Mod(a, y), Mod(b, y))
			}
		case OXor, OBand:
			if n, ok := isPow2(c); ok && n <= 8 && distributeBits {
				as := make([]*Term, len(x.args))
				for i, a := range x.args {
					as[i] = Mod(a, y)
				}
				if x.op == OXor {
					return Xor(as...)
				}
				return Band(as...)
			}
		case ODiv:
			if n, ok := isPow2(c); ok && n <= 8 && distributeBits && x.args[1].isConst() {
				z := x.args[0]
				if _, ok := isPow2(x.args[1].k); ok && (z.op == OXor || z.op == OBand) {
					as := make([]*Term, len(z.args))
					for i, a := range z.args {
						as[i] = Mod(Div(a, x.args[1]), y)
					}
					if z.op == OXor {
						return Xor(as...)
					}
					return Band(as...)
				}
			}
		case OLin:
			l := newAcc()
			changed := false
			l.k = symMod(x.k, c)
			if l.k.Cmp(x.k) != 0 {
				changed = true
			}
			for i, t := range x.args {
				co := x.coef[i]
				r := symMod(co, c)
				if r.Cmp(co) != 0 {
					changed = true
				}
				if r.Sign() == 0 {
					continue
				}
				// inner mods that are multiples of c/gcd are redundant
				if t.op == OMod && t.args[1].isConst() && t.args[1].k.Sign() > 0 {
					m := new(big.Int).Mul(t.args[1].k, r)
					if new(big.Int).Mod(m, c).Sign() == 0 {
						l.add(r, t.args[0])
						changed = true
						continue
					}
				}
				l.addAtom(r, t)
			}
			if changed {
				// reduce coefficients again after adds
				l2 := newAcc()
				l2.k = symMod(l.k, c)
				for t, co := range l.m {
					l2.addAtom(symMod(co, c), t)
				}
				n := l2.term()
				if n != x {
					return Mod(n, y)
				}
				x = n
			}
			if x.op == OLin {
				// common factor
				g := new(big.Int).Set(c)
				g.GCD(nil, nil, g, x.k)
				if x.k.Sign() == 0 {
					g.Set(c)
				}
				for _, co := range x.coef {
					g.GCD(nil, nil, g, new(big.Int).Abs(co))
				}
				if g.Cmp(bi1) > 0 && g.Cmp(c) < 0 {
					z := newAcc()
					z.k = new(big.Int).Div(x.k, g)
					for i, t := range x.args {
						z.addAtom(new(big.Int).Div(x.coef[i], g), t)
					}
					return Scale(g, Mod(z.term(), Num(new(big.Int).Div(c, g))))
				}
				// low part disjoint from high part
				if n := lowSplit(x, c); n != nil {
					return Add(Sub(x, n), Mod(n, y))
				}
			}
		case OMul:
			// reduce inner mods with modulus multiple of c
			for i, a := range x.args {
				if a.op == OMod && a.args[1].isConst() && new(big.Int).Mod(a.args[1].k, c).Sign() == 0 {
					p := I(1)
					for j, b := range x.args {
						if j == i {
							p = Mul(p, a.args[0])
						} else {
							p = Mul(p, b)
						}
					}
					return Mod(p, y)
				}
			}
		}
	}
	if !y.isConst() {
		if z := stripSym(x, y); z != x {
			return Mod(z, y)
		}
	}
	if x.isC(0) {
		return x
	}
	return mk(&Term{op: OMod, args: []*Term{x, y}})
}

// ---------- bit operations on non-negative values ----------

func support(t *Term) (*big.Int, bool) { // mask of possibly set bits
	switch t.op {
	case OConst:
		if t.k.Sign() < 0 {
			return nil, false
		}
		return t.k, true
	case OLin:
		m := new(big.Int)
		if t.k.Sign() < 0 {
			return ivSupport(t)
		}
		m.Set(t.k)
		for i, a := range t.args {
			n, ok := isPow2(t.coef[i])
			if !ok {
				return ivSupport(t)
			}
			s, ok := support(a)
			if !ok {
				return ivSupport(t)
			}
			s = new(big.Int).Lsh(s, uint(n))
			if new(big.Int).And(s, m).Sign() != 0 {
				return ivSupport(t)
			}
			m.Or(m, s)
		}
		return m, true
	case OXor:
		m := new(big.Int)
		for _, a := range t.args {
			s, ok := support(a)
			if !ok {
				return ivSupport(t)
			}
			m.Or(m, s)
		}
		return m, true
	case OIte:
		s1, ok1 := support(t.args[1])
		s2, ok2 := support(t.args[2])
		if ok1 && ok2 {
			return new(big.Int).Or(s1, s2), true
		}
	}
	return ivSupport(t)
}

func ivSupport(t *Term) (*big.Int, bool) {
	if t.lo == nil || t.lo.Sign() < 0 || t.hi == nil {
		return nil, false
	}
	m := new(big.Int).Sub(pow2(t.hi.BitLen()), bi1)
	if t.tz > 0 {
		z := t.tz
		if z > t.hi.BitLen() {
			z = t.hi.BitLen()
		}
		m.Rsh(m, uint(z))
		m.Lsh(m, uint(z))
	}
	return m, true
}

func nonneg(t *Term) bool { return t.lo != nil && t.lo.Sign() >= 0 }

// BandConst: x & mask for mask >= 0 (x any integer, two's complement)
func bandConst(x *Term, mask *big.Int) *Term {
	if mask.Sign() == 0 {
		return I(0)
	}
	if nonneg(x) && x.hi != nil {
		mask = new(big.Int).And(mask, new(big.Int).Sub(pow2(x.hi.BitLen()), bi1))
		if mask.Sign() == 0 {
			return I(0)
		}
	}
	// runs
	type run struct{ a, b int }
	var runs []run
	n := mask.BitLen()
	for i := 0; i < n; {
		if mask.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < n && mask.Bit(j) == 1 {
			j++
		}
		runs = append(runs, run{i, j})
		i = j
	}
	if len(runs) > 4 {
		return nil
	}
	acc := newAcc()
	for _, r := range runs {
		acc.add(pow2(r.a), Mod(Div(x, Num(pow2(r.a))), Num(pow2(r.b-r.a))))
	}
	return acc.term()
}

func Band(ts ...*Term) *Term {
	var as []*Term
	var c *big.Int
	var fl func(t *Term)
	fl = func(t *Term) {
		if t.op == OConst {
			if c == nil {
				c = t.k
			} else {
				c = new(big.Int).And(c, t.k)
			}
			return
		}
		if t.op == OBand {
			for _, a := range t.args {
				fl(a)
			}
			return
		}
		as = append(as, t)
	}
	for _, t := range ts {
		fl(t)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	var us []*Term
	for i, a := range as {
		if i > 0 && a == as[i-1] {
			continue
		}
		us = append(us, a)
	}
	if c != nil && c.Sign() == 0 {
		return I(0)
	}
	if len(us) == 0 {
		return Num(c)
	}
	if c != nil && len(us) == 1 {
		if r := bandConst(us[0], c); r != nil {
			return r
		}
	}
	if c != nil && len(us) > 1 {
		// drop an all-ones constant
		all := true
		for _, u := range us {
			s, ok := support(u)
			if !ok || new(big.Int).AndNot(s, c).Sign() != 0 {
				all = false
			}
		}
		if all {
			c = nil
		}
	}
	if c == nil && len(us) == 1 {
		return us[0]
	}
	// disjoint supports
	m, okAll := (*big.Int)(nil), true
	for _, u := range us {
		s, ok := support(u)
		if !ok {
			okAll = false
			break
		}
		if m == nil {
			m = s
		} else {
			m = new(big.Int).And(m, s)
		}
	}
	if okAll && m != nil && m.Sign() == 0 {
		return I(0)
	}
	// ite over constants distributes
	for i, u := range us {
		if u.op == OIte && (u.args[1].isConst() && u.args[2].isConst()) {
			rest := append([]*Term{}, us[:i]...)
			rest = append(rest, us[i+1:]...)
			if c != nil {
				rest = append(rest, Num(c))
			}
			return Ite(u.args[0], Band(append(rest, u.args[1])...), Band(append(rest, u.args[2])...))
		}
	}
	if c != nil {
		us = append(us, Num(c))
		sort.Slice(us, func(i, j int) bool { return us[i].id < us[j].id })
	}
	return mk(&Term{op: OBand, args: us})
}

func Xor(ts ...*Term) *Term {
	cnt := map[*Term]int{}
	var as []*Term
	c := new(big.Int)
	var fl func(t *Term)
	fl = func(t *Term) {
		if t.op == OConst {
			c = new(big.Int).Xor(c, t.k)
			return
		}
		if t.op == OXor {
			for _, a := range t.args {
				fl(a)
			}
			return
		}
		if cnt[t] == 0 {
			as = append(as, t)
		}
		cnt[t]++
	}
	for _, t := range ts {
		fl(t)
	}
	var us []*Term
	for _, a := range as {
		if cnt[a]%2 == 1 {
			us = append(us, a)
		}
	}
	sort.Slice(us, func(i, j int) bool { return us[i].id < us[j].id })
	if len(us) == 0 {
		return Num(c)
	}
	if c.Sign() == 0 && len(us) == 1 {
		return us[0]
	}
	if len(us) <= 40 && distributeBits {
		// combine disjoint supports into sums
		for i := 0; i < len(us); i++ {
			si, ok := support(us[i])
			if !ok {
				continue
			}
			if c.Sign() != 0 && new(big.Int).And(si, c).Sign() == 0 && us[i].op != OXor {
				n := Add(us[i], Num(c))
				rest := append(append([]*Term{}, us[:i]...), us[i+1:]...)
				return Xor(append(rest, n)...)
			}
			for j := i + 1; j < len(us); j++ {
				sj, ok := support(us[j])
				if !ok {
					continue
				}
				if new(big.Int).And(si, sj).Sign() == 0 {
					n := Add(us[i], us[j])
					rest := append([]*Term{}, us[:i]...)
					rest = append(rest, us[i+1:j]...)
					rest = append(rest, us[j+1:]...)
					rest = append(rest, n, Num(c))
					return Xor(rest...)
				}
			}
		}
		if c.Sign() != 0 && len(us) == 1 {
			// x ^ (2^n-1) with x < 2^n
			s, ok := support(us[0])
			if ok && new(big.Int).AndNot(s, c).Sign() == 0 {
				// all bits of x within c: result = c - x
				return Sub(Num(c), us[0])
			}
			if r := bandConst(us[0], c); r != nil {
				// x ^ c = x + c - 2(x&c)
				return Add(us[0], Num(c), Scale(big.NewInt(-2), r))
			}
		}
	}
	if c.Sign() != 0 {
		us = append(us, Num(c))
		sort.Slice(us, func(i, j int) bool { return us[i].id < us[j].id })
	}
	return mk(&Term{op: OXor, args: us})
}

func Bor(a, b *Term) *Term {
	sa, ok1 := support(a)
	sb, ok2 := support(b)
	if ok1 && ok2 && new(big.Int).And(sa, sb).Sign() == 0 {
		return Add(a, b)
	}
	if a == b {
		return a
	}
	return Sub(Add(a, b), Band(a, b))
}

// ---------- booleans ----------

func Not(t *Term) *Term {
	switch t.op {
	case OTrue:
		return False
	case OFalse:
		return True
	case ONot:
		return t.args[0]
	case OLe: // lin <= 0  ->  lin >= 1 -> 1 - lin <= 0
		return Le0(Sub(I(1), t.args[0]))
	case OIte:
		return Ite(t.args[0], Not(t.args[1]), Not(t.args[2]))
	}
	return mk(&Term{op: ONot, isBool: true, args: []*Term{t}})
}

func andOr(op Op, ts []*Term) *Term {
	unit, zero := True, False
	if op == OOr {
		unit, zero = False, True
	}
	set := map[*Term]bool{}
	var as []*Term
	var fl func(t *Term) bool
	fl = func(t *Term) bool {
		if t == unit {
			return true
		}
		if t == zero {
			return false
		}
		if t.op == op {
			for _, a := range t.args {
				if !fl(a) {
					return false
				}
			}
			return true
		}
		if !set[t] {
			set[t] = true
			as = append(as, t)
		}
		return true
	}
	for _, t := range ts {
		if !fl(t) {
			return zero
		}
	}
	for _, t := range as {
		if set[Not(t)] {
			return zero
		}
	}
	// absorption / unit resolution inside nested opposite connectives
	other := OOr
	if op == OOr {
		other = OAnd
	}
	changed := false
	var out []*Term
	for _, t := range as {
		if t.op == other {
			absorbed := false
			var keep []*Term
			for _, a := range t.args {
				if set[a] {
					absorbed = true
					break
				}
				if set[Not(a)] {
					continue
				}
				keep = append(keep, a)
			}
			if absorbed {
				changed = true
				continue
			}
			if len(keep) != len(t.args) {
				changed = true
				out = append(out, andOr(other, keep))
				continue
			}
		}
		out = append(out, t)
	}
	if changed {
		return andOr(op, out)
	}
	// (a & b) | (a & !b) -> a ; pairwise for short lists
	if len(as) >= 2 && len(as) <= 16 {
		for i := 0; i < len(as); i++ {
			for j := i + 1; j < len(as); j++ {
				if as[i].op == other && as[j].op == other && len(as[i].args) == len(as[j].args) {
					if r := resolveOne(other, as[i], as[j]); r != nil {
						rest := append([]*Term{}, as[:i]...)
						rest = append(rest, as[i+1:j]...)
						rest = append(rest, as[j+1:]...)
						return andOr(op, append(rest, r))
					}
				}
			}
		}
	}
	if op == OAnd || op == OOr {
		if r, ok := mergeBounds(op, as); ok {
			return r
		}
	}
	switch len(as) {
	case 0:
		return unit
	case 1:
		return as[0]
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	return mk(&Term{op: op, isBool: true, args: as})
}

// mergeBounds drops or contradicts comparisons over the same linear form.
func mergeBounds(op Op, as []*Term) (*Term, bool) {
	if len(as) > 24 {
		return nil, false
	}
	for i := 0; i < len(as); i++ {
		a := as[i]
		if a.op != OLe {
			continue
		}
		for j := 0; j < len(as); j++ {
			if i == j {
				continue
			}
			b := as[j]
			if b.op == OLe && sameAtoms(a.args[0], b.args[0]) {
				s := Sub(a.args[0], b.args[0])
				if s.isConst() {
					// a.lin = b.lin + s ; s>0: a stronger
					drop := -1
					if s.k.Sign() > 0 {
						if op == OAnd {
							drop = j
						} else {
							drop = i
						}
					}
					if drop >= 0 {
						rest := append(append([]*Term{}, as[:drop]...), as[drop+1:]...)
						return andOr(op, rest), true
					}
				}
				s = Add(a.args[0], b.args[0])
				if s.isConst() && i < j {
					// a: L<=0 ; b: s-L<=0 i.e. L>=s
					if op == OAnd {
						if s.k.Sign() > 0 {
							return False, true
						}
						if s.k.Sign() == 0 {
							rest := append([]*Term{}, as[:i]...)
							rest = append(rest, as[i+1:j]...)
							rest = append(rest, as[j+1:]...)
							return andOr(op, append(rest, Eq0(a.args[0]))), true
						}
					} else if s.k.Cmp(bi1) <= 0 {
						return True, true
					}
				}
			}
		}
	}
	// equalities over the same form
	for i := 0; i < len(as); i++ {
		a := as[i]
		neg := false
		if a.op == ONot && a.args[0].op == OEq {
			neg = true
			a = a.args[0]
		}
		if a.op != OEq {
			continue
		}
		for j := 0; j < len(as); j++ {
			if i == j {
				continue
			}
			b := as[j]
			bneg := false
			if b.op == ONot && b.args[0].op == OEq {
				bneg = true
				b = b.args[0]
			}
			if b.op == OEq && sameAtoms(a.args[0], b.args[0]) {
				d := Sub(a.args[0], b.args[0])
				if !(d.isConst() && d.k.Sign() != 0) {
					d = Add(a.args[0], b.args[0])
				}
				if d.isConst() && d.k.Sign() != 0 {
					// a and b are exclusive
					if op == OAnd && !neg && !bneg {
						return False, true
					}
					if op == OOr && neg && bneg {
						return True, true
					}
					if op == OAnd && !neg && bneg { // b redundant
						return andOr(op, append(append([]*Term{}, as[:j]...), as[j+1:]...)), true
					}
					if op == OOr && !neg && bneg { // a redundant
						return andOr(op, append(append([]*Term{}, as[:i]...), as[i+1:]...)), true
					}
				}
			}
			if b.op == OLe && !bneg && sameAtoms(a.args[0], b.args[0]) {
				for _, sg := range []int64{1, -1} {
					d := Sub(b.args[0], Scale(big.NewInt(sg), a.args[0]))
					if d.isConst() {
						// under a: b.lin == d
						holds := d.k.Sign() <= 0
						if op == OAnd && !neg {
							if !holds {
								return False, true
							}
							return andOr(op, append(append([]*Term{}, as[:j]...), as[j+1:]...)), true
						}
						if op == OAnd && neg {
							if !holds { // b implies !a
								return andOr(op, append(append([]*Term{}, as[:i]...), as[i+1:]...)), true
							}
							if d.k.Sign() == 0 { // L<=0 and L!=0 -> L<=-1
								rest := []*Term{}
								for q, x := range as {
									if q != i && q != j {
										rest = append(rest, x)
									}
								}
								return andOr(op, append(rest, Le0(Add(b.args[0], I(1))))), true
							}
						}
						if op == OOr && !neg {
							if holds {
								return andOr(op, append(append([]*Term{}, as[:i]...), as[i+1:]...)), true
							}
							if d.k.Cmp(bi1) == 0 { // L<=0 or L==1 -> L<=1
								rest := []*Term{}
								for q, x := range as {
									if q != i && q != j {
										rest = append(rest, x)
									}
								}
								return andOr(op, append(rest, Le0(Sub(b.args[0], I(1))))), true
							}
						}
						if op == OOr && neg {
							if holds {
								return True, true
							}
							return andOr(op, append(append([]*Term{}, as[:j]...), as[j+1:]...)), true
						}
					}
				}
			}
		}
	}
	return nil, false
}

func resolveOne(op Op, a, b *Term) *Term {
	in := map[*Term]bool{}
	for _, x := range b.args {
		in[x] = true
	}
	var diff *Term
	var common []*Term
	for _, x := range a.args {
		if in[x] {
			common = append(common, x)
		} else if diff == nil && in[Not(x)] {
			diff = x
		} else {
			return nil
		}
	}
	if diff == nil {
		return nil
	}
	return andOr(op, common)
}

func And(ts ...*Term) *Term    { return andOr(OAnd, ts) }
func Or(ts ...*Term) *Term     { return andOr(OOr, ts) }
func Implies(a, b *Term) *Term { return Or(Not(a), b) }

func gcdNorm(t *Term) (*Term, *big.Int) {
	// returns linear term divided so that coefs have gcd 1 (constant floor-adjusted not here)
	g := new(big.Int)
	for _, c := range t.coef {
		g.GCD(nil, nil, g, new(big.Int).Abs(c))
	}
	return t, g
}

func Le0(t *Term) *Term {
	if t.hi != nil && t.hi.Sign() <= 0 {
		return True
	}
	if t.lo != nil && t.lo.Sign() > 0 {
		return False
	}
	if t.op == OApp && t.name == "bitlen" {
		return Le0(t.args[0])
	}
	if t.op == OLin {
		if len(t.args) == 1 && t.args[0].op == OApp && t.args[0].name == "bitlen" {
			// bitlen(a) <= T  <=>  a < 2^T
			a := t.args[0].args[0]
			q := floorDiv(new(big.Int).Neg(t.k), new(big.Int).Abs(t.coef[0]))
			if t.coef[0].Sign() > 0 {
				if q.Sign() < 0 {
					return False
				}
				if q.IsInt64() && q.Int64() < 1<<13 {
					return Lt(a, Num(pow2(int(q.Int64()))))
				}
			} else {
				// bitlen(a) >= T, T = ceil(k/c)
				n := new(big.Int).Neg(floorDiv(new(big.Int).Neg(t.k), new(big.Int).Abs(t.coef[0])))
				if n.Sign() <= 0 {
					return True
				}
				if n.IsInt64() && n.Int64() < 1<<13 {
					return Ge(a, Num(pow2(int(n.Int64()-1))))
				}
			}
		}
		_, g := gcdNorm(t)
		if g.Cmp(bi1) > 0 {
			// sum c_i t_i <= -k  ->  /g : sum <= floor(-k/g)
			l := newAcc()
			for i, a := range t.args {
				l.addAtom(new(big.Int).Quo(t.coef[i], g), a)
			}
			l.k = new(big.Int).Neg(floorDiv(new(big.Int).Neg(t.k), g))
			return Le0(l.term())
		}
		if len(t.args) == 1 {
			a := t.args[0]
			if a.op == OIte && (a.args[1].isConst() || a.args[2].isConst() || iteConstDepth(a) > 0) {
				f := func(x *Term) *Term { return Le0(Add(Scale(t.coef[0], x), Num(t.k))) }
				return Ite(a.args[0], f(a.args[1]), f(a.args[2]))
			}
			// comparisons with Div/Mod by constant:  c*Div(x,m)+k<=0 with c=±1
			if a.op == ODiv && a.args[1].isConst() && a.args[1].k.Sign() > 0 {
				m := a.args[1].k
				if t.coef[0].Cmp(bi1) == 0 {
					// x div m <= -k  <=> x <= m*(-k)+m-1
					b := new(big.Int).Neg(t.k)
					b.Mul(b, m)
					b.Add(b, m)
					b.Sub(b, bi1)
					return Le0(Sub(a.args[0], Num(b)))
				}
				if t.coef[0].Cmp(biM1) == 0 {
					// x div m >= k <=> x >= m*k
					return Le0(Sub(Num(new(big.Int).Mul(m, t.k)), a.args[0]))
				}
			}
		}
	} else if t.op == OIte && (t.args[1].isConst() || t.args[2].isConst() || iteConstDepth(t) > 0) {
		return Ite(t.args[0], Le0(t.args[1]), Le0(t.args[2]))
	} else if t.op == ODiv {
		return Le0(Add(t, I(0)).wrapLin())
	}
	return mk(&Term{op: OLe, isBool: true, args: []*Term{t}})
}

// wrapLin handles a bare Div atom in Le0.
func (t *Term) wrapLin() *Term {
	if t.op == ODiv && t.args[1].isConst() && t.args[1].k.Sign() > 0 {
		// Div(x,m) <= 0 <=> x - (m-1) <= 0
		return Sub(t.args[0], Num(new(big.Int).Sub(t.args[1].k, bi1)))
	}
	return t
}

// iteConstDepth: >0 when t is an ite tree whose leaves are all constants (bounded size)
func iteConstDepth(t *Term) int {
	n := 0
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		n++
		if n > 64 {
			return false
		}
		if t.isConst() {
			return true
		}
		if t.op == OIte {
			return rec(t.args[1]) && rec(t.args[2])
		}
		return false
	}
	if rec(t) {
		return n
	}
	return 0
}

func Le(a, b *Term) *Term { return Le0(Sub(a, b)) }
func Lt(a, b *Term) *Term { return Le0(Add(Sub(a, b), I(1))) }
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func Eq0(t *Term) *Term {
	if t.isConst() {
		return B(t.k.Sign() == 0)
	}
	if t.lo != nil && t.lo.Sign() > 0 || t.hi != nil && t.hi.Sign() < 0 {
		return False
	}
	if t.op == OApp && t.name == "bitlen" {
		return Le0(t.args[0])
	}
	if t.op == OLin && len(t.args) == 1 && t.args[0].op == OApp && t.args[0].name == "bitlen" && new(big.Int).Abs(t.k).Cmp(big.NewInt(1<<13)) < 0 {
		return And(Le0(t), Le0(Neg(t)))
	}
	if t.op == OLin {
		_, g := gcdNorm(t)
		if g.Cmp(bi1) > 0 {
			if new(big.Int).Mod(t.k, g).Sign() != 0 {
				return False
			}
		}
		neg := t.coef[0].Sign() < 0
		if g.Cmp(bi1) > 0 || neg {
			d := new(big.Int).Set(g)
			if neg {
				d.Neg(d)
			}
			l := newAcc()
			for i, a := range t.args {
				l.addAtom(new(big.Int).Quo(t.coef[i], d), a)
			}
			l.k = new(big.Int).Quo(t.k, d)
			return Eq0(l.term())
		}
		if len(t.args) == 1 {
			a := t.args[0]
			if a.op == OIte && (a.args[1].isConst() || a.args[2].isConst() || iteConstDepth(a) > 0) {
				f := func(x *Term) *Term { return Eq0(Add(Scale(t.coef[0], x), Num(t.k))) }
				return Ite(a.args[0], f(a.args[1]), f(a.args[2]))
			}
		}
		if len(t.args) == 2 && t.k.Sign() == 0 && t.coef[0].Cmp(bi1) == 0 && t.coef[1].Cmp(biM1) == 0 {
			a, b := t.args[0], t.args[1]
			if a.op == OIte && b.op == OIte && a.args[0] == b.args[0] {
				return Ite(a.args[0], Eq(a.args[1], b.args[1]), Eq(a.args[2], b.args[2]))
			}
			// ite(c,b,x) == b
			if a.op == OIte && (a.args[1] == b || a.args[2] == b) {
				return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
			}
			if b.op == OIte && (b.args[1] == a || b.args[2] == a) {
				return Ite(b.args[0], Eq(b.args[1], a), Eq(b.args[2], a))
			}
		}
	} else if t.op == OIte && (t.args[1].isConst() || t.args[2].isConst() || iteConstDepth(t) > 0) {
		return Ite(t.args[0], Eq0(t.args[1]), Eq0(t.args[2]))
	}
	return mk(&Term{op: OEq, isBool: true, args: []*Term{t}})
}

func Eq(a, b *Term) *Term {
	if a.isBool || b.isBool {
		return Iff(a, b)
	}
	if a == b {
		return True
	}
	return Eq0(Sub(a, b))
}

func Iff(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a == True {
		return b
	}
	if b == True {
		return a
	}
	if a == False {
		return Not(b)
	}
	if b == False {
		return Not(a)
	}
	if a == Not(b) {
		return False
	}
	return Ite(a, b, Not(b))
}

func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if c.op == ONot {
		return Ite(c.args[0], b, a)
	}
	if a.isBool {
		if a == True {
			return Or(c, b)
		}
		if b == False {
			return And(c, a)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if a == c {
			return Or(c, b)
		}
		if b == c {
			return And(c, a)
		}
	}
	if a.op == OIte && a.args[0] == c {
		return Ite(c, a.args[1], b)
	}
	if b.op == OIte && b.args[0] == c {
		return Ite(c, a, b.args[2])
	}
	if a.op == OIte && a.args[0] == Not(c) {
		return Ite(c, a.args[2], b)
	}
	if b.op == OIte && b.args[0] == Not(c) {
		return Ite(c, a, b.args[1])
	}
	// ite(K <= x, x div K ..., 0) with 0 <= x: the quotient is 0 anyway
	if b.op == OConst && b.k.Sign() == 0 && c.op == OLe {
		q := a
		if q.op == OMod {
			q = q.args[0]
		}
		if q.op == ODiv && q.args[1].isConst() && nonneg(q.args[0]) && q.args[1].k.Sign() > 0 && Ge(q.args[0], q.args[1]) == c {
			return a
		}
	}
	// ite(c, x, ite(d, x, y)) = ite(c|d, x, y)
	if b.op == OIte && b.args[1] == a {
		return Ite(Or(c, b.args[0]), a, b.args[2])
	}
	if a.op == OIte && a.args[2] == b {
		return Ite(And(c, a.args[0]), a.args[1], b)
	}
	// a choice by a bit is a linear term
	if a.isConst() && b.isConst() && c.op == OEq {
		x := c.args[0]
		if x.op == OMod && x.args[1].isC(2) {
			return Add(a, Scale(new(big.Int).Sub(b.k, a.k), x))
		}
		if x.op == OLin && len(x.args) == 1 && x.k.Cmp(biM1) == 0 && x.coef[0].Cmp(bi1) == 0 && x.args[0].op == OMod && x.args[0].args[1].isC(2) {
			return Add(b, Scale(new(big.Int).Sub(a.k, b.k), x.args[0]))
		}
	}
	// factor common linear part
	if !a.isBool {
		d := Sub(a, b)
		if d.isConst() && (a.op == OLin || b.op == OLin) {
			// ite(c, b+d, b) = b + ite(c,d,0)
			if (a.op == OLin || b.op == OLin) && !b.isC(0) {
				return Add(b, Ite(c, d, I(0)))
			}
			return Add(b, mk(&Term{op: OIte, args: []*Term{c, d, I(0)}}))
		}
		// c is (x == k): a may mention x
	}
	return mk(&Term{op: OIte, isBool: a.isBool, args: []*Term{c, a, b}})
}

func MaxBound(t *Term) int { return t.mb }

func Forall(bv, body *Term) *Term {
	if body == True || body == False {
		return body // caller guarantees the range guard is in body; False with guard impossible
	}
	if !occurs(body, bv) {
		return body
	}
	if body.op == OAnd {
		var as []*Term
		for _, a := range body.args {
			as = append(as, Forall(bv, a))
		}
		return And(as...)
	}
	// canonical index: 1 + max bound index of inner foralls
	return mk(&Term{op: OForall, isBool: true, args: []*Term{bv, body}})
}

func occurs(t, v *Term) bool {
	seen := map[int]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == v {
			return true
		}
		if len(t.args) == 0 || seen[t.id] {
			return false
		}
		seen[t.id] = true
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// rebuild applies constructor to new args.
func rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case OConst, OTrue, OFalse, OVar:
		return t
	case OApp:
		if t.isBool {
			return AppB(t.name, as...)
		}
		return App(t.name, as...)
	case OLin:
		l := newAcc()
		l.k = t.k
		for i, a := range as {
			l.add(t.coef[i], a)
		}
		return l.term()
	case OMul:
		r := as[0]
		for _, a := range as[1:] {
			r = Mul(r, a)
		}
		return r
	case ODiv:
		return Div(as[0], as[1])
	case OMod:
		return Mod(as[0], as[1])
	case OXor:
		return Xor(as...)
	case OBand:
		return Band(as...)
	case OIte:
		return Ite(as[0], as[1], as[2])
	case OEq:
		return Eq0(as[0])
	case OLe:
		return Le0(as[0])
	case ONot:
		return Not(as[0])
	case OAnd:
		return And(as...)
	case OOr:
		return Or(as...)
	case OForall:
		return Forall(as[0], as[1])
	}
	panic("rebuild")
}

func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		as := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			as[i] = rec(a)
			if as[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, as)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func (t *Term) String() string {
	n := 0
	var rec func(t *Term) string
	rec = func(t *Term) string {
		n++
		if n > 400 {
			return "..."
		}
		j := func(sep string) string {
			var s []string
			for _, a := range t.args {
				s = append(s, rec(a))
			}
			return strings.Join(s, sep)
		}
		switch t.op {
		case OConst:
			return t.k.String()
		case OTrue:
			return "true"
		case OFalse:
			return "false"
		case OVar:
			return t.name
		case OApp:
			return t.name + "(" + j(",") + ")"
		case OLin:
			var s []string
			for i, a := range t.args {
				if t.coef[i].Cmp(bi1) == 0 {
					s = append(s, rec(a))
				} else {
					s = append(s, t.coef[i].String()+"*"+rec(a))
				}
			}
			if t.k.Sign() != 0 {
				s = append(s, t.k.String())
			}
			return "(" + strings.Join(s, " + ") + ")"
		case OMul:
			return "(" + j("·") + ")"
		case ODiv:
			return "(" + j(" div ") + ")"
		case OMod:
			return "(" + j(" mod ") + ")"
		case OXor:
			return "(" + j(" ^ ") + ")"
		case OBand:
			return "(" + j(" & ") + ")"
		case OIte:
			return "ite(" + j(", ") + ")"
		case OEq:
			return rec(t.args[0]) + "=0"
		case OLe:
			return rec(t.args[0]) + "<=0"
		case ONot:
			return "!" + rec(t.args[0])
		case OAnd:
			return "(" + j(" && ") + ")"
		case OOr:
			return "(" + j(" || ") + ")"
		case OForall:
			return "(forall " + j(". ") + ")"
		}
		return "?"
	}
	return rec(t)
}
