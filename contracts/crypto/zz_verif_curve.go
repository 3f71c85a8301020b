package crypto

import (
	"math/big"

	"flychain/internal/vspec"
)

var _ = vspec.Gen((*BitCurve)(nil), func(intn func(int) int) interface{} {
	switch k := intn(6); k {
	case 0:
		return *S256()
	case 1:
		return *S224()
	case 2:
		return *S160()
	default:
		return BitCurve{P: big.NewInt([]int64{7, 11, 23}[k-3]), N: big.NewInt(1), B: big.NewInt(int64(intn(7))),
			Gx: big.NewInt(int64(intn(7))), Gy: big.NewInt(int64(intn(7))), BitSize: 8 * intn(3)}
	}
})

func vsCurve(c *BitCurve) bool {
	return c != nil && c.P != nil && vspec.Prime(c.P)
}

// vsCong: a and b are congruent modulo m.
func vsCong(a, b, m *big.Int) bool {
	return new(big.Int).Mod(a, m).Cmp(new(big.Int).Mod(b, m)) == 0
}

func vsIn(x, m *big.Int) bool { return vspec.All(x.Sign() >= 0, x.Cmp(m) < 0) }

func vsMul(xs ...*big.Int) *big.Int {
	r := big.NewInt(1)
	for _, x := range xs {
		r.Mul(r, x)
	}
	return r
}
func vsAdd(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }
func vsSub(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }
func vsN(n int64, a *big.Int) *big.Int {
	return new(big.Int).Mul(big.NewInt(n), a)
}

//govc:contract BitCurve.IsOnCurve prop=C17
func verif_IsOnCurve(c *BitCurve, x, y *big.Int) {
	vspec.Requires(vsCurve(c) && c.B != nil && x != nil && y != nil)
	r := c.IsOnCurve(x, y)
	vspec.Ensures("exactly the solutions of y^2 = x^3 + b", r == vsCong(vsMul(y, y), vsAdd(vsMul(x, x, x), c.B), c.P))
}

// A Jacobian triple (x, y, z) stands for the point (x/z^2, y/z^3).
//
//govc:contract BitCurve.affineFromJacobian prop=C17 modular
func verif_affineFromJacobian(c *BitCurve, x, y, z *big.Int) {
	vspec.Requires(vsCurve(c) && x != nil && y != nil && z != nil && vsIn(z, c.P))
	rx, ry := c.affineFromJacobian(x, y, z)
	vspec.Ensures("not nil", vspec.All(rx != nil, ry != nil))
	vspec.Ensures("fresh", vspec.All(vspec.Fresh(rx), vspec.Fresh(ry)))
	vspec.Ensures("infinity is (0, 0)", vspec.Any(z.Sign() != 0, vspec.All(rx.Sign() == 0, ry.Sign() == 0)))
	vspec.Ensures("reduced", vspec.All(vsIn(rx, c.P), vsIn(ry, c.P)))
	vspec.Ensures("x is X/Z^2", vspec.Any(z.Sign() == 0, vsCong(vsMul(rx, z, z), x, c.P)))
	vspec.Ensures("y is Y/Z^3", vspec.Any(z.Sign() == 0, vsCong(vsMul(ry, z, z, z), y, c.P)))
}

// vsIsDouble: (rx, ry, rz) is twice (x, y, z) on y^2 = x^3 + b: with the
// tangent's slope 3x^2/2y, and rz = 2yz.
func vsIsDouble(x, y, z, rx, ry, rz, p *big.Int) bool {
	n := vsN(3, vsMul(x, x))
	d := vsN(4, vsMul(x, y, y))
	return vspec.All(vsIn(rx, p), vsIn(ry, p), vsIn(rz, p),
		vsCong(rx, vsSub(vsMul(n, n), vsN(2, d)), p),
		vsCong(ry, vsSub(vsMul(n, vsSub(d, rx)), vsN(8, vsMul(y, y, y, y))), p),
		vsCong(rz, vsN(2, vsMul(y, z)), p))
}

//govc:contract BitCurve.doubleJacobian prop=C17 modular
func verif_doubleJacobian(c *BitCurve, x, y, z *big.Int) {
	vspec.Requires(vsCurve(c) && x != nil && y != nil && z != nil)
	rx, ry, rz := c.doubleJacobian(x, y, z)
	vspec.Ensures("not nil", vspec.All(rx != nil, ry != nil, rz != nil))
	vspec.Ensures("fresh", vspec.All(vspec.Fresh(rx), vspec.Fresh(ry), vspec.Fresh(rz)))
	vspec.Ensures("the tangent construction", vsIsDouble(x, y, z, rx, ry, rz, c.P))
}

// vsIsSum: the chord construction, with the points brought to the common
// denominator z1*z2: u = x/z^2, s = y/z^3, slope (s2-s1)/(u2-u1).
func vsIsSum(x1, y1, z1, x2, y2, z2, rx, ry, rz, p *big.Int) bool {
	u1, u2 := vsMul(x1, z2, z2), vsMul(x2, z1, z1)
	s1, s2 := vsMul(y1, z2, z2, z2), vsMul(y2, z1, z1, z1)
	h, r := vsSub(u2, u1), vsSub(s2, s1)
	return vspec.All(vsIn(rx, p), vsIn(ry, p), vsIn(rz, p),
		vsCong(rx, vsN(4, vsSub(vsMul(r, r), vsMul(h, h, vsAdd(u1, u2)))), p),
		vsCong(ry, vsSub(vsN(2, vsMul(r, vsSub(vsN(4, vsMul(u1, h, h)), rx))), vsN(8, vsMul(s1, h, h, h))), p),
		vsCong(rz, vsN(2, vsMul(z1, z2, h)), p))
}

// vsSame: the triples stand for the same point.
func vsSame(x1, y1, z1, x2, y2, z2, p *big.Int) bool {
	return vspec.All(vsCong(vsMul(x1, z2, z2), vsMul(x2, z1, z1), p), vsCong(vsMul(y1, z2, z2, z2), vsMul(y2, z1, z1, z1), p))
}


func vsEq(a, b *big.Int) bool { return a.Cmp(b) == 0 }

//govc:contract BitCurve.addJacobian prop=C17 modular
func verif_addJacobian(c *BitCurve, x1, y1, z1, x2, y2, z2 *big.Int) {
	vspec.Requires(vsCurve(c) && x1 != nil && y1 != nil && z1 != nil && x2 != nil && y2 != nil && z2 != nil)
	vspec.Requires(vsIn(z1, c.P) && vsIn(z2, c.P))
	vspec.SplitBool(z1.Sign() == 0)
	vspec.SplitBool(z2.Sign() == 0)
	rx, ry, rz := c.addJacobian(x1, y1, z1, x2, y2, z2)
	i1, i2 := z1.Sign() == 0, z2.Sign() == 0
	same := vsSame(x1, y1, z1, x2, y2, z2, c.P)
	vspec.Ensures("not nil", vspec.All(rx != nil, ry != nil, rz != nil))
	vspec.Ensures("fresh", vspec.Any(i1, i2, vspec.All(vspec.Fresh(rx), vspec.Fresh(ry), vspec.Fresh(rz))))
	vspec.Ensures("infinity plus a point", vspec.Any(!i1, vspec.All(vsEq(rx, x2), vsEq(ry, y2), vsEq(rz, z2))))
	vspec.Ensures("a point plus infinity", vspec.Any(i1, !i2, vspec.All(vsEq(rx, x1), vsEq(ry, y1), vsEq(rz, z1))))
	vspec.Ensures("equal points", vspec.Any(i1, i2, !same, vsIsDouble(x1, y1, z1, rx, ry, rz, c.P)))
	vspec.Ensures("different points", vspec.Any(i1, i2, same, vsIsSum(x1, y1, z1, x2, y2, z2, rx, ry, rz, c.P)))
}

func vsInf(x, y *big.Int) bool { return vspec.All(x.Sign() == 0, y.Sign() == 0) }

//govc:contract BitCurve.Double prop=C17
func verif_Double(c *BitCurve, x, y *big.Int) {
	vspec.Requires(vsCurve(c) && x != nil && y != nil)
	vspec.SplitBool(vsCong(vsN(2, y), new(big.Int), c.P))
	rx, ry := c.Double(x, y)
	vspec.Ensures("not nil", vspec.All(rx != nil, ry != nil))
	vspec.Ensures("reduced", vspec.All(vsIn(rx, c.P), vsIn(ry, c.P)))
	// the tangent's slope is n/d
	n, d := vsN(3, vsMul(x, x)), vsN(2, y)
	vertical := vsCong(d, new(big.Int), c.P)
	vspec.Ensures("a vertical tangent gives infinity", vspec.Any(!vertical, vsInf(rx, ry)))
	vspec.Ensures("x = (n/d)^2 - 2x", vspec.Any(vertical, vsCong(vsMul(d, d, vsAdd(rx, vsN(2, x))), vsMul(n, n), c.P)))
	vspec.Ensures("y = (n/d)(x - x') - y", vspec.Any(vertical, vsCong(vsMul(d, d, d, vsAdd(ry, y)), vsMul(d, d, n, vsSub(x, rx)), c.P)))
}

//govc:contract BitCurve.Add prop=C17
func verif_Add(c *BitCurve, x1, y1, x2, y2 *big.Int) {
	vspec.Requires(vsCurve(c) && x1 != nil && y1 != nil && x2 != nil && y2 != nil)
	vspec.SplitBool(x1.Sign() == 0)
	vspec.SplitBool(y1.Sign() == 0)
	vspec.SplitBool(x2.Sign() == 0)
	vspec.SplitBool(y2.Sign() == 0)
	vspec.SplitBool(vsCong(x1, x2, c.P))
	vspec.SplitBool(vsCong(y1, y2, c.P))
	rx, ry := c.Add(x1, y1, x2, y2)
	vspec.Ensures("not nil", vspec.All(rx != nil, ry != nil))
	i1, i2 := vsInf(x1, y1), vsInf(x2, y2)
	vspec.Ensures("infinity plus a point", vspec.Any(!i1, vspec.All(vsEq(rx, x2), vsEq(ry, y2))))
	vspec.Ensures("a point plus infinity", vspec.Any(i1, !i2, vspec.All(vsEq(rx, x1), vsEq(ry, y1))))
	vspec.Ensures("reduced", vspec.Any(i1, i2, vspec.All(vsIn(rx, c.P), vsIn(ry, c.P))))
	same := vspec.All(vsCong(x1, x2, c.P), vsCong(y1, y2, c.P))
	n, d := vsN(3, vsMul(x1, x1)), vsN(2, y1)
	dbl := vspec.All(!i1, !i2, same)
	vspec.Ensures("a vertical tangent gives infinity", vspec.Any(!dbl, !vsCong(d, new(big.Int), c.P), vsInf(rx, ry)))
	dbl = vspec.All(dbl, !vsCong(d, new(big.Int), c.P))
	vspec.Ensures("tangent: x", vspec.Any(!dbl, vsCong(vsMul(d, d, vsAdd(rx, vsN(2, x1))), vsMul(n, n), c.P)))
	vspec.Ensures("tangent: y", vspec.Any(!dbl, vsCong(vsMul(d, d, d, vsAdd(ry, y1)), vsMul(d, d, n, vsSub(x1, rx)), c.P)))
	n, d = vsN(2, vsSub(y2, y1)), vsN(2, vsSub(x2, x1))
	add := vspec.All(!i1, !i2, !same)
	vspec.Ensures("a vertical chord gives infinity", vspec.Any(!add, !vsCong(d, new(big.Int), c.P), vsInf(rx, ry)))
	add = vspec.All(add, !vsCong(d, new(big.Int), c.P))
	vspec.Ensures("chord: x", vspec.Any(!add, vsCong(vsMul(d, d, vsAdd(rx, vsAdd(x1, x2))), vsMul(n, n), c.P)))
	vspec.Ensures("chord: y", vspec.Any(!add, vsCong(vsMul(d, d, d, vsAdd(ry, y1)), vsMul(d, d, n, vsSub(x1, rx)), c.P)))
}

// ---- C18 ----

func vsByteLen(c *BitCurve) int { return (c.BitSize + 7) / 8 }

func vsFits(x *big.Int, n int) bool { return x.Sign() >= 0 && x.BitLen() <= 8*n }

//govc:contract BitCurve.Marshal prop=C18 modular
func verif_Marshal(c *BitCurve, x, y *big.Int) {
	vspec.Requires(c != nil && c.BitSize >= 0 && c.BitSize <= 1<<30 && x != nil && y != nil)
	n := vsByteLen(c)
	vspec.Requires(vsFits(x, n))
	vspec.Requires(vsFits(y, n))
	r := c.Marshal(x, y)
	vspec.Ensures("length", len(r) == 1+2*n)
	vspec.Ensures("uncompressed form", r[0] == 4)
	vspec.Ensures("x, big-endian", vspec.Forall(0, n, func(i int) bool { return r[1+i] == vspec.BigByte(x, n-1-i) }))
	vspec.Ensures("y, big-endian", vspec.Forall(0, n, func(i int) bool { return r[1+n+i] == vspec.BigByte(y, n-1-i) }))
}

//govc:contract BitCurve.Unmarshal prop=C18 modular
func verif_Unmarshal(c *BitCurve, data []byte) {
	vspec.Requires(c != nil && c.BitSize >= 0 && c.BitSize <= 1<<30)
	n := vsByteLen(c)
	x, y := c.Unmarshal(data)
	ok := len(data) == 1+2*n && data[0] == 4
	vspec.Ensures("accepts exactly uncompressed points", ok == (x != nil))
	vspec.Ensures("both or none", (x == nil) == (y == nil))
	if ok {
		vspec.Ensures("not negative", x.Sign() >= 0 && y.Sign() >= 0)
		vspec.Ensures("x fits", x.BitLen() <= 8*n)
		vspec.Ensures("y fits", y.BitLen() <= 8*n)
		vspec.Ensures("x", vspec.Forall(0, n, func(i int) bool { return data[1+i] == vspec.BigByte(x, n-1-i) }))
		vspec.Ensures("y", vspec.Forall(0, n, func(i int) bool { return data[1+n+i] == vspec.BigByte(y, n-1-i) }))
	}
}

//govc:lemma prop=C18
func verif_MarshalRoundTrip(c *BitCurve, x, y *big.Int) {
	vspec.Requires(c != nil && c.BitSize >= 0 && c.BitSize <= 1<<30 && x != nil && y != nil)
	n := vsByteLen(c)
	vspec.Requires(vsFits(x, n))
	vspec.Requires(vsFits(y, n))
	d := c.Marshal(x, y)
	a, b := c.Unmarshal(d)
	vspec.Ensures("accepted", a != nil && b != nil)
	vspec.BigExt(a, x)
	vspec.BigExt(b, y)
	vspec.Ensures("same x", a.Cmp(x) == 0)
	vspec.Ensures("same y", b.Cmp(y) == 0)
}
