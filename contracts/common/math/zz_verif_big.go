package math

import (
	"math/big"

	"flychain/internal/vspec"
)

func vsPow2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

//govc:contract U256 prop=C11
func verif_U256(x *big.Int) {
	vspec.Requires(x != nil)
	vspec.Modifies(x)
	old := new(big.Int).Set(x)
	r := U256(x)
	vspec.Ensures("in range", r.Sign() >= 0 && r.Cmp(vsPow2(256)) < 0)
	vspec.Ensures("congruent", r.Cmp(new(big.Int).Mod(old, vsPow2(256))) == 0)
}

//govc:contract S256 prop=C11
func verif_S256(x *big.Int) {
	vspec.Requires(x != nil && x.Sign() >= 0 && x.Cmp(vsPow2(256)) < 0)
	r := S256(x)
	half := vsPow2(255)
	vspec.Ensures("in range", r.Cmp(half) < 0 && r.Cmp(new(big.Int).Neg(half)) >= 0)
	vspec.Ensures("congruent", new(big.Int).Mod(r, vsPow2(256)).Cmp(x) == 0)
}

//govc:contract BigMax prop=C11
func verif_BigMax(x, y *big.Int) {
	vspec.Requires(x != nil && y != nil)
	r := BigMax(x, y)
	vspec.Ensures("one of the arguments", r == x || r == y)
	vspec.Ensures("not smaller than either", r.Cmp(x) >= 0 && r.Cmp(y) >= 0)
}

//govc:contract BigMin prop=C11
func verif_BigMin(x, y *big.Int) {
	vspec.Requires(x != nil && y != nil)
	r := BigMin(x, y)
	vspec.Ensures("one of the arguments", r == x || r == y)
	vspec.Ensures("not larger than either", r.Cmp(x) <= 0 && r.Cmp(y) <= 0)
}

// ---- C12 ----

//govc:contract ReadBits prop=C12 modular
func verif_ReadBits(x *big.Int, buf []byte) {
	vspec.Requires(x != nil && vspec.Separate(x, buf))
	vspec.Modifies(buf)
	old := append([]byte{}, buf...)
	ReadBits(x, buf)
	n := len(buf)
	vspec.Ensures("low bytes, big-endian", vspec.Forall(0, n, func(i int) bool {
		b := vspec.BigByte(x, n-1-i)
		return buf[i] == b || (b == 0 && n-1-i >= vsByteLen(x) && buf[i] == old[i])
	}))
}

//govc:cut ReadBits#0
//govc:inv ReadBits#0
func inv_ReadBits(rng, i int, bigint *big.Int, buf []byte) bool {
	n := len(buf)
	return 0 <= rng && (i == n-8*rng || i == 0 && n < 8*rng) && i >= 0 &&
		vspec.Forall(i, n, func(p int) bool { return buf[p] == vspec.BigByte(bigint, n-1-p) }) &&
		vspec.Forall(0, i, func(p int) bool { return buf[p] == vspec.ByteAtEntry(buf, p) })
}

func vsByteLen(x *big.Int) int { return (x.BitLen() + 7) / 8 }

//govc:contract FirstBitSet prop=C12
func verif_FirstBitSet(x *big.Int) {
	vspec.Requires(x != nil && x.Sign() >= 0)
	r := FirstBitSet(x)
	vspec.Ensures("a position in the number, or its length", r >= 0 && r <= x.BitLen() && (r < x.BitLen() || x.Sign() == 0))
	vspec.Ensures("the bit is set", x.Sign() == 0 || x.Bit(r) == 1)
	vspec.Ensures("no lower bit is", vspec.Forall(0, r, func(i int) bool { return x.Bit(i) == 0 }))
}

//govc:inv FirstBitSet
func inv_FirstBitSet(i int, v *big.Int) bool {
	return 0 <= i && vspec.Forall(0, i, func(j int) bool { return v.Bit(j) == 0 })
}

//govc:contract PaddedBigBytes prop=C12
func verif_PaddedBigBytes(x *big.Int, n int) {
	vspec.Requires(x != nil && x.Sign() >= 0)
	b := PaddedBigBytes(x, n)
	m := vsByteLen(x)
	if m < n {
		m = n
	}
	vspec.Ensures("width", len(b) == m)
	vspec.Ensures("big-endian bytes behind zeros", vspec.Forall(0, m, func(i int) bool { return b[i] == vspec.BigByte(x, m-1-i) }))
}

//govc:contract bigEndianByteAt prop=C12
func verif_bigEndianByteAt(x *big.Int, n int) {
	vspec.Requires(x != nil && n >= 0)
	vspec.Ensures("byte n from the low end", bigEndianByteAt(x, n) == vspec.BigByte(x, n))
}

//govc:contract Byte prop=C12
func verif_Byte(x *big.Int, padlength, n int) {
	vspec.Requires(x != nil && n >= 0)
	b := Byte(x, padlength, n)
	if n >= padlength {
		vspec.Ensures("zero outside", b == 0)
	} else {
		vspec.Ensures("byte n from the front of the padded form", b == vspec.BigByte(x, padlength-1-n))
	}
}

//govc:contract U256Bytes prop=C12
func verif_U256Bytes(x *big.Int) {
	vspec.Requires(x != nil)
	vspec.Modifies(x)
	m := new(big.Int).Mod(x, vsPow2(256))
	vspec.SplitBool(m.BitLen() > 248)
	b := U256Bytes(x)
	vspec.Ensures("the value modulo 2^256", len(b) == 32 && vspec.Forall(0, 32, func(i int) bool { return b[i] == vspec.BigByte(m, 31-i) }))
}

// ---- C11: power ----

// vsPowMod is base^e mod 2^256.
func vsPowMod(base, e *big.Int) *big.Int {
	return vspec.MulPowMod(big.NewInt(1), base, e, vsPow2(256))
}

//govc:contract Exp prop=C11
func verif_Exp(base, exponent *big.Int) {
	vspec.Requires(base != nil && exponent != nil && exponent.Sign() >= 0)
	r := Exp(base, exponent)
	vspec.Ensures("base^exponent mod 2^256", r.Cmp(vsPowMod(base, exponent)) == 0)
	vspec.Ensures("newly allocated", vspec.Fresh(r))
}

//govc:cut Exp#0
//govc:inv Exp#0
func inv_Exp(rng int, base, result, arg_base, exponent *big.Int) bool {
	m := vsPow2(256)
	return result.Sign() >= 0 && result.Cmp(m) < 0 &&
		vspec.MulPowMod(result, base, vspec.BigRest(exponent, rng), m).Cmp(vsPowMod(arg_base, exponent)) == 0
}
