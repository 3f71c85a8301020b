package hexutil

import (
	"math/big"

	"flychain/internal/vspec"
)

// vsNumAt is the value (mod 2^64) of the k hexadecimal digits of s from position from.
//
//govc:spec
func vsNumAt(s string, from, k int) uint64 {
	if k <= 0 {
		return 0
	}
	return vsNumAt(s, from, k-1)*16 + uint64(vsVal(s[from+k-1]))
}

// vsGroup is the value of the i-th group of sixteen digits of s, from the right.
func vsGroup(s string, i int) uint64 {
	end := len(s) - 16*i
	if end <= 0 {
		return 0
	}
	if end < 16 {
		return vsNumAt(s, 0, end)
	}
	return vsNumAt(s, end-16, 16)
}

// vsBigValue is the value of the (at most 64) hexadecimal digits s.
func vsBigValue(s string) *big.Int {
	v := new(big.Int)
	for i := 3; i >= 0; i-- {
		v.Lsh(v, 64)
		v.Add(v, new(big.Int).SetUint64(vsGroup(s, i)))
	}
	return v
}

//govc:contract DecodeBig prop=C03 modular
func verif_DecodeBig(input string) {
	vspec.SplitBool(len(input) == 0)
	v, err := DecodeBig(input)
	ok := len(input) <= 66 && vsNumberSyntax(input)
	vspec.Ensures("accepts exactly minimal quantities below 2^256", (err == nil) == ok)
	if err == nil {
		vspec.Ensures("result", v != nil && vspec.Fresh(v))
		vspec.Ensures("value", v.Cmp(vsBigValue(input[2:])) == 0)
	} else {
		vspec.Ensures("no result on error", v == nil)
	}
}

//govc:cut DecodeBig
//govc:inv DecodeBig#0
func inv_DecodeBig(rng int, end int, words []big.Word, raw string) bool {
	return 0 <= rng && rng <= len(words) && len(words) == len(raw)/16+1 && len(raw) <= 64 &&
		(end == len(raw)-16*rng || end == 0 && len(raw) < 16*rng) &&
		vspec.Forall(0, rng, func(k int) bool { return uint64(words[k]) == vsGroup(raw, k) }) &&
		vspec.Forall(rng, len(words), func(k int) bool { return words[k] == 0 }) &&
		vspec.Forall(end, len(raw), func(k int) bool { return vsIsHex(raw[k]) })
}

//govc:inv DecodeBig#1
func inv_DecodeBig2(ri, i, start, end int, words []big.Word, raw string) bool {
	return start <= ri && ri <= end && uint64(words[i]) == vsNumAt(raw, start, ri-start) &&
		vspec.Forall(start, ri, func(k int) bool { return vsIsHex(raw[k]) })
}

//govc:contract MustDecodeBig prop=C03
func verif_MustDecodeBig(input string) {
	ok := len(input) <= 66 && vsNumberSyntax(input)
	var v *big.Int
	p := vspec.Panics(func() { v = MustDecodeBig(input) })
	vspec.Ensures("panics exactly on invalid input", p == !ok)
	if !p {
		vspec.Ensures("value", v.Cmp(vsBigValue(input[2:])) == 0)
	}
}

// vsBigQuantity: s[k:] is 0x followed by the shortest lower-case hexadecimal text of |x|.
func vsBigQuantity(s string, k int, x *big.Int) bool {
	n := (x.BitLen() + 3) / 4
	if n == 0 {
		n = 1
	}
	return len(s) == k+2+n && s[k] == '0' && s[k+1] == 'x' && vspec.Forall(0, n, func(i int) bool {
		j := n - 1 - i
		b := vspec.BigByte(x, j/2)
		if j%2 == 0 {
			b = b & 15
		} else {
			b = b >> 4
		}
		return s[k+2+i] == vsDigit(b)
	})
}

//govc:contract EncodeBig prop=C03 modular
func verif_EncodeBig(x *big.Int) {
	vspec.Requires(x != nil)
	s := EncodeBig(x)
	if x.Sign() >= 0 {
		vspec.Ensures("shortest lower-case quantity", vsBigQuantity(s, 0, x))
	} else {
		vspec.Ensures("minus sign and shortest quantity", len(s) > 0 && s[0] == '-' && vsBigQuantity(s, 1, x))
	}
}

// ---- Big ----

//govc:contract Big.MarshalText prop=C03
func verif_Big_MarshalText(b Big) {
	x := (*big.Int)(&b)
	vspec.Requires(x.Sign() >= 0)
	s, err := b.MarshalText()
	vspec.Ensures("never fails", err == nil)
	vspec.Ensures("shortest lower-case quantity", vsBigQuantity(string(s), 0, x))
}

//govc:contract Big.String prop=C03
func verif_Big_String(b *Big) {
	vspec.Requires(b != nil && b.ToInt().Sign() >= 0)
	vspec.Ensures("shortest lower-case quantity", vsBigQuantity(b.String(), 0, (*big.Int)(b)))
}

//govc:contract Big.UnmarshalText prop=C03 modular
func verif_Big_UnmarshalText(b *Big, input []byte) {
	vspec.Requires(b != nil)
	vspec.Modifies(b)
	old := new(big.Int).Set((*big.Int)(b))
	s := string(input)
	vspec.SplitBool(len(input) == 0)
	err := b.UnmarshalText(input)
	ok := len(s) == 0 || len(s) <= 66 && vsNumberSyntax(s)
	vspec.Ensures("accepts exactly minimal quantities below 2^256", (err == nil) == ok)
	if err == nil {
		if len(s) == 0 {
			vspec.Ensures("empty text is zero", (*big.Int)(b).Sign() == 0)
		} else {
			vspec.Ensures("value", (*big.Int)(b).Cmp(vsBigValue(s[2:])) == 0)
		}
	} else {
		vspec.Ensures("target unchanged on error", (*big.Int)(b).Cmp(old) == 0)
		vspec.Ensures("error kind", vsTextErr(err) || err == error(ErrBig256Range))
		vspec.Ensures("range error", (err == error(ErrBig256Range)) == (len(s) > 66 && vsPrefixed(s) && s[2] != '0'))
	}
}

//govc:cut Big.UnmarshalText
//govc:inv Big.UnmarshalText#0
func inv_Big_UnmarshalText(rng int, end int, words []big.Word, raw []byte) bool {
	s := string(raw)
	return 0 <= rng && rng <= len(words) && len(words) == len(raw)/16+1 && len(raw) <= 64 &&
		(end == len(raw)-16*rng || end == 0 && len(raw) < 16*rng) &&
		vspec.Forall(0, rng, func(k int) bool { return uint64(words[k]) == vsGroup(s, k) }) &&
		vspec.Forall(rng, len(words), func(k int) bool { return words[k] == 0 }) &&
		vspec.Forall(end, len(raw), func(k int) bool { return vsIsHex(raw[k]) })
}

//govc:inv Big.UnmarshalText#1
func inv_Big_UnmarshalText2(ri, i, start, end int, words []big.Word, raw []byte) bool {
	return start <= ri && ri <= end && uint64(words[i]) == vsNumAt(string(raw), start, ri-start) &&
		vspec.Forall(start, ri, func(k int) bool { return vsIsHex(raw[k]) })
}

//govc:contract Big.UnmarshalJSON prop=C03
func verif_Big_UnmarshalJSON(b *Big, input []byte) {
	vspec.Requires(b != nil)
	vspec.Modifies(b)
	old := new(big.Int).Set((*big.Int)(b))
	quoted := vsQuoted(input)
	s := ""
	if quoted {
		s = string(input[1 : len(input)-1])
	}
	err := b.UnmarshalJSON(input)
	ok := quoted && (len(s) == 0 || len(s) <= 66 && vsNumberSyntax(s))
	vspec.Ensures("accepts exactly quoted minimal quantities below 2^256", (err == nil) == ok)
	if err == nil {
		if len(s) == 0 {
			vspec.Ensures("empty text is zero", (*big.Int)(b).Sign() == 0)
		} else {
			vspec.Ensures("value", (*big.Int)(b).Cmp(vsBigValue(s[2:])) == 0)
		}
	} else {
		vspec.Ensures("target unchanged on error", (*big.Int)(b).Cmp(old) == 0)
	}
}

//govc:contract Big.UnmarshalGraphQL prop=C03
func verif_Big_UnmarshalGraphQL(b *Big, input interface{}) {
	vspec.Requires(b != nil)
	vspec.Modifies(b)
	old := new(big.Int).Set((*big.Int)(b))
	err := b.UnmarshalGraphQL(input)
	now := (*big.Int)(b)
	switch v := input.(type) {
	case string:
		ok := len(v) == 0 || len(v) <= 66 && vsNumberSyntax(v)
		vspec.Ensures("accepts exactly minimal quantities below 2^256", (err == nil) == ok)
		if err != nil {
			vspec.Ensures("target unchanged on error", now.Cmp(old) == 0)
		} else if len(v) == 0 {
			vspec.Ensures("empty text is zero", now.Sign() == 0)
		} else {
			vspec.Ensures("value", now.Cmp(vsBigValue(v[2:])) == 0)
		}
	case int32:
		vspec.Ensures("accepts 32-bit integers", err == nil)
		vspec.Ensures("integer value", now.IsInt64() && now.Int64() == int64(v))
	default:
		vspec.Ensures("rejects other values", err != nil)
		vspec.Ensures("target unchanged on error", now.Cmp(old) == 0)
	}
}
