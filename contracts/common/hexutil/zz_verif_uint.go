package hexutil

import (
	"strconv"

	"flychain/internal/vspec"
)

// vsDigits is the number of hexadecimal digits of i (1 for 0).
func vsDigits(i uint64) int {
	n := 1
	for k := 4; k < 64; k += 4 {
		if i>>uint(k) != 0 {
			n++
		}
	}
	return n
}

// vsQuantity: s is the quantity encoding of v.
func vsQuantity(s string, v uint64) bool {
	n := vspec.Split(vsDigits(v), 1, 16)
	if len(s) != n+2 || s[0] != '0' || s[1] != 'x' {
		return false
	}
	ok := true
	for k := 0; k < n; k++ {
		if s[2+k] != vsDigit(byte(v>>uint(4*(n-1-k)))&15) {
			ok = false
		}
	}
	return ok
}

// vsNumTo is the value (mod 2^64) of the hexadecimal digits s[:k].
//
//govc:spec
func vsNumTo(s string, k int) uint64 {
	if k <= 0 {
		return 0
	}
	return vsNumTo(s, k-1)*16 + uint64(vsVal(s[k-1]))
}

// vsScale: a number of k hexadecimal digits, the first of them not zero.
func vsScale(n uint64, k int) bool {
	return 0 <= k && k <= 16 && (k != 0 || n == 0) &&
		(k != 1 || n >= 1 && n <= 0xf) &&
		(k != 2 || n >= 0x10 && n <= 0xff) &&
		(k != 3 || n >= 0x100 && n <= 0xfff) &&
		(k != 4 || n >= 0x1000 && n <= 0xffff) &&
		(k != 5 || n >= 0x10000 && n <= 0xfffff) &&
		(k != 6 || n >= 0x100000 && n <= 0xffffff) &&
		(k != 7 || n >= 0x1000000 && n <= 0xfffffff) &&
		(k != 8 || n >= 0x10000000 && n <= 0xffffffff) &&
		(k != 9 || n >= 0x100000000 && n <= 0xfffffffff) &&
		(k != 10 || n >= 0x1000000000 && n <= 0xffffffffff) &&
		(k != 11 || n >= 0x10000000000 && n <= 0xfffffffffff) &&
		(k != 12 || n >= 0x100000000000 && n <= 0xffffffffffff) &&
		(k != 13 || n >= 0x1000000000000 && n <= 0xfffffffffffff) &&
		(k != 14 || n >= 0x10000000000000 && n <= 0xffffffffffffff) &&
		(k != 15 || n >= 0x100000000000000 && n <= 0xfffffffffffffff) &&
		(k != 16 || n >= 0x1000000000000000)
}

// vsNumberSyntax: 0x, at least one digit, no leading zero, only digits.
func vsNumberSyntax(s string) bool {
	return vsPrefixed(s) && len(s) > 2 && (len(s) == 3 || s[2] != '0') && vsHexStr(s, 2)
}

//govc:contract EncodeUint64 prop=C02
func verif_EncodeUint64(i uint64) {
	vspec.Split(vsDigits(i), 1, 16)
	vspec.Ensures("shortest lower-case quantity", vsQuantity(EncodeUint64(i), i))
}

//govc:contract DecodeUint64 prop=C02 modular
func verif_DecodeUint64(input string) {
	v, err := DecodeUint64(input)
	ok := len(input) <= 18 && vsNumberSyntax(input)
	vspec.Ensures("accepts exactly minimal quantities below 2^64", (err == nil) == ok)
	if err == nil {
		vspec.Ensures("value", v == vsNumTo(input[2:], len(input)-2))
	}
}

// strconv.ParseUint in base 16 on numbers without leading zeros.
//
//govc:contract strconv:ParseUint prop=C02 modular support
func verif_ParseUint(s string, base int, bitSize int) {
	vspec.Requires(base == 16 && bitSize == 64 && len(s) > 0 && (len(s) == 1 || s[0] != '0'))
	v, err := strconv.ParseUint(s, base, bitSize)
	vspec.Ensures("accepts exactly numbers below 2^64", (err == nil) == (len(s) <= 16 && vsHexStr(s, 0)))
	if err == nil {
		vspec.Ensures("value", v == vsNumTo(s, len(s)))
	} else {
		ne, ok := err.(*strconv.NumError)
		vspec.Ensures("error kind", ok && ne != nil)
	}
}

// A hexadecimal number without leading zeros grows by four bits per digit.
//
//govc:inv internal/strconv:ParseUint
func inv_ParseUint(rng int, n uint64, s string) bool {
	return n == vsNumTo(s, rng) && 0 <= rng && rng <= len(s) &&
		(len(s) == 1 && s[0] == '0' && n == 0 || vsScale(n, rng)) &&
		vspec.Forall(0, rng, func(i int) bool { return vsIsHex(s[i]) })
}

//govc:contract MustDecodeUint64 prop=C02
func verif_MustDecodeUint64(input string) {
	ok := len(input) <= 18 && vsNumberSyntax(input)
	var v uint64
	p := vspec.Panics(func() { v = MustDecodeUint64(input) })
	vspec.Ensures("panics exactly on invalid input", p == !ok)
	if !p {
		vspec.Ensures("value", v == vsNumTo(input[2:], len(input)-2))
	}
}

// vsTextErr: err is one of the decoding errors.
func vsTextErr(err error) bool {
	return err == error(ErrMissingPrefix) || err == error(ErrEmptyNumber) || err == error(ErrLeadingZero) ||
		err == error(ErrSyntax) || err == error(ErrUint64Range) || err == error(ErrUintRange)
}

// ---- Uint64 ----

//govc:contract Uint64.MarshalText prop=C02
func verif_Uint64_MarshalText(b Uint64) {
	vspec.Split(vsDigits(uint64(b)), 1, 16)
	s, err := b.MarshalText()
	vspec.Ensures("never fails", err == nil)
	vspec.Ensures("shortest lower-case quantity", vsQuantity(string(s), uint64(b)))
	vspec.Ensures("fresh memory", vspec.Fresh(s))
}

//govc:contract Uint64.String prop=C02
func verif_Uint64_String(b Uint64) {
	vspec.Split(vsDigits(uint64(b)), 1, 16)
	vspec.Ensures("shortest lower-case quantity", vsQuantity(b.String(), uint64(b)))
}

//govc:contract Uint64.UnmarshalText prop=C02 modular
func verif_Uint64_UnmarshalText(b *Uint64, input []byte) {
	vspec.Requires(b != nil)
	vspec.Modifies(b)
	old := *b
	s := string(input)
	err := b.UnmarshalText(input)
	ok := len(s) == 0 || len(s) <= 18 && vsNumberSyntax(s)
	vspec.Ensures("accepts exactly minimal quantities below 2^64", (err == nil) == ok)
	if err == nil {
		if len(s) == 0 {
			vspec.Ensures("empty text is zero", *b == 0)
		} else {
			vspec.Ensures("value", uint64(*b) == vsNumTo(s[2:], len(s)-2))
		}
	} else {
		vspec.Ensures("target unchanged on error", *b == old)
		vspec.Ensures("error kind", vsTextErr(err))
		vspec.Ensures("range error", (err == error(ErrUint64Range)) == (len(s) > 18 && vsPrefixed(s) && s[2] != '0'))
	}
}

//govc:inv Uint64.UnmarshalText
func inv_Uint64_UnmarshalText(rng int, dec uint64, raw []byte) bool {
	return 0 <= rng && rng <= len(raw) && dec == vsNumTo(string(raw), rng) &&
		vspec.Forall(0, rng, func(i int) bool { return vsIsHex(raw[i]) })
}

//govc:contract Uint64.UnmarshalJSON prop=C02
func verif_Uint64_UnmarshalJSON(b *Uint64, input []byte) {
	vspec.Requires(b != nil)
	vspec.Modifies(b)
	old := *b
	quoted := vsQuoted(input)
	s := ""
	if quoted {
		s = string(input[1 : len(input)-1])
	}
	err := b.UnmarshalJSON(input)
	ok := quoted && (len(s) == 0 || len(s) <= 18 && vsNumberSyntax(s))
	vspec.Ensures("accepts exactly quoted minimal quantities below 2^64", (err == nil) == ok)
	if err == nil {
		vspec.Ensures("value", len(s) == 0 && *b == 0 || len(s) > 0 && uint64(*b) == vsNumTo(s[2:], len(s)-2))
	} else {
		vspec.Ensures("target unchanged on error", *b == old)
	}
}

//govc:contract Uint64.UnmarshalGraphQL prop=C02
func verif_Uint64_UnmarshalGraphQL(b *Uint64, input interface{}) {
	vspec.Requires(b != nil)
	vspec.Modifies(b)
	old := *b
	err := b.UnmarshalGraphQL(input)
	switch v := input.(type) {
	case string:
		ok := len(v) == 0 || len(v) <= 18 && vsNumberSyntax(v)
		vspec.Ensures("accepts exactly minimal quantities below 2^64", (err == nil) == ok)
		if err == nil {
			vspec.Ensures("value", len(v) == 0 && *b == 0 || len(v) > 0 && uint64(*b) == vsNumTo(v[2:], len(v)-2))
		} else {
			vspec.Ensures("target unchanged on error", *b == old)
		}
	case int32:
		vspec.Ensures("accepts 32-bit integers", err == nil)
		if v >= 0 {
			vspec.Ensures("integer value", *b == Uint64(v))
		}
	default:
		vspec.Ensures("rejects other values", err != nil)
		vspec.Ensures("target unchanged on error", *b == old)
	}
}

// ---- Uint ----

//govc:contract Uint.MarshalText prop=C02
func verif_Uint_MarshalText(b Uint) {
	vspec.Split(vsDigits(uint64(b)), 1, 16)
	s, err := b.MarshalText()
	vspec.Ensures("never fails", err == nil)
	vspec.Ensures("shortest lower-case quantity", vsQuantity(string(s), uint64(b)))
}

//govc:contract Uint.String prop=C02
func verif_Uint_String(b Uint) {
	vspec.Split(vsDigits(uint64(b)), 1, 16)
	vspec.Ensures("shortest lower-case quantity", vsQuantity(b.String(), uint64(b)))
}

//govc:contract Uint.UnmarshalText prop=C02 modular
func verif_Uint_UnmarshalText(b *Uint, input []byte) {
	vspec.Requires(b != nil)
	vspec.Modifies(b)
	old := *b
	s := string(input)
	err := b.UnmarshalText(input)
	ok := len(s) == 0 || len(s) <= 18 && vsNumberSyntax(s)
	vspec.Ensures("accepts exactly minimal quantities below 2^64", (err == nil) == ok)
	if err == nil {
		if len(s) == 0 {
			vspec.Ensures("empty text is zero", *b == 0)
		} else {
			vspec.Ensures("value", uint64(*b) == vsNumTo(s[2:], len(s)-2))
		}
	} else {
		vspec.Ensures("target unchanged on error", *b == old)
		vspec.Ensures("error kind", vsTextErr(err))
	}
}

//govc:contract Uint.UnmarshalJSON prop=C02
func verif_Uint_UnmarshalJSON(b *Uint, input []byte) {
	vspec.Requires(b != nil)
	vspec.Modifies(b)
	old := *b
	quoted := vsQuoted(input)
	s := ""
	if quoted {
		s = string(input[1 : len(input)-1])
	}
	err := b.UnmarshalJSON(input)
	ok := quoted && (len(s) == 0 || len(s) <= 18 && vsNumberSyntax(s))
	vspec.Ensures("accepts exactly quoted minimal quantities below 2^64", (err == nil) == ok)
	if err == nil {
		vspec.Ensures("value", len(s) == 0 && *b == 0 || len(s) > 0 && uint64(*b) == vsNumTo(s[2:], len(s)-2))
	} else {
		vspec.Ensures("target unchanged on error", *b == old)
	}
}

// ---- round trip ----

// The digits of the encoding have the encoded value.
//
//govc:lemma prop=C02
func verif_lemma_uint64_roundtrip(v uint64) {
	n := vspec.Split(vsDigits(v), 1, 16)
	s := EncodeUint64(v)
	d, err := DecodeUint64(s)
	vspec.Ensures("decodes", err == nil)
	for k := 1; k <= n; k++ {
		vspec.Lemma("prefix value", vsNumTo(s[2:], k) == v>>uint(4*(n-k)))
	}
	vspec.Ensures("same value", d == v)
}
