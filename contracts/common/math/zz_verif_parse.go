package math

import (
	"math/big"

	"flychain/internal/vspec"
)

// vsParse is the meaning of a hex-or-decimal integer text.
func vsParse(s string) (*big.Int, bool) {
	if s == "" {
		return new(big.Int), true
	}
	var v *big.Int
	var ok bool
	if len(s) >= 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') {
		v, ok = new(big.Int).SetString(s[2:], 16)
	} else {
		v, ok = new(big.Int).SetString(s, 10)
	}
	if !ok || v.BitLen() > 256 {
		return nil, false
	}
	return v, true
}

//govc:contract ParseBig256 prop=C13
func verif_ParseBig256(s string) {
	v, want := vsParse(s)
	r, ok := ParseBig256(s)
	vspec.Ensures("accepts exactly the parsable 256-bit texts", ok == want)
	if ok {
		vspec.Ensures("value", r != nil && r.Cmp(v) == 0)
		vspec.Ensures("newly allocated", vspec.Fresh(r))
	} else {
		vspec.Ensures("no value on failure", r == nil)
	}
}

//govc:contract HexOrDecimal256.UnmarshalText prop=C13
func verif_HexOrDecimal256_UnmarshalText(i *HexOrDecimal256, input []byte) {
	vspec.Requires(i != nil)
	vspec.Modifies(i)
	old := new(big.Int).Set((*big.Int)(i))
	v, ok := vsParse(string(input))
	err := i.UnmarshalText(input)
	vspec.Ensures("error exactly on unparsable text", (err == nil) == ok)
	if ok {
		vspec.Ensures("value", (*big.Int)(i).Cmp(v) == 0)
	} else {
		vspec.Ensures("target untouched", (*big.Int)(i).Cmp(old) == 0)
	}
}

//govc:contract Decimal256.UnmarshalText prop=C13
func verif_Decimal256_UnmarshalText(i *Decimal256, input []byte) {
	vspec.Requires(i != nil)
	vspec.Modifies(i)
	old := new(big.Int).Set((*big.Int)(i))
	v, ok := vsParse(string(input))
	err := i.UnmarshalText(input)
	vspec.Ensures("error exactly on unparsable text", (err == nil) == ok)
	if ok {
		vspec.Ensures("value", (*big.Int)(i).Cmp(v) == 0)
	} else {
		vspec.Ensures("target untouched", (*big.Int)(i).Cmp(old) == 0)
	}
}
