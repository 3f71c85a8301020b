package common

import (
	"encoding/hex"
	"errors"
	"math/big"

	"flychain/internal/vspec"
)

// vsRight is the byte of b at distance j from its end, zero before its start.
func vsRight(b []byte, j int) byte {
	if j < len(b) {
		return b[len(b)-1-j]
	}
	return 0
}

// vsNib is the value of the hexadecimal digit of s (from position k on) at distance j from the end, zero before k.
func vsNib(s string, k, j int) byte {
	if j < len(s)-k {
		return vsVal(s[len(s)-1-j])
	}
	return 0
}

func vsPrefixLen(s string) int {
	if vsPrefixed(s) {
		return 2
	}
	return 0
}

func vsHexFrom(s string, k int) bool {
	return vspec.Forall(k, len(s), func(i int) bool { return vsIsHex(s[i]) })
}

// ---- C06: conversions ----

//govc:contract BytesToHash prop=C06
func verif_BytesToHash(b []byte) {
	h := BytesToHash(b)
	vspec.Ensures("last bytes behind zeros", vspec.Forall(0, 32, func(i int) bool { return h[i] == vsRight(b, 31-i) }))
}

//govc:contract BytesToAddress prop=C06
func verif_BytesToAddress(b []byte) {
	a := BytesToAddress(b)
	vspec.Ensures("last bytes behind zeros", vspec.Forall(0, 20, func(i int) bool { return a[i] == vsRight(b, 19-i) }))
}

//govc:contract BigToHash prop=C06
func verif_BigToHash(x *big.Int) {
	vspec.Requires(x != nil)
	h := BigToHash(x)
	vspec.Ensures("low bytes, big-endian", vspec.Forall(0, 32, func(i int) bool { return h[i] == vspec.BigByte(x, 31-i) }))
}

//govc:contract BigToAddress prop=C06
func verif_BigToAddress(x *big.Int) {
	vspec.Requires(x != nil)
	a := BigToAddress(x)
	vspec.Ensures("low bytes, big-endian", vspec.Forall(0, 20, func(i int) bool { return a[i] == vspec.BigByte(x, 19-i) }))
}

//govc:contract Hash.Big prop=C06
func verif_Hash_Big(h Hash) {
	x := h.Big()
	vspec.Ensures("a non-negative number of at most 256 bits", x != nil && vspec.Fresh(x) && x.Sign() >= 0 && x.BitLen() <= 256)
	vspec.Ensures("big-endian value", vspec.Forall(0, 32, func(i int) bool { return vspec.BigByte(x, 31-i) == h[i] }))
}

//govc:contract Address.Big prop=C06
func verif_Address_Big(a Address) {
	x := a.Big()
	vspec.Ensures("a non-negative number of at most 160 bits", x != nil && vspec.Fresh(x) && x.Sign() >= 0 && x.BitLen() <= 160)
	vspec.Ensures("big-endian value", vspec.Forall(0, 20, func(i int) bool { return vspec.BigByte(x, 19-i) == a[i] }))
}

//govc:contract Hash.Bytes prop=C06
func verif_Hash_Bytes(h Hash) {
	b := h.Bytes()
	vspec.Ensures("stored bytes", len(b) == 32 && vspec.Forall(0, 32, func(i int) bool { return b[i] == h[i] }))
}

//govc:contract Address.Bytes prop=C06
func verif_Address_Bytes(a Address) {
	b := a.Bytes()
	vspec.Ensures("stored bytes", len(b) == 20 && vspec.Forall(0, 20, func(i int) bool { return b[i] == a[i] }))
}

//govc:contract Address.Hash prop=C06
func verif_Address_Hash(a Address) {
	h := a.Hash()
	vspec.Ensures("zeros in front", vspec.Forall(0, 12, func(i int) bool { return h[i] == 0 }))
	vspec.Ensures("the address at the end", vspec.Forall(0, 20, func(i int) bool { return h[12+i] == a[i] }))
}

//govc:contract HexToHash prop=C06
func verif_HexToHash(s string) {
	vspec.SplitBool(vsPrefixed(s))
	k := vsPrefixLen(s)
	vspec.Requires(vsHexFrom(s, k))
	h := HexToHash(s)
	vspec.Ensures("last digits behind zeros", vspec.Forall(0, 32, func(i int) bool {
		return h[i] == vsNib(s, k, 2*(31-i)+1)*16+vsNib(s, k, 2*(31-i))
	}))
}

//govc:contract HexToAddress prop=C06
func verif_HexToAddress(s string) {
	vspec.SplitBool(vsPrefixed(s))
	k := vsPrefixLen(s)
	vspec.Requires(vsHexFrom(s, k))
	a := HexToAddress(s)
	vspec.Ensures("last digits behind zeros", vspec.Forall(0, 20, func(i int) bool {
		return a[i] == vsNib(s, k, 2*(19-i)+1)*16+vsNib(s, k, 2*(19-i))
	}))
}

//govc:lemma prop=C06
func verif_lemma_hash_big(x *big.Int) {
	vspec.Requires(x != nil && x.Sign() >= 0 && x.BitLen() <= 256)
	vspec.Ensures("an integer below 2^256 survives", BigToHash(x).Big().Cmp(x) == 0)
}

//govc:lemma prop=C06
func verif_lemma_big_hash(h Hash) {
	vspec.Ensures("a hash survives", BigToHash(h.Big()) == h)
}

//govc:lemma prop=C06
func verif_lemma_address_big(x *big.Int) {
	vspec.Requires(x != nil && x.Sign() >= 0 && x.BitLen() <= 160)
	vspec.Ensures("an integer below 2^160 survives", BigToAddress(x).Big().Cmp(x) == 0)
}

//govc:lemma prop=C06
func verif_lemma_big_address(a Address) {
	vspec.Ensures("an address survives", BigToAddress(a.Big()) == a)
}

// ---- C10: lenient hex helpers ----

//govc:contract encoding/hex:DecodeString prop=C10 modular support
func verif_hex_DecodeString(s string) {
	b, err := hex.DecodeString(s)
	ok := len(s)%2 == 0 && vsHexFrom(s, 0)
	vspec.Ensures("accepts exactly pairs of digits", (err == nil) == ok)
	if err == nil {
		vspec.Ensures("bytes", len(b) == len(s)/2 && vspec.Forall(0, len(s)/2, func(i int) bool { return b[i] == vsVal(s[2*i])*16+vsVal(s[2*i+1]) }))
	}
}

//govc:contract FromHex prop=C10 modular
func verif_FromHex(s string) {
	vspec.SplitBool(vsPrefixed(s))
	vspec.SplitBool(len(s)%2 == 0)
	k := vsPrefixLen(s)
	vspec.Requires(vsHexFrom(s, k))
	b := FromHex(s)
	n := (len(s) - k + 1) / 2
	vspec.Ensures("one byte per two digits, rounded up", len(b) == n)
	vspec.Ensures("bytes", vspec.Forall(0, n, func(i int) bool {
		return b[i] == vsNib(s, k, 2*(n-1-i)+1)*16+vsNib(s, k, 2*(n-1-i))
	}))
}

//govc:contract Hex2Bytes prop=C10
func verif_Hex2Bytes(s string) {
	vspec.Requires(len(s)%2 == 0 && vsHexFrom(s, 0))
	b := Hex2Bytes(s)
	vspec.Ensures("one byte per two digits", len(b) == len(s)/2)
	vspec.Ensures("bytes", vspec.Forall(0, len(b), func(i int) bool { return b[i] == vsVal(s[2*i])*16+vsVal(s[2*i+1]) }))
}

//govc:contract Bytes2Hex prop=C10
func verif_Bytes2Hex(d []byte) {
	s := Bytes2Hex(d)
	vspec.Ensures("two lower-case digits per byte", len(s) == 2*len(d) && vspec.Forall(0, len(d), func(i int) bool {
		return s[2*i] == vsDigit(d[i]>>4) && s[2*i+1] == vsDigit(d[i]&15)
	}))
}

//govc:contract Hex2BytesFixed prop=C10
func verif_Hex2BytesFixed(s string, flen int) {
	vspec.Requires(flen >= 0 && len(s)%2 == 0 && vsHexFrom(s, 0))
	b := Hex2BytesFixed(s, flen)
	vspec.Ensures("length", len(b) == flen)
	vspec.Ensures("cropped or padded on the left", vspec.Forall(0, flen, func(i int) bool {
		return b[i] == vsNib(s, 0, 2*(flen-1-i)+1)*16+vsNib(s, 0, 2*(flen-1-i))
	}))
}

//govc:contract IsHexAddress prop=C10 modular
func verif_IsHexAddress(s string) {
	r := IsHexAddress(s)
	if vsPrefixed(s) {
		vspec.Ensures("exactly forty digits", r == (len(s) == 42 && vsHexFrom(s, 2)))
	} else {
		vspec.Ensures("exactly forty digits", r == (len(s) == 40 && vsHexFrom(s, 0)))
	}
}

//govc:inv isHex
func inv_isHex(rng int, str string) bool {
	return 0 <= rng && rng <= len(str) && vspec.Forall(0, rng, func(i int) bool { return vsIsHex(str[i]) })
}

// model of errors.Is for comparable targets
//
//govc:model errors:Is
func model_errors_Is(err, target error) bool {
	if err == nil || target == nil || err == target {
		return err == target
	}
	if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
		return true
	}
	if x, ok := err.(interface{ Unwrap() error }); ok {
		return errors.Is(x.Unwrap(), target)
	}
	return false
}

//govc:contract ParseHexOrString prop=C10 nomod
func verif_ParseHexOrString(s string) {
	b, err := ParseHexOrString(s)
	if len(s) > 0 && !vsPrefixed(s) {
		vspec.Ensures("text without prefix is taken as it is", err == nil && len(b) == len(s) && vspec.Forall(0, len(s), func(i int) bool { return b[i] == s[i] }))
		return
	}
	ok := len(s) >= 2 && len(s)%2 == 0 && vsHexFrom(s, 2)
	vspec.Ensures("prefixed text must be well formed", (err == nil) == ok)
	if err == nil {
		vspec.Ensures("bytes", len(b) == (len(s)-2)/2 && vspec.Forall(0, len(b), func(i int) bool { return b[i] == vsVal(s[2+2*i])*16+vsVal(s[3+2*i]) }))
	}
}
