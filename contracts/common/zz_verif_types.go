package common

import (
	"flychain/internal/vspec"
)

//govc:use common/hexutil

// ---- specification functions ----

func vsDigit(v byte) byte {
	if v < 10 {
		return '0' + v
	}
	return 'a' + (v - 10)
}

func vsVal(c byte) byte {
	if c >= '0' && c <= '9' {
		return c - '0'
	}
	if c >= 'a' && c <= 'f' {
		return c - 'a' + 10
	}
	if c >= 'A' && c <= 'F' {
		return c - 'A' + 10
	}
	return 255
}

func vsIsHex(c byte) bool { return vsVal(c) != 255 }

// vsHexAt: s from position k on is exactly 2n hexadecimal digits.
func vsHexAt(s []byte, k, n int) bool {
	return len(s) == k+2*n && vspec.Forall(k, len(s), func(i int) bool { return vsIsHex(s[i]) })
}

func vsHexStrAt(s string, k, n int) bool {
	return len(s) == k+2*n && vspec.Forall(k, len(s), func(i int) bool { return vsIsHex(s[i]) })
}

func vsPrefixed(s string) bool {
	return len(s) >= 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')
}

func vsPrefixedB(s []byte) bool {
	return len(s) >= 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')
}

func vsQuoted(s []byte) bool { return len(s) >= 2 && s[0] == '"' && s[len(s)-1] == '"' }

// vsSpelled: the digits of in from position k spell out.
func vsSpelled(in []byte, k int, out []byte) bool {
	return vspec.Forall(0, len(out), func(i int) bool { return out[i] == vsVal(in[k+2*i])*16+vsVal(in[k+2*i+1]) })
}

// vsDigits: s from position k on is the lower-case digits of b.
func vsDigits(s []byte, k int, b []byte) bool {
	return len(s) == k+2*len(b) && vspec.Forall(0, len(b), func(i int) bool {
		return s[k+2*i] == vsDigit(b[i]>>4) && s[k+2*i+1] == vsDigit(b[i]&15)
	})
}

// ---- Hash ----

//govc:contract Hash.UnmarshalText prop=C04 modular
func verif_Hash_UnmarshalText(h *Hash, input []byte) {
	vspec.Requires(h != nil && vspec.Separate(input, h[:]))
	vspec.Modifies(h)
	old := *h
	err := h.UnmarshalText(input)
	vspec.Ensures("accepts exactly 0x and 64 digits", (err == nil) == (vsPrefixedB(input) && vsHexAt(input, 2, 32)))
	if err == nil {
		vspec.Ensures("bytes", vsSpelled(input, 2, h[:]))
	} else {
		vspec.Ensures("target unchanged on error", *h == old)
	}
}

//govc:contract Hash.UnmarshalJSON prop=C04
func verif_Hash_UnmarshalJSON(h *Hash, input []byte) {
	vspec.Requires(h != nil && vspec.Separate(input, h[:]))
	vspec.Modifies(h)
	old := *h
	err := h.UnmarshalJSON(input)
	ok := vsQuoted(input)
	if ok {
		in := input[1 : len(input)-1]
		ok = vsPrefixedB(in) && vsHexAt(in, 2, 32)
	}
	vspec.Ensures("accepts exactly a quoted 0x and 64 digits", (err == nil) == ok)
	if err == nil {
		vspec.Ensures("bytes", vsSpelled(input, 3, h[:]))
	} else {
		vspec.Ensures("target unchanged on error", *h == old)
	}
}

//govc:contract Hash.UnmarshalGraphQL prop=C04
func verif_Hash_UnmarshalGraphQL(h *Hash, input interface{}) {
	vspec.Requires(h != nil)
	vspec.Modifies(h)
	old := *h
	err := h.UnmarshalGraphQL(input)
	s, isStr := input.(string)
	vspec.Ensures("accepts exactly strings of 0x and 64 digits", (err == nil) == (isStr && vsPrefixed(s) && vsHexStrAt(s, 2, 32)))
	if err == nil {
		vspec.Ensures("bytes", vsSpelled([]byte(s), 2, h[:]))
	} else {
		vspec.Ensures("target unchanged on error", *h == old)
	}
}

//govc:contract Hash.Scan prop=C04
func verif_Hash_Scan(h *Hash, src interface{}) {
	vspec.Requires(h != nil)
	b, isB := src.([]byte)
	vspec.Requires(vspec.Separate(b, h[:]))
	vspec.Modifies(h)
	old := *h
	err := h.Scan(src)
	vspec.Ensures("accepts exactly 32 raw bytes", (err == nil) == (isB && len(b) == 32))
	if err == nil {
		vspec.Ensures("bytes", vspec.Forall(0, 32, func(i int) bool { return h[i] == b[i] }))
	} else {
		vspec.Ensures("target unchanged on error", *h == old)
	}
}

//govc:contract Hash.MarshalText prop=C04
func verif_Hash_MarshalText(h Hash) {
	s, err := h.MarshalText()
	vspec.Ensures("never fails", err == nil)
	vspec.Ensures("0x and lower-case digits", s[0] == '0' && s[1] == 'x' && vsDigits(s, 2, h[:]))
}

//govc:contract Hash.Value prop=C04
func verif_Hash_Value(h Hash) {
	v, err := h.Value()
	b, ok := v.([]byte)
	vspec.Ensures("raw bytes", err == nil && ok && len(b) == 32 && vspec.Forall(0, 32, func(i int) bool { return b[i] == h[i] }))
}

//govc:contract UnprefixedHash.UnmarshalText prop=C04
func verif_UnprefixedHash_UnmarshalText(h *UnprefixedHash, input []byte) {
	vspec.Requires(h != nil && vspec.Separate(input, h[:]))
	vspec.Modifies(h)
	old := *h
	err := h.UnmarshalText(input)
	if vsPrefixedB(input) {
		vspec.Ensures("accepts exactly 64 digits with or without 0x", (err == nil) == vsHexAt(input, 2, 32))
		vspec.Ensures("bytes", err != nil || vsSpelled(input, 2, h[:]))
	} else {
		vspec.Ensures("accepts exactly 64 digits with or without 0x", (err == nil) == vsHexAt(input, 0, 32))
		vspec.Ensures("bytes", err != nil || vsSpelled(input, 0, h[:]))
	}
	if err != nil {
		vspec.Ensures("target unchanged on error", *h == old)
	}
}

//govc:contract UnprefixedHash.MarshalText prop=C04
func verif_UnprefixedHash_MarshalText(h UnprefixedHash) {
	s, err := h.MarshalText()
	vspec.Ensures("never fails", err == nil)
	vspec.Ensures("lower-case digits", vsDigits(s, 0, h[:]))
}

// ---- Address ----

//govc:contract Address.UnmarshalText prop=C04 modular
func verif_Address_UnmarshalText(a *Address, input []byte) {
	vspec.Requires(a != nil && vspec.Separate(input, a[:]))
	vspec.Modifies(a)
	old := *a
	err := a.UnmarshalText(input)
	vspec.Ensures("accepts exactly 0x and 40 digits", (err == nil) == (vsPrefixedB(input) && vsHexAt(input, 2, 20)))
	if err == nil {
		vspec.Ensures("bytes", vsSpelled(input, 2, a[:]))
	} else {
		vspec.Ensures("target unchanged on error", *a == old)
	}
}

//govc:contract Address.UnmarshalJSON prop=C04
func verif_Address_UnmarshalJSON(a *Address, input []byte) {
	vspec.Requires(a != nil && vspec.Separate(input, a[:]))
	vspec.Modifies(a)
	old := *a
	err := a.UnmarshalJSON(input)
	ok := vsQuoted(input)
	if ok {
		in := input[1 : len(input)-1]
		ok = vsPrefixedB(in) && vsHexAt(in, 2, 20)
	}
	vspec.Ensures("accepts exactly a quoted 0x and 40 digits", (err == nil) == ok)
	if err == nil {
		vspec.Ensures("bytes", vsSpelled(input, 3, a[:]))
	} else {
		vspec.Ensures("target unchanged on error", *a == old)
	}
}

//govc:contract Address.UnmarshalGraphQL prop=C04
func verif_Address_UnmarshalGraphQL(a *Address, input interface{}) {
	vspec.Requires(a != nil)
	vspec.Modifies(a)
	old := *a
	err := a.UnmarshalGraphQL(input)
	s, isStr := input.(string)
	vspec.Ensures("accepts exactly strings of 0x and 40 digits", (err == nil) == (isStr && vsPrefixed(s) && vsHexStrAt(s, 2, 20)))
	if err == nil {
		vspec.Ensures("bytes", vsSpelled([]byte(s), 2, a[:]))
	} else {
		vspec.Ensures("target unchanged on error", *a == old)
	}
}

//govc:contract Address.Scan prop=C04
func verif_Address_Scan(a *Address, src interface{}) {
	vspec.Requires(a != nil)
	b, isB := src.([]byte)
	vspec.Requires(vspec.Separate(b, a[:]))
	vspec.Modifies(a)
	old := *a
	err := a.Scan(src)
	vspec.Ensures("accepts exactly 20 raw bytes", (err == nil) == (isB && len(b) == 20))
	if err == nil {
		vspec.Ensures("bytes", vspec.Forall(0, 20, func(i int) bool { return a[i] == b[i] }))
	} else {
		vspec.Ensures("target unchanged on error", *a == old)
	}
}

//govc:contract Address.MarshalText prop=C04
func verif_Address_MarshalText(a Address) {
	s, err := a.MarshalText()
	vspec.Ensures("never fails", err == nil)
	vspec.Ensures("0x and lower-case digits", s[0] == '0' && s[1] == 'x' && vsDigits(s, 2, a[:]))
}

//govc:contract Address.Value prop=C04
func verif_Address_Value(a Address) {
	v, err := a.Value()
	b, ok := v.([]byte)
	vspec.Ensures("raw bytes", err == nil && ok && len(b) == 20 && vspec.Forall(0, 20, func(i int) bool { return b[i] == a[i] }))
}

//govc:contract UnprefixedAddress.UnmarshalText prop=C04
func verif_UnprefixedAddress_UnmarshalText(a *UnprefixedAddress, input []byte) {
	vspec.Requires(a != nil && vspec.Separate(input, a[:]))
	vspec.Modifies(a)
	old := *a
	err := a.UnmarshalText(input)
	if vsPrefixedB(input) {
		vspec.Ensures("accepts exactly 40 digits with or without 0x", (err == nil) == vsHexAt(input, 2, 20))
		vspec.Ensures("bytes", err != nil || vsSpelled(input, 2, a[:]))
	} else {
		vspec.Ensures("accepts exactly 40 digits with or without 0x", (err == nil) == vsHexAt(input, 0, 20))
		vspec.Ensures("bytes", err != nil || vsSpelled(input, 0, a[:]))
	}
	if err != nil {
		vspec.Ensures("target unchanged on error", *a == old)
	}
}

//govc:contract UnprefixedAddress.MarshalText prop=C04
func verif_UnprefixedAddress_MarshalText(a UnprefixedAddress) {
	s, err := a.MarshalText()
	vspec.Ensures("never fails", err == nil)
	vspec.Ensures("lower-case digits", vsDigits(s, 0, a[:]))
}

// ---- round trips ----

//govc:lemma prop=C04
func verif_lemma_hash_text(h Hash, g *Hash) {
	vspec.Requires(g != nil)
	vspec.Modifies(g)
	s, _ := h.MarshalText()
	err := g.UnmarshalText(s)
	vspec.Ensures("the hash survives", err == nil && *g == h)
}

//govc:lemma prop=C04
func verif_lemma_address_text(a Address, g *Address) {
	vspec.Requires(g != nil)
	vspec.Modifies(g)
	s, _ := a.MarshalText()
	err := g.UnmarshalText(s)
	vspec.Ensures("the address survives", err == nil && *g == a)
}
