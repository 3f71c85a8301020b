package hexutil

import (
	"encoding/hex"
	"reflect"

	"flychain/internal/vspec"
)

// ---- specification functions ----

// vsDigit is the lower-case hexadecimal digit of v (0..15).
func vsDigit(v byte) byte {
	if v < 10 {
		return '0' + v
	}
	return 'a' + (v - 10)
}

// vsVal is the value of a hexadecimal digit, 255 when c is not one.
func vsVal(c byte) byte {
	if c >= '0' && c <= '9' {
		return c - '0'
	}
	if c >= 'a' && c <= 'f' {
		return c - 'a' + 10
	}
	if c >= 'A' && c <= 'F' {
		return c - 'A' + 10
	}
	return 255
}

func vsIsHex(c byte) bool { return vsVal(c) != 255 }

// vsHexStr: s is hexadecimal digits from position k on.
func vsHexStr(s string, k int) bool {
	return vspec.Forall(k, len(s), func(i int) bool { return vsIsHex(s[i]) })
}

func vsHexBytes(s []byte, k int) bool {
	return vspec.Forall(k, len(s), func(i int) bool { return vsIsHex(s[i]) })
}

func vsPrefixed(s string) bool {
	return len(s) >= 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')
}

func vsPrefixedB(s []byte) bool {
	return len(s) >= 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')
}

// ---- encoding/hex (standard library source) ----

//govc:contract encoding/hex:Encode prop=C01 modular support
func verif_hexEncode(dst, src []byte) {
	vspec.Requires(len(dst) >= 2*len(src))
	vspec.Requires(vspec.Disjoint(dst, src))
	vspec.Modifies(dst[:2*len(src)])
	n := hex.Encode(dst, src)
	vspec.Ensures("count", n == 2*len(src))
	vspec.Ensures("digits", vspec.Forall(0, len(src), func(i int) bool {
		return dst[2*i] == vsDigit(src[i]>>4) && dst[2*i+1] == vsDigit(src[i]&15)
	}))
}

//govc:inv encoding/hex:Encode
func inv_hexEncode(rng int, j int, dst, src []byte) bool {
	return 0 <= rng && rng <= len(src) && j == 2*rng && vspec.Forall(0, rng, func(i int) bool {
		return dst[2*i] == vsDigit(src[i]>>4) && dst[2*i+1] == vsDigit(src[i]&15)
	})
}

//govc:contract encoding/hex:Decode prop=C01 modular support
func verif_hexDecode(dst, src []byte) {
	vspec.Requires(len(dst) >= len(src)/2)
	vspec.Requires(vspec.Disjoint(dst, src))
	vspec.Modifies(dst[:len(src)/2])
	n, err := hex.Decode(dst, src)
	vspec.Ensures("accepts exactly even-length hex", (err == nil) == (len(src)%2 == 0 && vsHexBytes(src, 0)))
	if err == nil {
		vspec.Ensures("count", n == len(src)/2)
		vspec.Ensures("bytes", vspec.Forall(0, len(src)/2, func(k int) bool {
			return dst[k] == vsVal(src[2*k])*16+vsVal(src[2*k+1])
		}))
	} else {
		vspec.Ensures("count in range", 0 <= n && n <= len(src)/2)
		if vsHexBytes(src, 0) {
			vspec.Ensures("odd length is reported", err == hex.ErrLength)
		} else {
			_, ok := err.(hex.InvalidByteError)
			vspec.Ensures("bad digit is reported", ok)
		}
	}
}

// ---- Encode / Decode ----

//govc:contract Encode prop=C01 modular
func verif_Encode(b []byte) {
	s := Encode(b)
	vspec.Ensures("length", len(s) == 2*len(b)+2)
	vspec.Ensures("prefix", s[0] == '0' && s[1] == 'x')
	vspec.Ensures("two lower-case digits per byte", vspec.Forall(0, len(b), func(i int) bool {
		return s[2+2*i] == vsDigit(b[i]>>4) && s[3+2*i] == vsDigit(b[i]&15)
	}))
}

//govc:contract Decode prop=C01 modular nomod
func verif_Decode(input string) {
	b, err := Decode(input)
	ok := vsPrefixed(input) && len(input)%2 == 0 && vsHexStr(input, 2)
	vspec.Ensures("accepts exactly prefixed even-length hex", (err == nil) == ok)
	if err == nil {
		vspec.Ensures("length", len(b) == (len(input)-2)/2)
		vspec.Ensures("bytes", vspec.Forall(0, len(b), func(i int) bool {
			return b[i] == vsVal(input[2+2*i])*16+vsVal(input[3+2*i])
		}))
	} else if len(input) == 0 {
		vspec.Ensures("empty input is reported", err == error(ErrEmptyString))
	} else if !vsPrefixed(input) {
		vspec.Ensures("missing prefix is reported", err == error(ErrMissingPrefix))
	} else if vsHexStr(input, 2) {
		vspec.Ensures("odd length is reported", err == error(ErrOddLength))
	} else {
		vspec.Ensures("bad digit is reported", err == error(ErrSyntax))
	}
}

//govc:inv encoding/hex:Decode
func inv_hexDecode(i, j int, dst, src []byte) bool {
	return 0 <= i && j == 2*i && j <= len(src) && vspec.Forall(0, i, func(k int) bool {
		return vsIsHex(src[2*k]) && vsIsHex(src[2*k+1]) && dst[k] == vsVal(src[2*k])*16+vsVal(src[2*k+1])
	}) && vspec.Forall(0, j, func(k int) bool { return vsIsHex(src[k]) })
}

//govc:contract MustDecode prop=C01
func verif_MustDecode(input string) {
	ok := vsPrefixed(input) && len(input)%2 == 0 && vsHexStr(input, 2)
	var b []byte
	p := vspec.Panics(func() { b = MustDecode(input) })
	vspec.Ensures("panics exactly on invalid input", p == !ok)
	if !p {
		vspec.Ensures("bytes", len(b) == (len(input)-2)/2 && vspec.Forall(0, len(b), func(i int) bool {
			return b[i] == vsVal(input[2+2*i])*16+vsVal(input[3+2*i])
		}))
	}
}

//govc:lemma prop=C01
func verif_lemma_roundtrip(b []byte) {
	d, err := Decode(Encode(b))
	vspec.Ensures("decodes", err == nil && len(d) == len(b))
	vspec.Ensures("same bytes", vspec.Forall(0, len(b), func(i int) bool { return d[i] == b[i] }))
}

// ---- Bytes ----

//govc:contract Bytes.MarshalText prop=C01
func verif_Bytes_MarshalText(b Bytes) {
	s, err := b.MarshalText()
	vspec.Ensures("never fails", err == nil)
	vspec.Ensures("length", len(s) == 2*len(b)+2)
	vspec.Ensures("prefix", s[0] == '0' && s[1] == 'x')
	vspec.Ensures("two lower-case digits per byte", vspec.Forall(0, len(b), func(i int) bool {
		return s[2+2*i] == vsDigit(b[i]>>4) && s[3+2*i] == vsDigit(b[i]&15)
	}))
	vspec.Ensures("fresh memory", vspec.Fresh(s))
}

//govc:contract Bytes.String prop=C01
func verif_Bytes_String(b Bytes) {
	s := b.String()
	vspec.Ensures("length", len(s) == 2*len(b)+2)
	vspec.Ensures("prefix", s[0] == '0' && s[1] == 'x')
	vspec.Ensures("two lower-case digits per byte", vspec.Forall(0, len(b), func(i int) bool {
		return s[2+2*i] == vsDigit(b[i]>>4) && s[3+2*i] == vsDigit(b[i]&15)
	}))
}

func vsSame(a, b []byte) bool {
	return len(a) == len(b) && vspec.Forall(0, len(a), func(i int) bool { return a[i] == b[i] })
}

func vsSameHeader(a, b []byte) bool {
	return len(a) == len(b) && cap(a) == cap(b) && (a == nil) == (b == nil) && (cap(a) == 0 || vspec.SameMem(a[:cap(a)], b[:cap(b)]))
}

//govc:contract Bytes.UnmarshalText prop=C01 modular
func verif_Bytes_UnmarshalText(b *Bytes, input []byte) {
	vspec.Requires(b != nil)
	vspec.Modifies(b)
	old := *b
	err := b.UnmarshalText(input)
	ok := len(input) == 0 || vsPrefixedB(input) && len(input)%2 == 0 && vsHexBytes(input, 2)
	vspec.Ensures("accepts exactly prefixed even-length hex", (err == nil) == ok)
	if err == nil {
		n := 0
		if len(input) > 2 {
			n = (len(input) - 2) / 2
		}
		vspec.Ensures("length", len(*b) == n)
		vspec.Ensures("bytes", vspec.Forall(0, n, func(i int) bool {
			return (*b)[i] == vsVal(input[2+2*i])*16+vsVal(input[3+2*i])
		}))
		vspec.Ensures("fresh memory", n == 0 || vspec.Fresh([]byte(*b)))
	} else {
		vspec.Ensures("target unchanged on error", vsSameHeader(*b, old))
		if !vsPrefixedB(input) {
			vspec.Ensures("missing prefix is reported", err == error(ErrMissingPrefix))
		} else if len(input)%2 != 0 {
			vspec.Ensures("odd length is reported", err == error(ErrOddLength))
		} else {
			vspec.Ensures("bad digit is reported", err == error(ErrSyntax))
		}
	}
}

func vsQuoted(s []byte) bool { return len(s) >= 2 && s[0] == '"' && s[len(s)-1] == '"' }

//govc:contract Bytes.UnmarshalJSON prop=C01
func verif_Bytes_UnmarshalJSON(b *Bytes, input []byte) {
	vspec.Requires(b != nil)
	vspec.Modifies(b)
	old := *b
	err := b.UnmarshalJSON(input)
	if !vsQuoted(input) {
		vspec.Ensures("only strings are accepted", err != nil)
		vspec.Ensures("target unchanged on error", vsSameHeader(*b, old))
		return
	}
	in := input[1 : len(input)-1]
	ok := len(in) == 0 || vsPrefixedB(in) && len(in)%2 == 0 && vsHexBytes(in, 2)
	vspec.Ensures("accepts exactly prefixed even-length hex", (err == nil) == ok)
	if err == nil {
		n := 0
		if len(in) > 2 {
			n = (len(in) - 2) / 2
		}
		vspec.Ensures("length", len(*b) == n)
		vspec.Ensures("bytes", vspec.Forall(0, n, func(i int) bool {
			return (*b)[i] == vsVal(in[2+2*i])*16+vsVal(in[3+2*i])
		}))
	} else {
		vspec.Ensures("target unchanged on error", vsSameHeader(*b, old))
	}
}

//govc:contract Bytes.UnmarshalGraphQL prop=C01
func verif_Bytes_UnmarshalGraphQL(b *Bytes, input interface{}) {
	vspec.Requires(b != nil)
	vspec.Modifies(b)
	old := *b
	err := b.UnmarshalGraphQL(input)
	s, isStr := input.(string)
	ok := isStr && vsPrefixed(s) && len(s)%2 == 0 && vsHexStr(s, 2)
	vspec.Ensures("accepts exactly prefixed even-length hex strings", (err == nil) == ok)
	if err == nil {
		vspec.Ensures("length", len(*b) == (len(s)-2)/2)
		vspec.Ensures("bytes", vspec.Forall(0, len(*b), func(i int) bool {
			return (*b)[i] == vsVal(s[2+2*i])*16+vsVal(s[3+2*i])
		}))
	} else {
		vspec.Ensures("target unchanged on error", vsSameHeader(*b, old))
	}
}

var _ = reflect.TypeOf
