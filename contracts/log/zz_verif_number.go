package log

import (
	"math/big"

	"flychain/internal/vspec"
)

var vsPow10 = [20]uint64{1, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19}

// vsNDigits: n has d decimal digits.
func vsNDigits(n uint64, d int) bool {
	return 1 <= d && d <= 20 && (d == 1 || n >= vsPow10[d-1]) && (d == 20 || n < vsPow10[d%20])
}

// vsGrouped: from position at on, s is the d-digit number n in decimal, with
// commas every three digits from the right if it has more than five digits.
func vsGrouped(s string, at int, n uint64, d int) bool {
	if d <= 5 {
		if len(s) != at+d {
			return false
		}
		for p := 0; p < d; p++ {
			if s[len(s)-1-p] != byte('0'+n/vsPow10[p]%10) {
				return false
			}
		}
		return true
	}
	if len(s) != at+d+(d-1)/3 {
		return false
	}
	for p := 0; p < d; p++ {
		if s[len(s)-1-p-p/3] != byte('0'+n/vsPow10[p]%10) {
			return false
		}
		if p > 0 && p%3 == 0 && s[len(s)-p-p/3] != ',' {
			return false
		}
	}
	return true
}

// vsHard asks for a case split where five digits meet powers of two.
func vsHard(n uint64, d int) {
	if d == 5 {
		vspec.SplitBool(n < 16384)
		vspec.SplitBool(n < 32768)
		vspec.SplitBool(n < 65536)
	}
}

// vsThousands: s is, after a minus sign if neg, the number n in decimal, with
// commas every three digits from the right if it has more than five digits.
//
//govc:spec opaque
func vsThousands(s string, neg bool, n uint64) bool {
	at := 0
	if neg {
		if len(s) == 0 || s[0] != '-' {
			return false
		}
		at = 1
	}
	return vsGrouped(s, at, n, vsDigits(n))
}

// vsDigits is the number of decimal digits of n.
func vsDigits(n uint64) int {
	for d := 1; d < 20; d++ {
		if n < vsPow10[d] {
			return d
		}
	}
	return 20
}

//govc:contract formatLogfmtUint64 prop=C24 modular reveal=vsThousands
func verif_formatLogfmtUint64(n uint64, neg bool) {
	vspec.Requires(!neg || 0 < n && n <= 1<<63)
	d := vspec.Split(vsDigits(n), 1, 20)
	neg = vspec.SplitBool(neg)
	vsHard(n, d)
	s := formatLogfmtUint64(n, neg)
	vspec.Ensures("digits and commas", vsThousands(s, neg, n))
}

//govc:unroll formatLogfmtUint64 40

//govc:contract FormatLogfmtUint64 prop=C24
func verif_FormatLogfmtUint64(n uint64) {
	s := FormatLogfmtUint64(n)
	vspec.Ensures("digits and commas", vsThousands(s, false, n))
}

//govc:contract FormatLogfmtInt64 prop=C24
func verif_FormatLogfmtInt64(n int64) {
	neg := vspec.SplitBool(n < 0)
	m := uint64(n)
	if neg {
		m = -m
	}
	s := FormatLogfmtInt64(n)
	vspec.Ensures("digits and commas", vsThousands(s, neg, m))
}

//govc:contract formatLogfmtBigInt prop=C24
func verif_formatLogfmtBigInt(n *big.Int) {
	vspec.Requires(n != nil && !n.IsUint64() && !n.IsInt64())
	neg := vspec.SplitBool(n.Sign() < 0)
	t := n.String()
	s := formatLogfmtBigInt(n)
	m := len(t)
	if neg {
		m--
		vspec.Ensures("minus sign", s[0] == '-')
	}
	vspec.Ensures("length", len(s) == len(t)+(m-1)/3)
	vspec.Ensures("digits", vspec.Forall(0, m, func(p int) bool { return s[len(s)-1-p-p/3] == t[len(t)-1-p] }))
	vspec.Ensures("commas", vspec.Forall(1, m, func(p int) bool { return p%3 != 0 || s[len(s)-p-p/3] == ',' && s[len(s)-1-p-p/3] == t[len(t)-1-p] }))
}

// vsGap is the number of commas after the first p digits from the right.
func vsGap(p int) int {
	if p == 0 {
		return 0
	}
	return (p - 1) / 3
}

func vsComma(p int) int {
	if p == 0 {
		return 0
	}
	return (p-1)%3 + 1
}

//govc:inv formatLogfmtBigInt
func verif_inv_formatLogfmtBigInt(i, j, comma int, buf []byte, text string) bool {
	p := len(text) - 1 - j
	m := len(text)
	if text[0] == '-' {
		m--
	}
	if j < -1 || j >= len(text) || len(buf) != len(text)+len(text)/3 {
		return false
	}
	if p <= m {
		if i != len(buf)-1-p-vsGap(p) || comma != vsComma(p) {
			return false
		}
	} else if p != m+1 || i != len(buf)-2-m-vsGap(m) || buf[i+1] != '-' {
		return false
	}
	return vspec.Forall(0, p, func(q int) bool {
		return q >= m || buf[len(buf)-1-q-q/3] == text[len(text)-1-q] && (q == 0 || q%3 != 0 || buf[len(buf)-q-q/3] == ',')
	})
}

//govc:contract formatLogfmtBigInt prop=C24 name=formatLogfmtBigInt:uint64
func verif_formatLogfmtBigIntSmall(x uint64) {
	s := formatLogfmtBigInt(new(big.Int).SetUint64(x))
	vspec.Ensures("digits and commas", vsThousands(s, false, x))
}

//govc:contract formatLogfmtBigInt prop=C24 name=formatLogfmtBigInt:int64
func verif_formatLogfmtBigIntNeg(x int64) {
	vspec.Requires(x < 0)
	s := formatLogfmtBigInt(big.NewInt(x))
	vspec.Ensures("digits and commas", vsThousands(s, true, -uint64(x)))
}
