package common

import "flychain/internal/vspec"

//govc:contract CopyBytes prop=C09 modular
func verif_CopyBytes(b []byte) {
	r := CopyBytes(b)
	vspec.Ensures("nil iff nil", (r == nil) == (b == nil))
	vspec.Ensures("same length", len(r) == len(b))
	vspec.Ensures("same bytes", vspec.Forall(0, len(b), func(i int) bool { return r[i] == b[i] }))
	vspec.Ensures("does not share memory", len(r) == 0 || vspec.Fresh(r))
}

//govc:contract LeftPadBytes prop=C09 modular
func verif_LeftPadBytes(slice []byte, l int) {
	r := LeftPadBytes(slice, l)
	n := len(slice)
	if l <= n {
		vspec.Ensures("long input unchanged", len(r) == n && vspec.Forall(0, n, func(i int) bool { return r[i] == slice[i] }))
		return
	}
	vspec.Ensures("padded length", len(r) == l)
	vspec.Ensures("zeros on the left", vspec.Forall(0, l-n, func(i int) bool { return r[i] == 0 }))
	vspec.Ensures("content on the right", vspec.Forall(0, n, func(i int) bool { return r[l-n+i] == slice[i] }))
	vspec.Ensures("does not share memory", vspec.Fresh(r))
}

//govc:contract RightPadBytes prop=C09 modular
func verif_RightPadBytes(slice []byte, l int) {
	r := RightPadBytes(slice, l)
	n := len(slice)
	if l <= n {
		vspec.Ensures("long input unchanged", len(r) == n && vspec.Forall(0, n, func(i int) bool { return r[i] == slice[i] }))
		return
	}
	vspec.Ensures("padded length", len(r) == l)
	vspec.Ensures("content on the left", vspec.Forall(0, n, func(i int) bool { return r[i] == slice[i] }))
	vspec.Ensures("zeros on the right", vspec.Forall(n, l, func(i int) bool { return r[i] == 0 }))
	vspec.Ensures("does not share memory", vspec.Fresh(r))
}

//govc:contract TrimLeftZeroes prop=C09 modular
func verif_TrimLeftZeroes(s []byte) {
	r := TrimLeftZeroes(s)
	k := len(s) - len(r)
	vspec.Ensures("not longer", k >= 0 && k <= len(s))
	vspec.Ensures("only zeros removed", vspec.Forall(0, k, func(i int) bool { return s[i] == 0 }))
	vspec.Ensures("a suffix", vspec.Forall(0, len(r), func(i int) bool { return r[i] == s[k+i] }))
	vspec.Ensures("maximal", len(r) == 0 || r[0] != 0)
}

//govc:inv TrimLeftZeroes
func inv_TrimLeftZeroes(idx int, s []byte) bool {
	return 0 <= idx && idx <= len(s) && vspec.Forall(0, idx, func(i int) bool { return s[i] == 0 })
}

//govc:contract TrimRightZeroes prop=C09 modular
func verif_TrimRightZeroes(s []byte) {
	r := TrimRightZeroes(s)
	vspec.Ensures("not longer", len(r) <= len(s))
	vspec.Ensures("only zeros removed", vspec.Forall(len(r), len(s), func(i int) bool { return s[i] == 0 }))
	vspec.Ensures("a prefix", vspec.Forall(0, len(r), func(i int) bool { return r[i] == s[i] }))
	vspec.Ensures("maximal", len(r) == 0 || r[len(r)-1] != 0)
}

//govc:inv TrimRightZeroes
func inv_TrimRightZeroes(idx int, s []byte) bool {
	return 0 <= idx && idx <= len(s) && vspec.Forall(idx, len(s), func(i int) bool { return s[i] == 0 })
}
