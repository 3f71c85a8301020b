package hexutil

import (
	"reflect"

	"flychain/internal/vspec"
)

// vsFixedOK: in spells exactly n bytes behind a 0x prefix (nothing at all for n = 0).
func vsFixedOK(in []byte, n int) bool {
	return len(in) == 0 && n == 0 || vsPrefixedB(in) && len(in) == 2+2*n && vsHexBytes(in, 2)
}

// vsUnprefixedOK: in spells exactly n bytes, with or without 0x.
func vsUnprefixedOK(in []byte, n int) bool {
	if vsPrefixedB(in) {
		return len(in) == 2+2*n && vsHexBytes(in, 2)
	}
	return len(in) == 2*n && vsHexBytes(in, 0)
}

// vsSpells: out holds the bytes spelled by in from position k.
func vsSpells(in []byte, k int, out []byte) bool {
	return vspec.Forall(0, len(out), func(i int) bool {
		return out[i] == vsVal(in[k+2*i])*16+vsVal(in[k+2*i+1])
	})
}

//govc:contract UnmarshalFixedText prop=C04 modular
func verif_UnmarshalFixedText(typname string, input, out []byte) {
	vspec.Requires(vspec.Separate(input, out))
	vspec.Modifies(out)
	old := append([]byte(nil), out...)
	err := UnmarshalFixedText(typname, input, out)
	vspec.Ensures("accepts exactly the right number of hex digits", (err == nil) == vsFixedOK(input, len(out)))
	if err == nil {
		vspec.Ensures("bytes", len(out) == 0 || vsSpells(input, 2, out))
	} else {
		vspec.Ensures("target unchanged on error", vsSame(out, old))
		if d, isDec := err.(*decError); isDec {
			vspec.Ensures("error value", d != nil)
		}
	}
}

//govc:contract UnmarshalFixedUnprefixedText prop=C04 modular
func verif_UnmarshalFixedUnprefixedText(typname string, input, out []byte) {
	vspec.Requires(vspec.Separate(input, out))
	vspec.Modifies(out)
	old := append([]byte(nil), out...)
	err := UnmarshalFixedUnprefixedText(typname, input, out)
	vspec.Ensures("accepts exactly the right number of hex digits", (err == nil) == vsUnprefixedOK(input, len(out)))
	if err == nil {
		if vsPrefixedB(input) {
			vspec.Ensures("bytes", vsSpells(input, 2, out))
		} else {
			vspec.Ensures("bytes", vsSpells(input, 0, out))
		}
	} else {
		vspec.Ensures("target unchanged on error", vsSame(out, old))
	}
}

//govc:contract UnmarshalFixedJSON prop=C04 modular
func verif_UnmarshalFixedJSON(typ reflect.Type, input, out []byte) {
	vspec.Requires(typ != nil)
	vspec.Requires(vspec.Separate(input, out))
	vspec.Modifies(out)
	old := append([]byte(nil), out...)
	err := UnmarshalFixedJSON(typ, input, out)
	quoted := vsQuoted(input)
	vspec.Ensures("accepts exactly quoted text of the right length", (err == nil) == (quoted && vsFixedOK(input[1:len(input)-1], len(out))))
	if err == nil {
		vspec.Ensures("bytes", len(out) == 0 || vsSpells(input, 3, out))
	} else {
		vspec.Ensures("target unchanged on error", vsSame(out, old))
	}
}

//govc:inv UnmarshalFixedText
func inv_UnmarshalFixedText(rng int, raw []byte) bool {
	return 0 <= rng && rng <= len(raw) && vspec.Forall(0, rng, func(i int) bool { return vsIsHex(raw[i]) })
}

//govc:inv UnmarshalFixedUnprefixedText
func inv_UnmarshalFixedUnprefixedText(rng int, raw []byte) bool {
	return 0 <= rng && rng <= len(raw) && vspec.Forall(0, rng, func(i int) bool { return vsIsHex(raw[i]) })
}
