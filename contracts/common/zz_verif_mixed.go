package common

import (
	"encoding/json"

	"flychain/internal/vspec"
)

func vsPlain(c byte) bool {
	return c >= ' ' && c < 127 && c != '"' && c != '\\' && c != '<' && c != '>' && c != '&'
}

// model of json.Unmarshal for a plain quoted string stored in a string
//
//govc:model encoding/json:Unmarshal
func model_json_Unmarshal(data []byte, v interface{}) error {
	p, ok := v.(*string)
	if !ok || len(data) < 2 || data[0] != '"' || data[len(data)-1] != '"' || !vspec.Forall(1, len(data)-1, func(i int) bool { return vsPlain(data[i]) }) {
		panic("only plain quoted strings are modelled")
	}
	*p = string(data[1 : len(data)-1])
	return nil
}

// model of json.Marshal for a plain string
//
//govc:model encoding/json:Marshal
func model_json_Marshal(v interface{}) ([]byte, error) {
	s, ok := v.(string)
	if !ok || !vspec.Forall(0, len(s), func(i int) bool { return vsPlain(s[i]) }) {
		panic("only plain strings are modelled")
	}
	return []byte("\"" + s + "\""), nil
}

var _ = json.Marshal

func vsIsAddressText(s string) bool {
	if vsPrefixed(s) {
		return len(s) == 42 && vsHexFrom(s, 2)
	}
	return len(s) == 40 && vsHexFrom(s, 0)
}

// vsSpellsAddress: the forty digits of s from position k on spell a.
func vsSpellsAddress(s string, k int, a Address) bool {
	return vspec.Forall(0, 20, func(i int) bool { return a[i] == vsVal(s[k+2*i])*16+vsVal(s[k+2*i+1]) })
}

//govc:contract NewMixedcaseAddressFromString prop=C08
func verif_NewMixedcaseAddressFromString(s string) {
	vspec.SplitBool(vsPrefixed(s))
	ma, err := NewMixedcaseAddressFromString(s)
	vspec.Ensures("accepts exactly address texts", (err == nil) == vsIsAddressText(s))
	if err == nil {
		vspec.Ensures("keeps the text", ma.Original() == s)
		vspec.Ensures("keeps the address", vsSpellsAddress(s, vsPrefixLen(s), ma.Address()))
	}
}

//govc:contract MixedcaseAddress.UnmarshalJSON prop=C08
func verif_MixedcaseAddress_UnmarshalJSON(ma *MixedcaseAddress, input []byte) {
	vspec.Requires(ma != nil && vspec.Separate(ma, input))
	vspec.Modifies(ma)
	old := *ma
	err := ma.UnmarshalJSON(input)
	ok := len(input) == 44 && vsQuoted(input) && input[1] == '0' && (input[2] == 'x' || input[2] == 'X') &&
		vspec.Forall(3, 43, func(i int) bool { return vsIsHex(input[i]) })
	vspec.Ensures("accepts exactly quoted prefixed addresses", (err == nil) == ok)
	if err == nil {
		vspec.Ensures("keeps the text", ma.original == string(input[1:43]))
		vspec.Ensures("keeps the address", vspec.Forall(0, 20, func(i int) bool { return ma.addr[i] == vsVal(input[3+2*i])*16+vsVal(input[4+2*i]) }))
	} else {
		vspec.Ensures("the target keeps its content", ma.addr == old.addr && ma.original == old.original)
	}
}

//govc:contract MixedcaseAddress.MarshalJSON prop=C08
func verif_MixedcaseAddress_MarshalJSON(ma *MixedcaseAddress) {
	vspec.Requires(ma != nil && vsIsAddressText(ma.original))
	vspec.SplitBool(vsPrefixed(ma.original))
	out, err := ma.MarshalJSON()
	vspec.Ensures("quoted", err == nil && len(out) == 44 && out[0] == '"' && out[43] == '"')
	vspec.Ensures("one 0x", out[1] == '0' && out[2] == 'x')
	k := vsPrefixLen(ma.original)
	vspec.Ensures("the original digits", vspec.Forall(0, 40, func(i int) bool { return out[3+i] == ma.original[k+i] }))
}

//govc:contract MixedcaseAddress.ValidChecksum prop=C08
func verif_MixedcaseAddress_ValidChecksum(ma *MixedcaseAddress) {
	vspec.Requires(ma != nil)
	r := ma.ValidChecksum()
	vspec.Ensures("exactly the checksummed form", r == (len(ma.original) == 42 && vsChecksummed([]byte(ma.original), 0, ma.addr)))
}

//govc:contract NewMixedcaseAddress prop=C08
func verif_NewMixedcaseAddress(a Address) {
	ma := NewMixedcaseAddress(a)
	vspec.Ensures("the address in checksummed form", ma.addr == a && len(ma.original) == 42 && vsChecksummed([]byte(ma.original), 0, a))
}
