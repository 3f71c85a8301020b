package crypto

import (
	"strconv"

	"flychain/internal/vspec"
)

func vsIsHex(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
}

//govc:spec
func vsNib0(c byte) byte {
	if c >= 'a' {
		return c - 'a' + 10
	}
	if c >= 'A' {
		return c - 'A' + 10
	}
	return c - '0'
}

func vsNibble(c byte) int64 { return int64(vsNib0(c) & 15) }

func vsDigit(d int64) byte {
	if d < 10 {
		return byte('0' + d)
	}
	return byte('a' - 10 + d)
}

func vsLower(c byte) byte {
	if c >= 'A' && c <= 'F' {
		return c - 'A' + 'a'
	}
	return c
}

// vsGroup is the number the first eight digits of s spell.
//
func vsGroup(s string) uint32 {
	v := uint32(0)
	for i := 0; i < 8; i++ {
		v = v*16 + uint32(vsNibble(s[i]))
	}
	return v
}

// vsGroupAt is the value of group g of the message.
func vsGroupAt(msg string, g int) int64 { return int64(vsGroup(msg[8*g : 8*g+8])) }

const vsDict = 1626

// vsWord is the dictionary index of word j of a group with value b.
func vsWord(b int64, j int) int64 {
	switch j {
	case 0:
		return b % vsDict
	case 1:
		return (b/vsDict + b%vsDict) % vsDict
	}
	return (b/vsDict/vsDict + b/vsDict + b%vsDict) % vsDict
}

// vsValue is the group value of three dictionary indices.
func vsValue(w1, w2, w3 int64) int64 {
	return w1 + vsDict*((w2-w1+vsDict)%vsDict) + vsDict*vsDict*((w3-w2+vsDict)%vsDict)
}

//govc:lemma prop=C14
func verif_dictionary() {
	vspec.Ensures("1626 words", len(MnemonicWords) == vsDict)
	vspec.Ensures("no word twice", vspec.Distinct(MnemonicWords))
}

//govc:contract IndexOf prop=C14 modular strids globalargs
func verif_IndexOf(slice []string, value string) {
	vspec.Requires(vspec.SameMem(slice, MnemonicWords) && len(slice) == len(MnemonicWords))
	vspec.Lemma("no word twice", vspec.Distinct(MnemonicWords))
	r := IndexOf(slice, value)
	vspec.Ensures("the dictionary position of the word, or -1", r == vsIdx(value))
}

//govc:inv IndexOf
func inv_IndexOf(rng int, slice []string, value string) bool {
	return vspec.Forall(0, rng, func(i int) bool { return slice[i] != value })
}

// The only use made of strconv.ParseInt, proved from its source.
//
//govc:contract strconv:ParseInt prop=C14 modular support
func verif_strconv_ParseInt(s string, base, bits int) {
	vspec.Requires(len(s) == 8 && base == 16 && bits == 64 && vspec.Forall(0, 8, func(i int) bool { return vsIsHex(s[i]) }))
	v, err := strconv.ParseInt(s, base, bits)
	vspec.Ensures("the number the digits spell", err == nil && v == int64(vsGroup(s)))
}

//govc:contract MnemonicEncode prop=C14 modular strids
func verif_Encode(msg string) {
	vspec.Requires(len(msg)%8 == 0 && vspec.Forall(0, len(msg), func(i int) bool { return vsIsHex(msg[i]) }))
	ws := MnemonicEncode(msg)
	vspec.Ensures("three words per eight digits", len(ws) == len(msg)/8*3 && (len(ws) == 0 || vspec.Fresh(ws)))
	vspec.Ensures("first word", vspec.Forall(0, len(msg)/8, func(g int) bool { return ws[3*g] == MnemonicWords[vsWord(vsGroupAt(msg, g), 0)] }))
	vspec.Ensures("second word", vspec.Forall(0, len(msg)/8, func(g int) bool { return ws[3*g+1] == MnemonicWords[vsWord(vsGroupAt(msg, g), 1)] }))
	vspec.Ensures("third word", vspec.Forall(0, len(msg)/8, func(g int) bool { return ws[3*g+2] == MnemonicWords[vsWord(vsGroupAt(msg, g), 2)] }))
}

//govc:inv MnemonicEncode
func inv_Encode(i int, out []string, message string) bool {
	return i >= 0 && i%8 == 0 && i <= len(message) && len(out) == i/8*3 &&
		vspec.Forall(0, i/8, func(g int) bool { return out[3*g] == MnemonicWords[vsWord(vsGroupAt(message, g), 0)] }) &&
		vspec.Forall(0, i/8, func(g int) bool { return out[3*g+1] == MnemonicWords[vsWord(vsGroupAt(message, g), 1)] }) &&
		vspec.Forall(0, i/8, func(g int) bool { return out[3*g+2] == MnemonicWords[vsWord(vsGroupAt(message, g), 2)] })
}

// vsIdx is the dictionary index of a word, or -1.
func vsIdx(w string) int64 { return int64(vspec.IndexIn(MnemonicWords, w)) }

// vsOf is the value of group g of a word list.
func vsOf(ws []string, g int) int64 { return vsValue(vsIdx(ws[3*g]), vsIdx(ws[3*g+1]), vsIdx(ws[3*g+2])) }

// vsGroupDigit is digit k (0 the most significant) of an eight-digit group.
func vsGroupDigit(v int64, k int) byte {
	return vsDigit(v >> uint(4*(7-k)) & 15)
}

//govc:contract MnemonicDecode prop=C14 modular strids
func verif_Decode(ws []string) {
	vspec.Lemma("no word twice", vspec.Distinct(MnemonicWords))
	vspec.Requires(len(ws)%3 == 0 && vspec.Forall(0, len(ws), func(i int) bool { return vsIdx(ws[i]) >= 0 }))
	vspec.Requires(vspec.Forall(0, len(ws)/3, func(g int) bool { return vsOf(ws, g) < 1<<32 }))
	s := MnemonicDecode(ws)
	vspec.Ensures("eight digits per three words", len(s) == len(ws)/3*8)
	vspec.Ensures("the digits", vspec.Forall(0, len(s)/8, func(g int) bool {
		v := vsOf(ws, g)
		return s[8*g] == vsGroupDigit(v, 0) && s[8*g+1] == vsGroupDigit(v, 1) && s[8*g+2] == vsGroupDigit(v, 2) && s[8*g+3] == vsGroupDigit(v, 3) &&
			s[8*g+4] == vsGroupDigit(v, 4) && s[8*g+5] == vsGroupDigit(v, 5) && s[8*g+6] == vsGroupDigit(v, 6) && s[8*g+7] == vsGroupDigit(v, 7)
	}))
}

//govc:inv MnemonicDecode
func inv_Decode(i int, out string, wordsar []string) bool {
	return i >= 0 && i%3 == 0 && i <= len(wordsar) && len(out) == i/3*8
}

//govc:inv MnemonicDecode
func inv_DecodeDigits(i int, out string, wordsar []string) bool {
	return vspec.Forall(0, i/3, func(g int) bool {
		v := vsOf(wordsar, g)
		return out[8*g] == vsGroupDigit(v, 0) && out[8*g+1] == vsGroupDigit(v, 1) && out[8*g+2] == vsGroupDigit(v, 2) && out[8*g+3] == vsGroupDigit(v, 3) &&
			out[8*g+4] == vsGroupDigit(v, 4) && out[8*g+5] == vsGroupDigit(v, 5) && out[8*g+6] == vsGroupDigit(v, 6) && out[8*g+7] == vsGroupDigit(v, 7)
	})
}

//govc:lemma prop=C14 strids
func verif_roundtrip(msg string) {
	vspec.Lemma("no word twice", vspec.Distinct(MnemonicWords))
	vspec.Requires(len(msg)%8 == 0 && vspec.Forall(0, len(msg), func(i int) bool { return vsIsHex(msg[i]) }))
	ws := MnemonicEncode(msg)
	vspec.ForallLemma("the words are those of the group", 0, len(msg)/8, func(g int) bool {
		b := vsGroupAt(msg, g)
		return vsIdx(ws[3*g]) == vsWord(b, 0) && vsIdx(ws[3*g+1]) == vsWord(b, 1) && vsIdx(ws[3*g+2]) == vsWord(b, 2)
	})
	vspec.ForallLemma("every group value survives", 0, len(msg)/8, func(g int) bool {
		b := vsGroupAt(msg, g)
		vspec.Lemma("indices", vsIdx(ws[3*g]) == vsWord(b, 0) && vsIdx(ws[3*g+1]) == vsWord(b, 1) && vsIdx(ws[3*g+2]) == vsWord(b, 2))
		vsLemmaValue(b)
		return vsOf(ws, g) == b
	})
	vspec.ForallLemma("every word is in the dictionary", 0, len(ws), func(i int) bool {
		b := vsGroupAt(msg, i/3)
		vspec.Lemma("indices", vsIdx(ws[i]) == vsWord(b, i%3))
		return vsIdx(ws[i]) >= 0
	})
	s := MnemonicDecode(ws)
	vspec.Ensures("same length", len(s) == len(msg))
	vspec.ForallLemma("digits of the group", 0, len(msg), func(i int) bool {
		return s[i] == vsGroupDigit(vsGroupAt(msg, i/8), i%8)
	})
	vspec.ForallLemma("same digits", 0, len(msg), func(i int) bool {
		g := i / 8
		vsLemmaDigits(msg[8*g : 8*g+8])
		return s[i] == vsLower(msg[i])
	})
	vspec.Ensures("same digits", vspec.Forall(0, len(msg), func(i int) bool { return s[i] == vsLower(msg[i]) }))
}

// vsLemmaValue: see its contract.
func vsLemmaValue(b int64) {}

//govc:contract vsLemmaValue prop=C14 modular
func verif_vsLemmaValue(b int64) {
	vspec.Requires(b >= 0 && b < 1<<32)
	vsLemmaValue(b)
	vspec.Ensures("a group value survives the three indices", vsValue(vsWord(b, 0), vsWord(b, 1), vsWord(b, 2)) == b)
}

// vsLemmaDigits: see its contract.
func vsLemmaDigits(s string) {}

//govc:contract vsLemmaDigits prop=C14 modular
func verif_vsLemmaDigits(s string) {
	vspec.Requires(len(s) == 8 && vspec.Forall(0, 8, func(i int) bool { return vsIsHex(s[i]) }))
	vsLemmaDigits(s)
	for k := 0; k < 8; k++ {
		vspec.Lemma("nibble", vsGroupDigit(int64(vsGroup(s)), k) == vsDigit(vsNibble(s[k])))
		vspec.Ensures("digit of the group value", vsGroupDigit(int64(vsGroup(s)), k) == vsLower(s[k]))
	}
}
