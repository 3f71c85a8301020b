package common

import (
	"hash"

	"flychain/internal/vspec"
	"golang.org/x/crypto/sha3"
)

// vsDigest is byte i of the Keccak-256 digest of a forty-byte message; the proofs use nothing about it.
//
//govc:spec opaque
func vsDigest(m [40]byte, i int) byte {
	h := sha3.NewLegacyKeccak256()
	h.Write(m[:])
	return h.Sum(nil)[i]
}

// vsHash models the hash of golang.org/x/crypto for forty-byte messages.
type vsHash struct{ buf []byte }

func (h *vsHash) Write(p []byte) (int, error) {
	h.buf = append(h.buf, p...)
	return len(p), nil
}

func (h *vsHash) Sum(b []byte) []byte {
	if len(h.buf) != 40 {
		panic("only forty-byte messages are modelled")
	}
	var m [40]byte
	for i := 0; i < 40; i++ {
		m[i] = h.buf[i]
	}
	d := make([]byte, 32)
	for i := range d {
		d[i] = vsDigest(m, i)
	}
	if b == nil {
		return d
	}
	return append(b, d...)
}

func (h *vsHash) Reset()         { h.buf = nil }
func (h *vsHash) Size() int      { return 32 }
func (h *vsHash) BlockSize() int { return 136 }

//govc:model golang.org/x/crypto/sha3:NewLegacyKeccak256
func model_NewLegacyKeccak256() hash.Hash { return &vsHash{} }

// model of bytes.ToUpper for ASCII text
//
//govc:model bytes:ToUpper
func model_ToUpper(s []byte) []byte {
	r := make([]byte, len(s))
	for i := range r {
		c := s[i]
		if c >= 128 {
			panic("only ASCII is modelled")
		}
		if 'a' <= c && c <= 'z' {
			c -= 'a' - 'A'
		}
		r[i] = c
	}
	return r
}

// vsState records what a formatter writes.
type vsState struct {
	buf   []byte
	sharp bool
}

func (s *vsState) Write(b []byte) (int, error) {
	s.buf = append(s.buf, b...)
	return len(b), nil
}
func (s *vsState) Width() (int, bool)     { return 0, false }
func (s *vsState) Precision() (int, bool) { return 0, false }
func (s *vsState) Flag(c int) bool        { return c == '#' && s.sharp }

func vsNibOf(b byte, i int) byte {
	if i%2 == 0 {
		return b >> 4
	}
	return b & 15
}

func vsLower40(a Address) (m [40]byte) {
	for i := 0; i < 40; i++ {
		m[i] = vsDigit(vsNibOf(a[i/2], i))
	}
	return
}

// vsCasedDigit is the i-th digit of the checksummed form.
func vsCasedDigit(a Address, i int) byte {
	d := vsDigit(vsNibOf(a[i/2], i))
	if d >= 'a' && vsNibOf(vsDigest(vsLower40(a), i/2), i) >= 8 {
		return d - 'a' + 'A'
	}
	return d
}

// vsChecksummed: s from position k on is the checksummed form of a.
func vsChecksummed(s []byte, k int, a Address) bool {
	return s[k] == '0' && s[k+1] == 'x' && vspec.Forall(0, 40, func(i int) bool { return s[k+2+i] == vsCasedDigit(a, i) })
}

//govc:contract Address.Hex prop=C07 modular
func verif_Address_Hex(a Address) {
	s := a.Hex()
	vspec.Ensures("EIP-55 form", len(s) == 42 && vsChecksummed([]byte(s), 0, a))
}

//govc:contract Address.String prop=C07
func verif_Address_String(a Address) {
	s := a.String()
	vspec.Ensures("EIP-55 form", len(s) == 42 && vsChecksummed([]byte(s), 0, a))
}

//govc:contract Address.Format prop=C07
func verif_Address_Format(a Address, verb byte, sharp bool) {
	vspec.Requires(verb == 'v' || verb == 's' || verb == 'q' || verb == 'x' || verb == 'X')
	st := &vsState{sharp: sharp, buf: make([]byte, 0, 256)}
	vspec.Modifies(st, st.buf[:256])
	a.Format(st, rune(verb))
	out := st.buf
	switch verb {
	case 'v', 's':
		vspec.Ensures("EIP-55 form", len(out) == 42 && vsChecksummed(out, 0, a))
	case 'q':
		vspec.Ensures("EIP-55 form in quotes", len(out) == 44 && out[0] == '"' && out[43] == '"' && vsChecksummed(out, 1, a))
	default:
		k := 0
		if sharp {
			vspec.Ensures("prefix on request", len(out) == 42 && out[0] == '0' && (out[1] == verb))
			k = 2
		}
		vspec.Ensures("forty digits", len(out) == 40+k)
		vspec.Ensures("digits without checksum", vspec.Forall(0, 40, func(i int) bool { return out[k+i] == vsCase(vsDigit(vsNibOf(a[i/2], i)), verb) }))
	}
}

// vsCase is the digit d as the verb x or X prints it.
func vsCase(d byte, verb byte) byte {
	if verb == 'X' && d >= 'a' {
		return d - 'a' + 'A'
	}
	return d
}

// ---- C05 ----

func vsHashText(s []byte, k int, h Hash) bool {
	return s[k] == '0' && s[k+1] == 'x' && vspec.Forall(0, 64, func(i int) bool { return s[k+2+i] == vsDigit(vsNibOf(h[i/2], i)) })
}

//govc:contract Hash.Hex prop=C05
func verif_Hash_Hex(h Hash) {
	s := h.Hex()
	vspec.Ensures("0x and lower-case digits", len(s) == 66 && vsHashText([]byte(s), 0, h))
}

//govc:contract Hash.String prop=C05
func verif_Hash_String(h Hash) {
	s := h.String()
	vspec.Ensures("0x and lower-case digits", len(s) == 66 && vsHashText([]byte(s), 0, h))
}

//govc:contract Hash.Format prop=C05
func verif_Hash_Format(h Hash, verb byte, sharp bool) {
	vspec.Requires(verb == 'v' || verb == 's' || verb == 'q' || verb == 'x' || verb == 'X')
	st := &vsState{sharp: sharp, buf: make([]byte, 0, 256)}
	vspec.Modifies(st, st.buf[:256])
	h.Format(st, rune(verb))
	out := st.buf
	switch verb {
	case 'v', 's':
		vspec.Ensures("0x and lower-case digits", len(out) == 66 && vsHashText(out, 0, h))
	case 'q':
		vspec.Ensures("the same in quotes", len(out) == 68 && out[0] == '"' && out[67] == '"' && vsHashText(out, 1, h))
	default:
		k := 0
		if sharp {
			vspec.Ensures("prefix on request", len(out) == 66 && out[0] == '0' && out[1] == verb)
			k = 2
		}
		vspec.Ensures("sixty-four digits", len(out) == 64+k)
		vspec.Ensures("digits", vspec.Forall(0, 64, func(i int) bool { return out[k+i] == vsCase(vsDigit(vsNibOf(h[i/2], i)), verb) }))
	}
}

//govc:contract Hash.TerminalString prop=C05
func verif_Hash_TerminalString(h Hash) {
	s := h.TerminalString()
	vspec.Ensures("first and last three bytes", len(s) == 14 && s[6] == '.' && s[7] == '.' && vspec.Forall(0, 6, func(i int) bool {
		return s[i] == vsDigit(vsNibOf(h[i/2], i)) && s[8+i] == vsDigit(vsNibOf(h[29+i/2], i))
	}))
}
