package log

import (
	"math/big"
	"strconv"

	"flychain/internal/vspec"
)

// vsQuote is the quoted escaped literal for s; the proofs use nothing about it.
//
//govc:spec opaque
func vsQuote(s string) string { return strconv.Quote(s) }

//govc:model strconv:Quote
func model_Quote(s string) string { return vsQuote(s) }

func vsHarmless(c byte) bool { return '"' < c && c <= '~' && c != '=' }

func vsHarmlessMsg(c byte) bool { return ' ' <= c && c <= '~' && c != '=' || c == '\n' || c == '\r' }

//govc:contract escapeString prop=C25 modular
func verif_escapeString(s string) {
	r := escapeString(s)
	plain := vspec.Forall(0, len(s), func(i int) bool { return vsHarmless(s[i]) })
	vspec.Ensures("harmless text is kept", !plain || r == s)
	vspec.Ensures("anything else is quoted", plain || r == vsQuote(s))
}

//govc:inv escapeString
func verif_inv_escapeString(pos int, s string) bool {
	return vspec.Forall(0, pos, func(i int) bool { return vsHarmless(s[i]) })
}

//govc:contract escapeMessage prop=C25
func verif_escapeMessage(s string) {
	r := escapeMessage(s)
	plain := vspec.Forall(0, len(s), func(i int) bool { return vsHarmlessMsg(s[i]) })
	vspec.Ensures("harmless text is kept", !plain || r == s)
	vspec.Ensures("anything else is quoted", plain || r == vsQuote(s))
}

//govc:inv escapeMessage
func verif_inv_escapeMessage(pos int, s string) bool {
	return vspec.Forall(0, pos, func(i int) bool { return vsHarmlessMsg(s[i]) })
}

func vsEscaped(r, s string) bool {
	if vspec.Forall(0, len(s), func(i int) bool { return vsHarmless(s[i]) }) {
		return r == s
	}
	return r == vsQuote(s)
}

//govc:lemma prop=C25
func verif_ValueString(s string, term bool) {
	vspec.Ensures("strings are escaped", vsEscaped(formatLogfmtValue(s, term), s))
}

//govc:lemma prop=C25
func verif_ValueNil(term bool) {
	vspec.Ensures("nil", formatLogfmtValue(nil, term) == "nil" && formatLogfmtValue((*big.Int)(nil), term) == "<nil>")
}

type vsError string

func (e vsError) Error() string { return string(e) }

type vsText string

func (e vsText) String() string { return string(e) }

type vsTermText struct{ plain, term string }

func (e *vsTermText) String() string         { return e.plain }
func (e *vsTermText) TerminalString() string { return e.term }

//govc:lemma prop=C25
func verif_ValueError(s string, term bool) {
	vspec.Ensures("errors are escaped", vsEscaped(formatLogfmtValue(vsError(s), term), s))
}

//govc:lemma prop=C25
func verif_ValueText(s string, term bool) {
	vspec.Ensures("texts of values are escaped", vsEscaped(formatLogfmtValue(vsText(s), term), s))
}

//govc:lemma prop=C25
func verif_ValueTerminalText(e *vsTermText) {
	vspec.Requires(e != nil)
	vspec.Ensures("terminal form", vsEscaped(formatLogfmtValue(e, true), e.term))
	vspec.Ensures("plain form", vsEscaped(formatLogfmtValue(e, false), e.plain))
}
