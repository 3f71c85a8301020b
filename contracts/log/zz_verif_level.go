package log

import "flychain/internal/vspec"

//govc:contract Lvl.String prop=C29
func verif_Lvl_String(l Lvl) {
	ok := l == LvlTrace || l == LvlDebug || l == LvlInfo || l == LvlWarn || l == LvlError || l == LvlCrit
	vspec.Requires(ok)
	s := l.String()
	vspec.Ensures("trace", l != LvlTrace || s == "trce")
	vspec.Ensures("debug", l != LvlDebug || s == "dbug")
	vspec.Ensures("info", l != LvlInfo || s == "info")
	vspec.Ensures("warn", l != LvlWarn || s == "warn")
	vspec.Ensures("error", l != LvlError || s == "eror")
	vspec.Ensures("crit", l != LvlCrit || s == "crit")
}

//govc:contract Lvl.AlignedString prop=C29
func verif_Lvl_AlignedString(l Lvl) {
	ok := l == LvlTrace || l == LvlDebug || l == LvlInfo || l == LvlWarn || l == LvlError || l == LvlCrit
	vspec.Requires(ok)
	s := l.AlignedString()
	vspec.Ensures("trace", l != LvlTrace || s == "TRACE")
	vspec.Ensures("debug", l != LvlDebug || s == "DEBUG")
	vspec.Ensures("info", l != LvlInfo || s == "INFO ")
	vspec.Ensures("warn", l != LvlWarn || s == "WARN ")
	vspec.Ensures("error", l != LvlError || s == "ERROR")
	vspec.Ensures("crit", l != LvlCrit || s == "CRIT ")
}

// a value that is no level has no name
//
//govc:lemma prop=C29
func verif_NoLevel(l Lvl) {
	vspec.Requires(l < LvlCrit || l > LvlTrace)
	vspec.Ensures("String panics", vspec.Panics(func() { _ = l.String() }))
	vspec.Ensures("AlignedString panics", vspec.Panics(func() { _ = l.AlignedString() }))
}

//govc:lemma prop=C29
func verif_LevelOrder() {
	vspec.Ensures("severity order", LvlCrit == 0 && LvlError == 1 && LvlWarn == 2 && LvlInfo == 3 && LvlDebug == 4 && LvlTrace == 5)
}

//govc:contract LvlFromString prop=C29
func verif_LvlFromString(s string) {
	l, err := LvlFromString(s)
	known := s == "trace" || s == "trce" || s == "debug" || s == "dbug" || s == "info" || s == "warn" || s == "error" || s == "eror" || s == "crit"
	vspec.Ensures("known names only", (err == nil) == known)
	vspec.Ensures("trace", !(s == "trace" || s == "trce") || l == LvlTrace)
	vspec.Ensures("debug", !(s == "debug" || s == "dbug") || l == LvlDebug)
	vspec.Ensures("info", s != "info" || l == LvlInfo)
	vspec.Ensures("warn", s != "warn" || l == LvlWarn)
	vspec.Ensures("error", !(s == "error" || s == "eror") || l == LvlError)
	vspec.Ensures("crit", s != "crit" || l == LvlCrit)
	vspec.Ensures("unknown names give debug", known || l == LvlDebug)
}

//govc:lemma prop=C29
func verif_LevelRoundTrip(l Lvl) {
	vspec.Requires(LvlCrit <= l && l <= LvlTrace)
	b, err := LvlFromString(l.String())
	vspec.Ensures("text and back", err == nil && b == l)
}
