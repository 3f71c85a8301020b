package rlpstruct

import (
	"reflect"
	"strings"

	"flychain/internal/vspec"
)

// The words of a tag: the proofs use nothing about how they are cut out of it.

//govc:spec opaque
func vsTag(tag string) string { return reflect.StructTag(tag).Get("rlp") }

//govc:spec opaque
func vsNWords(s string) int { return len(strings.Split(s, ",")) }

//govc:spec opaque
func vsWord(s string, i int) string { return strings.Split(s, ",")[i] }

//govc:spec opaque
func vsTrim(s string) string { return strings.TrimSpace(s) }

//govc:model reflect:StructTag.Get
func model_Get(tag reflect.StructTag, key string) string {
	if key != "rlp" {
		panic("only the rlp key is modelled")
	}
	return vsTag(string(tag))
}

//govc:model strings:Split
func model_Split(s, sep string) []string {
	if sep != "," {
		panic("only commas are modelled")
	}
	n := vsNWords(s)
	if n < 1 {
		n = 1
	}
	r := make([]string, n)
	for i := range r {
		r[i] = vsWord(s, i)
	}
	return r
}

//govc:inv model_Split
func verif_inv_model_Split(rng int, r []string, s string) bool {
	return vspec.Forall(0, rng, func(i int) bool { return len(r[i]) == len(vsWord(s, i)) && vspec.SameMem(r[i], vsWord(s, i)) })
}

//govc:model strings:TrimSpace
func model_TrimSpace(s string) string { return vsTrim(s) }

func vsCount(tag string) int {
	n := vsNWords(vsTag(tag))
	if n < 1 {
		n = 1
	}
	return n
}

// vsW is the i-th word of the field's tag.
func vsW(tag string, i int) string { return vsTrim(vsWord(vsTag(tag), i)) }

func vsNone(tag string, n int, word string) bool {
	return vspec.Forall(0, n, func(i int) bool { return vsW(tag, i) != word })
}

func vsIsNil(w string) bool { return w == "nil" || w == "nilString" || w == "nilList" }

func vsKnown(w string) bool {
	return w == "" || w == "-" || vsIsNil(w) || w == "optional" || w == "tail"
}

func vsNoNil(tag string, n int) bool {
	return vspec.Forall(0, n, func(i int) bool { return !vsIsNil(vsW(tag, i)) })
}

// vsRoles: ts holds exactly the roles named by the first n words.
func vsRoles(tag string, ts Tags, n int) bool {
	return ts.Ignored == !vsNone(tag, n, "-") && ts.Optional == !vsNone(tag, n, "optional") && ts.Tail == !vsNone(tag, n, "tail") && ts.NilOK == !vsNoNil(tag, n)
}

// vsAllowed: the first n words are known and make sense on a field of the kind.
func vsAllowed(tag string, kind reflect.Kind, last bool, n int) bool {
	return vspec.Forall(0, n, func(i int) bool { return vsKnown(vsW(tag, i)) }) &&
		(kind == reflect.Ptr || vsNoNil(tag, n)) &&
		(vsNone(tag, n, "tail") || last && kind == reflect.Slice && vsNone(tag, n, "optional"))
}

func vsKindOf(w string, def NilKind) NilKind {
	switch w {
	case "nilString":
		return NilKindString
	case "nilList":
		return NilKindList
	}
	return def
}

// vsDefault is the kind for a plain nil word.
func vsDefault(f Field) NilKind {
	if f.Type.Kind != reflect.Ptr {
		return 0
	}
	return vsNilKind(*f.Type.Elem)
}

// vsNilKind: unsigned integers, strings, booleans and byte arrays are empty
// strings, anything else empty lists.
func vsNilKind(t Type) NilKind {
	k := t.Kind
	uns := k == reflect.Uint || k == reflect.Uint8 || k == reflect.Uint16 || k == reflect.Uint32 || k == reflect.Uint64 || k == reflect.Uintptr
	bytes := (k == reflect.Slice || k == reflect.Array) && t.Elem.Kind == reflect.Uint8 && !t.Elem.IsEncoder
	if uns || k == reflect.String || k == reflect.Bool || bytes {
		return 0x80
	}
	return 0xC0
}

// vsTyped: the element types that the kinds call for are there.
func vsTyped(t Type) bool {
	return t.Kind != reflect.Slice && t.Kind != reflect.Array || t.Elem != nil
}

// vsIgnored, vsOptional, vsTail: the field's tag has the word.
//
//govc:spec opaque
func vsIgnored(tag string) bool { return !vsNone(tag, vsCount(tag), "-") }

//govc:spec opaque
func vsOptional(tag string) bool { return !vsNone(tag, vsCount(tag), "optional") }

//govc:spec opaque
func vsTail(tag string) bool { return !vsNone(tag, vsCount(tag), "tail") }

//govc:spec opaque
func vsNilOK(tag string) bool { return !vsNoNil(tag, vsCount(tag)) }

// vsTagOK: the words of the tag are known and make sense on the field.
//
//govc:spec opaque
func vsTagOK(tag string, kind reflect.Kind, last bool) bool {
	return vsAllowed(tag, kind, last, vsCount(tag))
}

// vsTagKind: k is the kind that the last nil word gives, none without any.
//
//govc:spec opaque
func vsTagKind(tag string, def NilKind, nilOK bool, kind NilKind) bool {
	n := vsCount(tag)
	return (nilOK || kind == 0) && vspec.Forall(0, n, func(k int) bool {
		w := vsW(tag, k)
		return !vsIsNil(w) || !vspec.Forall(k+1, n, func(i int) bool { return !vsIsNil(vsW(tag, i)) }) || kind == vsKindOf(w, def)
	})
}

//govc:contract parseTag prop=C28 modular reveal=vsIgnored,vsOptional,vsTail,vsNilOK,vsTagOK,vsTagKind
func verif_parseTag(f Field, lastPublic int) {
	vspec.Requires(f.Type.Kind != reflect.Ptr || f.Type.Elem != nil && vsTyped(*f.Type.Elem))
	ts, err := parseTag(f, lastPublic)
	vspec.Ensures("rejected exactly when a word is unknown or makes no sense", (err == nil) == vsTagOK(f.Tag, f.Type.Kind, f.Index == lastPublic))
	if err == nil {
		vspec.Ensures("exactly the roles named", vsTags(f, ts))
	}
}

// vsTags: ts is what the field's tag says.
func vsTags(f Field, ts Tags) bool {
	return ts.Ignored == vsIgnored(f.Tag) && ts.Optional == vsOptional(f.Tag) && ts.Tail == vsTail(f.Tag) && ts.NilOK == vsNilOK(f.Tag) &&
		vsTagKind(f.Tag, vsDefault(f), ts.NilOK, ts.NilKind)
}

//govc:inv parseTag
func verif_inv_parseTag(rng int, field Field, lastPublic int, ts Tags) bool {
	return vsRoles(field.Tag, ts, rng) && vsAllowed(field.Tag, field.Type.Kind, field.Index == lastPublic, rng)
}

// The kind is that of the last nil word.
//
//govc:inv parseTag
func verif_inv_parseTagKind(rng int, field Field, ts Tags) bool {
	return (ts.NilOK || ts.NilKind == 0) && vspec.Forall(0, rng, func(k int) bool {
		w := vsW(field.Tag, k)
		return !vsIsNil(w) || field.Type.Kind == reflect.Ptr && ts.NilKind == vsKindOf(w, vsDefault(field)) ||
			!vspec.Forall(k+1, rng, func(i int) bool { return !vsIsNil(vsW(field.Tag, i)) })
	})
}

//govc:contract Type.DefaultNilValue prop=C28 modular
func verif_DefaultNilValue(t Type) {
	vspec.Requires(vsTyped(t))
	r := t.DefaultNilValue()
	vspec.Ensures("string and list kinds", r == vsNilKind(t))
}

//govc:contract isUint prop=C28
func verif_isUint(k reflect.Kind) {
	r := isUint(k)
	vspec.Ensures("unsigned integers", r == (k == reflect.Uint || k == reflect.Uint8 || k == reflect.Uint16 || k == reflect.Uint32 || k == reflect.Uint64 || k == reflect.Uintptr))
}
