package rlpstruct

import (
	"reflect"

	"flychain/internal/vspec"
)

var _ = vspec.Gen((*Type)(nil), func(intn func(int) int) interface{} { return vsGenType(intn, 0) })

func vsGenType(intn func(int) int, depth int) Type {
	kinds := []reflect.Kind{reflect.Bool, reflect.Int, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr, reflect.String, reflect.Struct, reflect.Float32, reflect.Interface}
	t := Type{IsEncoder: intn(4) == 0, IsDecoder: intn(4) == 0}
	if depth > 3 || intn(3) == 0 {
		t.Kind = kinds[intn(len(kinds))]
		return t
	}
	t.Kind = []reflect.Kind{reflect.Ptr, reflect.Slice, reflect.Array}[intn(3)]
	e := vsGenType(intn, depth+1)
	if intn(3) == 0 {
		e.Kind, e.Elem = reflect.Uint8, nil
	}
	t.Elem = &e
	return t
}

var _ = vspec.Gen((*Field)(nil), func(intn func(int) int) interface{} { return vsGenField(intn) })

func vsGenField(intn func(int) int) Field {
	words := []string{"", "-", "nil", "nilString", "nilList", "optional", "tail", "unknown", " nil ", "optional "}
	f := Field{Name: "F" + string(rune('a'+intn(26))), Exported: intn(4) > 0, Type: vsGenType(intn, 0)}
	f.Index = intn(4)
	if intn(3) > 0 {
		tag := ""
		for n := intn(4); n >= 0; n-- {
			tag += words[intn(len(words))]
			if n > 0 {
				tag += ","
			}
		}
		f.Tag = `rlp:"` + tag + `"`
	}
	return f
}

var _ = vspec.Gen((*[]Field)(nil), func(intn func(int) int) interface{} {
	var fs []Field
	for i := intn(5); i >= 0; i-- {
		f := vsGenField(intn)
		f.Index = len(fs)
		fs = append(fs, f)
	}
	return fs
})

// vsLast: last is the index of the last exported field among the first n, 0 if none is.
func vsLast(fs []Field, n int, last int) bool {
	return last == 0 && vspec.Forall(0, n, func(k int) bool { return !fs[k].Exported }) || vspec.Exists(0, n, func(k int) bool {
		return fs[k].Exported && fs[k].Index == last && vspec.Forall(k+1, n, func(i int) bool { return !fs[i].Exported })
	})
}

//govc:contract lastPublicField prop=C28 modular
func verif_lastPublicField(fs []Field) {
	r := lastPublicField(fs)
	vspec.Ensures("last exported", vsLast(fs, len(fs), r))
}

//govc:inv lastPublicField
func verif_inv_lastPublicField(rng int, field []Field, last int) bool {
	return vsLast(field, rng, last)
}

// vsKept: the field is one to encode.
func vsKept(f Field) bool { return f.Exported && !vsIgnored(f.Tag) }

func vsBadTag(f Field, last int) bool {
	return f.Exported && !vsTagOK(f.Tag, f.Type.Kind, f.Index == last)
}

func vsOpt(ts Tags) bool { return ts.Optional || ts.Tail }

// vsMissing: the field may be missing.
func vsMissing(f Field) bool { return vsOptional(f.Tag) || vsTail(f.Tag) }

// vsFiltered: fs and tags are some of the kept ones among the first n fields of all, in order, with their roles.
func vsFiltered(all, fs []Field, tags []Tags, n int) bool {
	return len(fs) == len(tags) && len(fs) <= n &&
		vspec.Forall(0, len(fs), func(j int) bool {
			k := fs[j].Index
			return 0 <= k && k < n && vsSame(fs[j], all[k]) && vsKept(fs[j]) && vsTags(fs[j], tags[j])
		}) &&
		vspec.Forall(0, len(fs), func(i int) bool {
			return vspec.Forall(i+1, len(fs), func(j int) bool { return fs[i].Index < fs[j].Index })
		})
}

// vsComplete: fs has all the kept ones among the first n.
func vsComplete(all, fs []Field, n int) bool {
	return vspec.Forall(0, n, func(k int) bool {
		return !vsKept(all[k]) || vspec.Exists(0, len(fs), func(j int) bool { return fs[j].Index == k })
	})
}

func vsSame(a, b Field) bool {
	return len(a.Name) == len(b.Name) && vspec.SameMem(a.Name, b.Name) && len(a.Tag) == len(b.Tag) && vspec.SameMem(a.Tag, b.Tag) &&
		a.Index == b.Index && a.Exported == b.Exported && a.Type.Kind == b.Type.Kind && a.Type.Elem == b.Type.Elem &&
		a.Type.IsEncoder == b.Type.IsEncoder && a.Type.IsDecoder == b.Type.IsDecoder
}

//govc:contract ProcessFields prop=C28
func verif_ProcessFields(all []Field, last int) {
	vspec.Requires(vspec.Forall(0, len(all), func(i int) bool {
		t := all[i].Type
		return all[i].Index == i && (t.Kind != reflect.Ptr || t.Elem != nil && vsTyped(*t.Elem))
	}))
	vspec.Requires(vsLast(all, len(all), last))
	vspec.SplitBool(all == nil)
	fs, tags, err := ProcessFields(all)
	bad := vspec.Exists(0, len(all), func(k int) bool { return vsBadTag(all[k], last) })
	if err == nil {
		vspec.Ensures("no bad tags", !bad)
		vspec.Ensures("the kept fields in order", vsFiltered(all, fs, tags, len(all)))
		vspec.Ensures("no kept field is missing", vsComplete(all, fs, len(all)))
		vspec.Ensures("all optional after an optional one", vspec.Forall(0, len(tags), func(i int) bool {
			return vspec.Forall(i, len(tags), func(j int) bool { return !vsOpt(tags[i]) || vsOpt(tags[j]) })
		}))
	} else {
		vspec.Ensures("a reason to reject", bad || vspec.Exists(0, len(all), func(i int) bool {
			return vspec.Exists(i+1, len(all), func(j int) bool {
				return vsKept(all[i]) && vsKept(all[j]) && vsMissing(all[i]) && !vsMissing(all[j])
			})
		}))
	}
}

//govc:inv ProcessFields#0
func verif_inv_ProcessFields(rng int, allFields []Field, fields []Field, tags []Tags) bool {
	return vsFiltered(allFields, fields, tags, rng)
}

//govc:inv ProcessFields#0
func verif_inv_ProcessFieldsAll(rng int, allFields []Field, fields []Field) bool {
	return vsComplete(allFields, fields, rng)
}

//govc:inv ProcessFields#0
func verif_inv_ProcessFieldsTags(rng int, allFields []Field, lastPublic int) bool {
	return vspec.Forall(0, rng, func(k int) bool { return !vsBadTag(allFields[k], lastPublic) })
}

//govc:inv ProcessFields#1
func verif_inv_ProcessFieldsOrder(rng int, tags []Tags, anyOptional bool) bool {
	return anyOptional == vspec.Exists(0, rng, func(i int) bool { return vsOpt(tags[i]) }) &&
		vspec.Forall(0, rng, func(i int) bool {
			return vspec.Forall(i, rng, func(j int) bool { return !vsOpt(tags[i]) || vsOpt(tags[j]) })
		})
}

//govc:inv ProcessFields#0
func verif_inv_ProcessFieldsFresh(fields []Field, tags []Tags) bool {
	return (cap(fields) == 0 || vspec.Fresh(fields)) && (cap(tags) == 0 || vspec.Fresh(tags)) && (cap(fields) == 0 || cap(tags) == 0 || vspec.Separate(fields, tags))
}

// the same when the loop runs backwards
//
//govc:inv lastPublicField
func verif_inv_lastPublicField2(i int, field []Field) bool {
	return i >= -1 && i < len(field) && vspec.Forall(i+1, len(field), func(j int) bool { return !field[j].Exported })
}
