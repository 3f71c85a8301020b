package event

import "flychain/internal/vspec"

//govc:contract find prop=C22 modular
func verif_find(slice []*TypeMuxSubscription, item *TypeMuxSubscription) {
	p := find(slice, item)
	vspec.Ensures("position or absence", p == -1 || 0 <= p && p < len(slice) && slice[p] == item)
	vspec.Ensures("first position", vspec.Forall(0, len(slice), func(i int) bool { return slice[i] != item || 0 <= p && p <= i }))
}

//govc:inv find
func verif_inv_find(rng int, slice []*TypeMuxSubscription, item *TypeMuxSubscription) bool {
	return vspec.Forall(0, rng, func(i int) bool { return slice[i] != item })
}

//govc:contract posdelete prop=C22 modular
func verif_posdelete(slice []*TypeMuxSubscription, pos int) {
	vspec.Requires(0 <= pos && pos < len(slice))
	r := posdelete(slice, pos)
	vspec.Ensures("one shorter", len(r) == len(slice)-1)
	vspec.Ensures("before", vspec.Forall(0, pos, func(i int) bool { return r[i] == slice[i] }))
	vspec.Ensures("after", vspec.Forall(pos, len(r), func(i int) bool { return r[i] == slice[i+1] }))
	vspec.Ensures("fresh", len(r) == 0 || vspec.Fresh(r))
}

// other ways of writing the loops

//govc:inv find
func verif_inv_find2(i, p int, slice []*TypeMuxSubscription, item *TypeMuxSubscription) bool {
	return i >= 0 && i <= len(slice) && (p < 0 || 0 <= p && p < i && slice[p] == item) &&
		vspec.Forall(0, i, func(j int) bool { return slice[j] != item || 0 <= p && p <= j })
}

//govc:inv find
func verif_inv_find3(i int, slice []*TypeMuxSubscription, item *TypeMuxSubscription) bool {
	return i >= 0 && i <= len(slice) && vspec.Forall(0, i, func(j int) bool { return slice[j] != item })
}

//govc:inv posdelete
func verif_inv_posdelete(rng int, news, slice []*TypeMuxSubscription, pos int) bool {
	return rng <= len(slice) && vspec.Forall(0, rng, func(j int) bool { return j >= pos || news[j] == slice[j] }) &&
		vspec.Forall(pos, rng-1, func(j int) bool { return news[j] == slice[j+1] })
}
