package event

import (
	"reflect"

	"flychain/internal/vspec"
)

//govc:contract caseList.delete prop=C21 modular
func verif_caseList_delete(cs caseList, index int) {
	vspec.Requires(0 <= index && index < len(cs))
	old := make(caseList, len(cs))
	copy(old, cs)
	vspec.Modifies(cs)
	r := cs.delete(index)
	vspec.Ensures("one shorter", len(r) == len(old)-1)
	vspec.Ensures("before", vspec.Forall(0, index, func(i int) bool { return r[i] == old[i] }))
	vspec.Ensures("after", vspec.Forall(index, len(r), func(i int) bool { return r[i] == old[i+1] }))
}

//govc:contract caseList.deactivate prop=C21 modular
func verif_caseList_deactivate(cs caseList, index int) {
	vspec.Requires(0 <= index && index < len(cs))
	old := make(caseList, len(cs))
	copy(old, cs)
	vspec.Modifies(cs)
	r := cs.deactivate(index)
	vspec.Ensures("prefix of the same list", len(r) == len(old)-1 && (len(r) == 0 || vspec.SameMem(r, cs)))
	vspec.Ensures("the last case takes its place", index == len(old)-1 || r[index] == old[len(old)-1])
	vspec.Ensures("hidden, not lost", cs[len(old)-1] == old[index])
	vspec.Ensures("others unchanged", vspec.Forall(0, len(r), func(i int) bool { return i == index || r[i] == old[i] }))
}

// vsChannel is the value a reflect.Value holds; the proofs use nothing about it.
//
//govc:spec opaque
func vsChannel(v reflect.Value) interface{} { return v.Interface() }

//govc:model reflect:Value.Interface
func model_Interface(v reflect.Value) interface{} { return vsChannel(v) }

//govc:contract caseList.find prop=C21 modular
func verif_caseList_find(cs caseList, channel interface{}) {
	p := cs.find(channel)
	vspec.Ensures("position or absence", p == -1 || 0 <= p && p < len(cs) && vsChannel(cs[p].Chan) == channel)
	vspec.Ensures("first position", vspec.Forall(0, len(cs), func(i int) bool { return vsChannel(cs[i].Chan) != channel || 0 <= p && p <= i }))
}

//govc:inv caseList.find
func verif_inv_caseList_find(rng int, cs caseList, channel interface{}) bool {
	return vspec.Forall(0, rng, func(i int) bool { return vsChannel(cs[i].Chan) != channel })
}

// channels the replays draw from
var vsChans = []chan int{make(chan int), make(chan int, 1), make(chan int), make(chan int, 2)}

var _ = vspec.Gen((*caseList)(nil), func(intn func(int) int) interface{} {
	cs := make(caseList, intn(6))
	for i := range cs {
		cs[i] = reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(vsChans[intn(len(vsChans))])}
	}
	return cs
})

var _ = vspec.Gen((*interface{})(nil), func(intn func(int) int) interface{} {
	if intn(8) == 0 {
		return intn(3)
	}
	return vsChans[intn(len(vsChans))]
})
