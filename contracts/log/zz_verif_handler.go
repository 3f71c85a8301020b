package log

import (
	"errors"

	"flychain/internal/vspec"
)

// vsCall is one call of a handler.
type vsCall struct {
	h Handler
	r *Record
}

// the calls of handlers that are not known, in order; those beyond the room are only counted
var (
	vsCalls []vsCall
	vsN     int
)

func vsBegin(room int) {
	vsCalls = make([]vsCall, room)
	vsN = 0
}

// vsResult is what the k-th call, made to h, returns; the proofs use nothing about it.
//
//govc:spec opaque
func vsResult(h Handler, k int) error {
	s := h.(*vsStub)
	return s.res[k%len(s.res)]
}

// model of any handler
//
//govc:imodel Handler.Log
func model_Handler_Log(h Handler, r *Record) error {
	k := vsN
	if k < len(vsCalls) {
		vsCalls[k] = vsCall{h, r}
	}
	vsN++
	return vsResult(h, k)
}

// vsStub stands for a handler in replays.
type vsStub struct{ res [5]error }

func (s *vsStub) Log(r *Record) error { return model_Handler_Log(s, r) }

var _ = vspec.Gen((*Handler)(nil), func(intn func(int) int) interface{} {
	s := &vsStub{}
	for i := range s.res {
		if intn(3) > 0 {
			s.res[i] = errors.New("failed")
		}
	}
	return s
})

func vsOnce(h Handler, r *Record) bool {
	return vsN == 1 && vsCalls[0].h == h && vsCalls[0].r == r
}

//govc:contract FilterHandler prop=C27 noframe
func verif_FilterHandler(h Handler, r *Record, pass bool) {
	vspec.Requires(h != nil)
	vsBegin(1)
	var asked *Record
	n := 0
	f := FilterHandler(func(x *Record) bool {
		asked = x
		n++
		return pass
	}, h)
	vspec.Ensures("nothing happens before a record comes", n == 0 && vsN == 0)
	err := f.Log(r)
	vspec.Ensures("asked once about the record", n == 1 && asked == r)
	vspec.Ensures("passing records reach the handler once", !pass || vsOnce(h, r) && err == vsResult(h, 0))
	vspec.Ensures("others are dropped without error", pass || vsN == 0 && err == nil)
}

//govc:contract LvlFilterHandler prop=C27 noframe
func verif_LvlFilterHandler(max Lvl, h Handler, r *Record) {
	vspec.Requires(h != nil && r != nil)
	vsBegin(1)
	lvl := r.Lvl
	err := LvlFilterHandler(max, h).Log(r)
	vspec.Ensures("records of the level or below pass", lvl > max || vsOnce(h, r) && err == vsResult(h, 0))
	vspec.Ensures("others are dropped", lvl <= max || vsN == 0 && err == nil)
}

//govc:contract DiscardHandler prop=C27 noframe
func verif_DiscardHandler(r *Record) {
	vsBegin(1)
	err := DiscardHandler().Log(r)
	vspec.Ensures("dropped without error", vsN == 0 && err == nil)
}

//govc:contract MultiHandler prop=C27 noframe
func verif_MultiHandler(hs []Handler, r *Record) {
	vspec.Requires(vspec.Forall(0, len(hs), func(i int) bool { return hs[i] != nil }))
	vsBegin(len(hs))
	err := MultiHandler(hs...).Log(r)
	vspec.Ensures("every handler once", err == nil && vsN == len(hs))
	vspec.Ensures("in order", vspec.Forall(0, len(hs), func(i int) bool { return vsCalls[i].h == hs[i] && vsCalls[i].r == r }))
}

//govc:inv MultiHandler$1
func verif_inv_MultiHandler(rng int, hs []Handler, r *Record) bool {
	return vsN == rng && vspec.Forall(0, rng, func(i int) bool { return vsCalls[i].h == hs[i] && vsCalls[i].r == r })
}

//govc:contract FailoverHandler prop=C27 noframe
func verif_FailoverHandler(hs []Handler, r *Record) {
	vspec.Requires(vspec.Forall(0, len(hs), func(i int) bool { return hs[i] != nil }))
	vspec.Requires(r != nil && vspec.Separate(hs, r.Ctx))
	ctx := make([]interface{}, len(r.Ctx))
	copy(ctx, r.Ctx)
	vsBegin(len(hs))
	err := FailoverHandler(hs...).Log(r)
	n := vsN
	vspec.Ensures("the first handlers in order, with the record", n <= len(hs) && vspec.Forall(0, n, func(i int) bool { return vsCalls[i].h == hs[i] && vsCalls[i].r == r }))
	vspec.Ensures("every one before the last failed", vspec.Forall(0, n-1, func(i int) bool { return vsResult(hs[i], i) != nil }))
	vspec.Ensures("stops only on success or at the end", n == len(hs) || n > 0 && err == nil)
	vspec.Ensures("the error of the last one is returned", n == 0 && err == nil || n > 0 && err == vsResult(hs[n-1], n-1))
}

//govc:inv FailoverHandler$1
func verif_inv_FailoverHandler1(rng int, hs []Handler, r *Record) bool {
	return vsN == rng && vspec.Separate(hs, r.Ctx) && vspec.Separate(vsCalls, r.Ctx)
}

//govc:inv FailoverHandler$1
func verif_inv_FailoverHandler2(rng int, hs []Handler, r *Record) bool {
	return vspec.Forall(0, rng, func(i int) bool { return vsCalls[i].h == hs[i] })
}

//govc:inv FailoverHandler$1
func verif_inv_FailoverHandler5(rng int, hs []Handler, r *Record) bool {
	return vspec.Forall(0, rng, func(i int) bool { return vsCalls[i].r == r })
}

//govc:inv FailoverHandler$1
func verif_inv_FailoverHandler3(rng int, hs []Handler, r *Record) bool {
	return vspec.Forall(0, rng, func(i int) bool { return vsResult(hs[i], i) != nil })
}

//govc:inv FailoverHandler$1
func verif_inv_FailoverHandler4(rng int, hs []Handler, err error) bool {
	return rng == 0 && err == nil || rng > 0 && err == vsResult(hs[rng-1], rng-1)
}

//govc:contract MatchFilterHandler prop=C27 noframe
func verif_MatchFilterHandler(key string, value interface{}, h Handler, r *Record, k int) {
	vspec.Requires(h != nil && r != nil && len(r.Ctx)%2 == 0)
	vsBegin(1)
	lvl, time, msg := key == r.KeyNames.Lvl, key == r.KeyNames.Time, key == r.KeyNames.Msg
	err := MatchFilterHandler(key, value, h).Log(r)
	pass := vsN != 0
	vspec.Ensures("passed on once or dropped", !pass && err == nil || vsOnce(h, r) && err == vsResult(h, 0))
	vspec.Ensures("level", !lvl || pass == (value == r.Lvl))
	vspec.Ensures("time", lvl || !time || pass == (value == r.Time))
	vspec.Ensures("message", lvl || time || !msg || pass == (value == r.Msg))
	vspec.Ensures("no such key", lvl || time || msg || !pass || !vspec.Forall(0, len(r.Ctx)/2, func(i int) bool { return r.Ctx[2*i] != key }))
	if 0 <= k && k < len(r.Ctx)/2 && r.Ctx[2*k] == key && vspec.Forall(0, k, func(i int) bool { return r.Ctx[2*i] != key }) {
		vspec.Ensures("the value at the key decides", lvl || time || msg || pass == (r.Ctx[2*k+1] == value))
	}
}

//govc:inv MatchFilterHandler$1
func verif_inv_MatchFilterHandler(i int, r *Record, key string) bool {
	return i >= 0 && i%2 == 0 && i <= len(r.Ctx) && vspec.Forall(0, i/2, func(j int) bool { return r.Ctx[2*j] != key })
}

// the same when the loop looks at the values, or counts pairs
//
//govc:inv MatchFilterHandler$1
func verif_inv_MatchFilterHandler2(i int, r *Record, key string) bool {
	return i >= 1 && i%2 == 1 && i <= len(r.Ctx)+1 && vspec.Forall(0, (i-1)/2, func(j int) bool { return r.Ctx[2*j] != key })
}

//govc:inv MatchFilterHandler$1
func verif_inv_MatchFilterHandler3(i int, r *Record, key string) bool {
	return i >= 0 && i <= len(r.Ctx)/2 && vspec.Forall(0, i, func(j int) bool { return r.Ctx[2*j] != key })
}
