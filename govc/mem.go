package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
)

// ---------- values ----------

type Value interface{}

type StrV struct{ sid, off, n *Term }
type SliceV struct{ ref, off, n, c *Term }
type PtrV struct{ ref, off *Term }
type IfaceV struct{ typ, box *Term }
type StructV struct{ f []Value }
type ArrayV struct{ e []Value }
type TupleV struct{ e []Value }
type FuncV struct{ id *Term }
type RefV struct{ ref *Term } // maps, channels
type IterV struct {
	str  StrV
	cell PtrV
	m    *Term
	typ  types.Type
}

// Reference numbering: nil 0; package-level objects negative; parameters and
// anything reachable from them 1..2^40; objects allocated during execution
// above 2^41.
var (
	refInitLo   = new(big.Int).Neg(pow2(30))
	refParamHi  = pow2(40)
	refFreshLo  = pow2(41)
	maxLen      = pow2(47)
	i64lo, i64h = new(big.Int).Neg(pow2(63)), new(big.Int).Sub(pow2(63), bi1)
)

func init() {
	r := func(k string, lo, hi *big.Int) { appRange[k] = [2]*big.Int{lo, hi} }
	for _, w := range []int{8, 16, 32, 64} {
		r(fmt.Sprintf("uint%d", w), bi0, new(big.Int).Sub(pow2(w), bi1))
		r(fmt.Sprintf("int%d", w), new(big.Int).Neg(pow2(w-1)), new(big.Int).Sub(pow2(w-1), bi1))
	}
	r("int", i64lo, i64h)
	r("uint", bi0, new(big.Int).Sub(pow2(64), bi1))
	r("uintptr", bi0, new(big.Int).Sub(pow2(64), bi1))
	r("str.s", refInitLo, refParamHi)
	r("str.o", bi0, maxLen)
	r("str.n", bi0, maxLen)
	r("sl.r", refInitLo, refParamHi)
	r("sl.o", bi0, maxLen)
	r("sl.n", bi0, maxLen)
	r("sl.c", bi0, maxLen)
	r("ptr.r", refInitLo, refParamHi)
	r("ptr.o", bi0, maxLen)
	r("if.t", bi0, nil)
	r("if.b", refInitLo, refParamHi)
	r("fn", bi0, nil)
	r("map.r", refInitLo, refParamHi)
	r("chan.r", refInitLo, refParamHi)
	r("sb", bi0, big.NewInt(255)) // string bytes
}

// ---------- types ----------

var bigIntUnder types.Type // underlying struct of math/big.Int

func isBigInt(t types.Type) bool {
	if bigIntUnder == nil {
		return false
	}
	u := t.Underlying()
	return u == bigIntUnder || types.Identical(u, bigIntUnder)
}

type leaf struct {
	keys []string
	t    types.Type
}

func namedPath(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

// opaque leaf types: represented by one integer cell
func opaqueLeaf(t types.Type) string {
	switch namedPath(t) {
	case "sync.Once":
		return "once"
	case "sync.Mutex", "sync.RWMutex":
		return "mutex"
	case "sync.WaitGroup":
		return "waitgroup"
	case "sync.Cond":
		return "cond"
	}
	return ""
}

func leafKeys(t types.Type) []string {
	if isBigInt(t) {
		return []string{"big"}
	}
	if k := opaqueLeaf(t); k != "" {
		return []string{k}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.String, types.UntypedString:
			return []string{"str.s", "str.o", "str.n"}
		case types.Bool, types.UntypedBool:
			return []string{"bool"}
		case types.UnsafePointer:
			return []string{"ptr.r", "ptr.o"}
		case types.UntypedInt:
			return []string{"int"}
		case types.UntypedRune:
			return []string{"int32"}
		case types.UntypedNil:
			return []string{"ptr.r", "ptr.o"}
		}
		n := u.Name()
		if n == "byte" {
			n = "uint8"
		}
		if n == "rune" {
			n = "int32"
		}
		return []string{n}
	case *types.Pointer:
		return []string{"ptr.r", "ptr.o"}
	case *types.Slice:
		return []string{"sl.r", "sl.o", "sl.n", "sl.c"}
	case *types.Interface, *types.TypeParam:
		return []string{"if.t", "if.b"}
	case *types.Signature:
		return []string{"fn"}
	case *types.Map:
		return []string{"map.r"}
	case *types.Chan:
		return []string{"chan.r"}
	}
	return nil // struct, array
}

var slotMemo = map[types.Type]int64{}

func slots(t types.Type) int64 {
	if n, ok := slotMemo[t]; ok {
		return n
	}
	var n int64
	if leafKeys(t) != nil {
		n = 1
	} else {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				n += slots(u.Field(i).Type())
			}
			if n == 0 {
				n = 1 // distinct addresses for empty structs are not needed, one slot keeps things simple
			}
		case *types.Array:
			n = u.Len() * slots(u.Elem())
		case *types.Tuple:
			n = 1
		default:
			n = 1
		}
	}
	slotMemo[t] = n
	return n
}

func fieldOff(u *types.Struct, i int) int64 {
	var n int64
	for j := 0; j < i; j++ {
		n += slots(u.Field(j).Type())
	}
	return n
}

// allKeys of a type, for zero filling.
func allKeys(t types.Type) []string {
	m := map[string]bool{}
	var rec func(t types.Type)
	rec = func(t types.Type) {
		if ks := leafKeys(t); ks != nil {
			for _, k := range ks {
				m[k] = true
			}
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				rec(u.Field(i).Type())
			}
		case *types.Array:
			rec(u.Elem())
		}
	}
	rec(t)
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func keyZero(k string) *Term {
	if k == "bool" {
		return False
	}
	return I(0)
}

// ---------- heap ----------

type hkind uint8

const (
	hBase hkind = iota
	hStore
	hFill
	hCopy
	hHavoc
	hIte
	hZero
)

type region struct {
	ref    *Term
	lo, n  *Term // nil n: whole object
	cond   *Term // nil: true
	anyRef bool
}

type HNode struct {
	kind  hkind
	key   string
	prev  *HNode
	ref   *Term
	idx   *Term
	n     *Term
	val   *Term
	src   func(i *Term) *Term
	str   *StrV // the copied bytes are this string
	uf    string
	regs  []region
	keep  func(ref *Term) *Term // condition under which the region-havoc does not apply (any-havoc)
	c     *Term
	a, b  *HNode
	depth int
	memo  map[[2]*Term]*Term
}

var baseNodes = map[string]*HNode{}

// initHeap holds the contents of package-level objects.
var initState *State

func baseNode(key string) *HNode {
	if n, ok := baseNodes[key]; ok {
		return n
	}
	n := &HNode{kind: hBase, key: key}
	baseNodes[key] = n
	return n
}

// bigTable: the package-level object is a large table of constants; reading
// it at an unknown index gives an uninterpreted entry.
func bigTable(h *HNode, ref *Term) bool {
	k := tblKey{h, ref}
	if b, ok := bigTables[k]; ok {
		return b
	}
	n := 0
	for p := h; p != nil && n < 600; p = p.prev {
		if p.kind != hStore && p.kind != hFill && p.kind != hZero && p.kind != hBase {
			break
		}
		if p.kind == hStore && p.ref == ref {
			n++
		}
	}
	bigTables[k] = n >= 600
	return n >= 600
}

type tblKey struct {
	h   *HNode
	ref *Term
}

var bigTables = map[tblKey]bool{}

func ufApp(key, name string, args ...*Term) *Term {
	if key == "bool" {
		return AppB(name, args...)
	}
	t := App(name, args...)
	if t.lo == nil && t.hi == nil {
		if r, ok := appRange[key]; ok {
			t.lo, t.hi = r[0], r[1]
		}
	}
	return t
}

// mutableGlobal reports refs of package objects whose initial value is not known.
var opaqueInitRefs = map[int64]bool{}

func Select(h *HNode, ref, idx *Term) *Term {
	// iterative walk over decided nodes
	for {
		switch h.kind {
		case hBase:
			if ref.op == OIte && iteConstDepth(ref) > 0 {
				return Ite(ref.args[0], Select(h, ref.args[1], idx), Select(h, ref.args[2], idx))
			}
			if ref.isConst() && ref.k.Sign() < 0 && initState != nil {
				if !opaqueInitRefs[ref.k.Int64()] {
					if ih, ok := initState.heap[h.key]; ok && ih != h {
						if !idx.isConst() && bigTable(ih, ref) {
							return ufApp(h.key, "tbl."+h.key, ref, idx)
						}
						return Select(ih, ref, idx)
					}
					return keyZero(h.key)
				}
			}
			return ufApp(h.key, h.key, ref, idx)
		case hZero:
			return keyZero(h.key)
		case hStore:
			if ref == h.ref && idx == h.idx {
				return h.val
			}
			rc := Eq(ref, h.ref)
			if rc == False {
				h = h.prev
				continue
			}
			ic := Eq(idx, h.idx)
			if ic == False {
				h = h.prev
				continue
			}
		case hFill:
			rc := Eq(ref, h.ref)
			if rc == True {
				return h.val
			}
			if rc == False {
				h = h.prev
				continue
			}
		case hCopy:
			rc := Eq(ref, h.ref)
			if rc == False {
				h = h.prev
				continue
			}
			c := And(rc, Le(h.idx, idx), Lt(idx, Add(h.idx, h.n)))
			if c == False {
				h = h.prev
				continue
			}
			if c == True {
				return h.src(Sub(idx, h.idx))
			}
		}
		break
	}
	k := [2]*Term{ref, idx}
	if r, ok := h.memo[k]; ok {
		return r
	}
	var r *Term
	switch h.kind {
	case hStore:
		c := And(Eq(ref, h.ref), Eq(idx, h.idx))
		r = Ite(c, h.val, Select(h.prev, ref, idx))
	case hFill:
		r = Ite(Eq(ref, h.ref), h.val, Select(h.prev, ref, idx))
	case hCopy:
		c := And(Eq(ref, h.ref), Le(h.idx, idx), Lt(idx, Add(h.idx, h.n)))
		r = Ite(c, h.src(Sub(idx, h.idx)), Select(h.prev, ref, idx))
	case hHavoc:
		var c *Term
		if h.keep != nil {
			c = Not(h.keep(ref))
		} else {
			c = False
			for _, g := range h.regs {
				rc := Eq(ref, g.ref)
				if g.cond != nil {
					rc = And(g.cond, rc)
				}
				if rc != False && g.n != nil {
					rc = And(rc, Le(g.lo, idx), Lt(idx, Add(g.lo, g.n)))
				}
				c = Or(c, rc)
			}
		}
		if c == False {
			r = Select(h.prev, ref, idx)
		} else if c == True {
			r = ufApp(h.key, h.uf, ref, idx)
		} else {
			r = Ite(c, ufApp(h.key, h.uf, ref, idx), Select(h.prev, ref, idx))
		}
	case hIte:
		r = Ite(h.c, Select(h.a, ref, idx), Select(h.b, ref, idx))
	default:
		panic("select")
	}
	if h.memo == nil {
		h.memo = map[[2]*Term]*Term{}
	}
	h.memo[k] = r
	return r
}

// ---------- strings ----------

// sequences for literal/derived strings: sid constant -> content
type Seq interface{ at(i *Term) *Term }

type litSeq struct{ s string }

func (l litSeq) at(i *Term) *Term {
	if i.isConst() {
		if i.k.Sign() >= 0 && i.k.IsInt64() && i.k.Int64() < int64(len(l.s)) {
			return I(int64(l.s[i.k.Int64()]))
		}
		return I(0)
	}
	return tableAt(l.s, i)
}

// tableAt builds a piecewise-linear expression for a constant byte table.
func tableAt(s string, i *Term) *Term {
	// pieces: runs where s[j]-j is constant
	type piece struct {
		lo, hi int
		d      int64
	}
	lo, hi := 0, len(s)-1
	if i.lo != nil && i.lo.IsInt64() && i.lo.Int64() > int64(lo) {
		lo = int(i.lo.Int64())
	}
	if i.hi != nil && i.hi.IsInt64() && i.hi.Int64() < int64(hi) {
		hi = int(i.hi.Int64())
	}
	var ps []piece
	type cpiece struct {
		lo, hi int
		c      bool // constant run
		v      int64
	}
	var cs []cpiece
	_ = ps
	for j := lo; j <= hi; {
		// constant run
		a := j
		for a+1 <= hi && s[a+1] == s[j] {
			a++
		}
		b := j
		for b+1 <= hi && int(s[b+1])-int(s[b]) == 1 {
			b++
		}
		if a >= b {
			cs = append(cs, cpiece{j, a, true, int64(s[j])})
			j = a + 1
		} else {
			cs = append(cs, cpiece{j, b, false, int64(s[j]) - int64(j)})
			j = b + 1
		}
	}
	if len(cs) == 0 {
		return I(0)
	}
	r := func(p cpiece) *Term {
		if p.c {
			return I(p.v)
		}
		return Add(i, I(p.v))
	}
	t := r(cs[len(cs)-1])
	for j := len(cs) - 2; j >= 0; j-- {
		t = Ite(Le(i, I(int64(cs[j].hi))), r(cs[j]), t)
	}
	return t
}

type fnSeq struct{ f func(i *Term) *Term }

func (l fnSeq) at(i *Term) *Term { return l.f(i) }

var (
	seqs    = map[int64]Seq{}
	litIDs  = map[string]*Term{}
	nextSeq = int64(1) << 42
)

func newSeq(s Seq) *Term {
	nextSeq++
	seqs[nextSeq] = s
	return I(nextSeq)
}

func litString(s string) StrV {
	id, ok := litIDs[s]
	if !ok {
		id = newSeq(litSeq{s})
		litIDs[s] = id
	}
	return StrV{id, I(0), I(int64(len(s)))}
}

func seqAt(sid, i *Term) *Term {
	if sid.isConst() {
		if q, ok := seqs[sid.k.Int64()]; ok {
			return q.at(i)
		}
		if sid.k.Sign() == 0 {
			return I(0)
		}
	}
	if sid.op == OIte {
		return Ite(sid.args[0], seqAt(sid.args[1], i), seqAt(sid.args[2], i))
	}
	return App("sb", sid, i)
}

func (s StrV) at(i *Term) *Term { return seqAt(s.sid, Add(s.off, i)) }

func (s StrV) lit() (string, bool) {
	if s.sid.isConst() && s.off.isConst() && s.n.isConst() {
		if s.n.k.Sign() == 0 {
			return "", true
		}
		if q, ok := seqs[s.sid.k.Int64()].(litSeq); ok {
			o, n := s.off.k.Int64(), s.n.k.Int64()
			if o >= 0 && o+n <= int64(len(q.s)) {
				return q.s[o : o+n], true
			}
		}
		// fully constant content
		n := s.n.k.Int64()
		if n <= 4096 {
			b := make([]byte, n)
			for i := int64(0); i < n; i++ {
				c := s.at(I(i))
				if !c.isConst() {
					return "", false
				}
				b[i] = byte(c.k.Int64())
			}
			return string(b), true
		}
	}
	return "", false
}

// ---------- state ----------

type State struct {
	heap map[string]*HNode
	ctx  *Ctx
	regs map[interface{}]Value
	defs *deferList
	log  *wlog
	zero bool // package initialisation: unset memory is zero
}

type wlog struct {
	prev *wlog
	key  string
	ref  *Term
	lo   *Term
	n    *Term // nil: whole object
	ctx  *Ctx
}

func (s *State) clone() *State {
	n := &State{heap: make(map[string]*HNode, len(s.heap)), ctx: s.ctx, regs: s.regs, defs: s.defs, log: s.log, zero: s.zero}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	return n
}

func (s *State) h(key string) *HNode {
	if n, ok := s.heap[key]; ok {
		return n
	}
	if s.zero {
		return &HNode{kind: hZero, key: key}
	}
	return baseNode(key)
}

func (s *State) sel(key string, ref, idx *Term) *Term {
	return s.ctx.Simp(Select(s.h(key), ref, idx))
}

func (s *State) wr(key string, ref, idx, val *Term) {
	s.log = &wlog{s.log, key, ref, idx, I(1), s.ctx}
	h := s.h(key)
	s.heap[key] = &HNode{kind: hStore, key: key, prev: h, ref: ref, idx: idx, val: val}
}

func (s *State) fill(key string, ref, val *Term) {
	s.heap[key] = &HNode{kind: hFill, key: key, prev: s.h(key), ref: ref, val: val}
}

func (s *State) copyIn(key string, ref, idx, n *Term, src func(i *Term) *Term) {
	if n.isC(0) {
		return
	}
	s.log = &wlog{s.log, key, ref, idx, n, s.ctx}
	if n.isConst() && n.k.IsInt64() && n.k.Int64() <= 72 {
		// expand small copies into stores (source is evaluated eagerly)
		m := n.k.Int64()
		vals := make([]*Term, m)
		for i := int64(0); i < m; i++ {
			vals[i] = s.ctx.Simp(src(I(i)))
		}
		h := s.h(key)
		for i := int64(0); i < m; i++ {
			h = &HNode{kind: hStore, key: key, prev: h, ref: ref, idx: Add(idx, I(i)), val: vals[i]}
		}
		s.heap[key] = h
		return
	}
	s.heap[key] = &HNode{kind: hCopy, key: key, prev: s.h(key), ref: ref, idx: idx, n: n, src: src}
}

// ---------- load/store of typed values ----------

func (s *State) comp(key string, ref, off *Term) *Term { return s.sel(key, ref, off) }

func fromComps(t types.Type, c []*Term) Value {
	ks := leafKeys(t)
	if len(ks) == 1 {
		switch ks[0] {
		case "fn":
			return FuncV{c[0]}
		case "map.r", "chan.r":
			return RefV{c[0]}
		}
		return c[0]
	}
	switch ks[0] {
	case "str.s":
		return StrV{c[0], c[1], c[2]}
	case "ptr.r":
		return PtrV{c[0], c[1]}
	case "sl.r":
		return SliceV{c[0], c[1], c[2], c[3]}
	case "if.t":
		return IfaceV{c[0], c[1]}
	}
	panic("fromComps " + t.String())
}

func toComps(v Value) []*Term {
	switch x := v.(type) {
	case *Term:
		return []*Term{x}
	case StrV:
		return []*Term{x.sid, x.off, x.n}
	case PtrV:
		return []*Term{x.ref, x.off}
	case SliceV:
		return []*Term{x.ref, x.off, x.n, x.c}
	case IfaceV:
		return []*Term{x.typ, x.box}
	case FuncV:
		return []*Term{x.id}
	case RefV:
		return []*Term{x.ref}
	}
	panic(fmt.Sprintf("toComps %T", v))
}

func (s *State) load(t types.Type, ref, off *Term) Value {
	if ks := leafKeys(t); ks != nil {
		c := make([]*Term, len(ks))
		for i, k := range ks {
			c[i] = s.comp(k, ref, off)
		}
		v := fromComps(t, c)
		if sl, ok := v.(SliceV); ok {
			s.assumeSlice(sl)
		}
		return v
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		r := StructV{}
		o := int64(0)
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			r.f = append(r.f, s.load(ft, ref, Add(off, I(o))))
			o += slots(ft)
		}
		return r
	case *types.Array:
		r := ArrayV{}
		sz := slots(u.Elem())
		if u.Len() > 2048 {
			unsupported("load of large array %s", t)
		}
		for i := int64(0); i < u.Len(); i++ {
			r.e = append(r.e, s.load(u.Elem(), ref, Add(off, I(i*sz))))
		}
		return r
	}
	unsupported("load %s", t)
	return nil
}

func (s *State) assumeSlice(v SliceV) {
	s.ctx = s.ctx.Assume(Le(v.n, v.c))
	if !(v.ref.isConst() && v.ref.k.Sign() != 0) {
		s.ctx = s.ctx.Assume(Or(Not(Eq(v.ref, I(0))), Eq(v.c, I(0))))
	}
}

func (s *State) store(t types.Type, ref, off *Term, v Value) {
	if ks := leafKeys(t); ks != nil {
		c := toComps(v)
		if len(c) != len(ks) {
			panic(fmt.Sprintf("store %s: %T", t, v))
		}
		for i, k := range ks {
			s.wr(k, ref, off, c[i])
		}
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		o := int64(0)
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			s.store(ft, ref, Add(off, I(o)), v.(StructV).f[i])
			o += slots(ft)
		}
		return
	case *types.Array:
		sz := slots(u.Elem())
		for i := int64(0); i < u.Len(); i++ {
			s.store(u.Elem(), ref, Add(off, I(i*sz)), v.(ArrayV).e[i])
		}
		return
	}
	unsupported("store %s", t)
}

// ---------- merging ----------

func mergeVal(c *Term, a, b Value) Value {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	switch x := a.(type) {
	case nil:
		return b
	case *Term:
		if b == nil {
			return a
		}
		return Ite(c, x, b.(*Term))
	case StrV:
		y := b.(StrV)
		return StrV{Ite(c, x.sid, y.sid), Ite(c, x.off, y.off), Ite(c, x.n, y.n)}
	case SliceV:
		y := b.(SliceV)
		return SliceV{Ite(c, x.ref, y.ref), Ite(c, x.off, y.off), Ite(c, x.n, y.n), Ite(c, x.c, y.c)}
	case PtrV:
		y := b.(PtrV)
		return PtrV{Ite(c, x.ref, y.ref), Ite(c, x.off, y.off)}
	case IfaceV:
		y := b.(IfaceV)
		return IfaceV{Ite(c, x.typ, y.typ), Ite(c, x.box, y.box)}
	case FuncV:
		return FuncV{Ite(c, x.id, b.(FuncV).id)}
	case RefV:
		return RefV{Ite(c, x.ref, b.(RefV).ref)}
	case StructV:
		y := b.(StructV)
		r := StructV{f: make([]Value, len(x.f))}
		for i := range x.f {
			r.f[i] = mergeVal(c, x.f[i], y.f[i])
		}
		return r
	case ArrayV:
		y := b.(ArrayV)
		r := ArrayV{e: make([]Value, len(x.e))}
		for i := range x.e {
			r.e[i] = mergeVal(c, x.e[i], y.e[i])
		}
		return r
	case TupleV:
		y := b.(TupleV)
		r := TupleV{e: make([]Value, len(x.e))}
		for i := range x.e {
			r.e[i] = mergeVal(c, x.e[i], y.e[i])
		}
		return r
	case IterV:
		return a
	}
	panic(fmt.Sprintf("mergeVal %T %T", a, b))
}

func mapVal(v Value, f func(*Term) *Term) Value {
	switch x := v.(type) {
	case nil:
		return nil
	case *Term:
		return f(x)
	case StrV:
		return StrV{f(x.sid), f(x.off), f(x.n)}
	case SliceV:
		return SliceV{f(x.ref), f(x.off), f(x.n), f(x.c)}
	case PtrV:
		return PtrV{f(x.ref), f(x.off)}
	case IfaceV:
		return IfaceV{f(x.typ), f(x.box)}
	case FuncV:
		return FuncV{f(x.id)}
	case RefV:
		return RefV{f(x.ref)}
	case StructV:
		r := StructV{f: make([]Value, len(x.f))}
		for i := range x.f {
			r.f[i] = mapVal(x.f[i], f)
		}
		return r
	case ArrayV:
		r := ArrayV{e: make([]Value, len(x.e))}
		for i := range x.e {
			r.e[i] = mapVal(x.e[i], f)
		}
		return r
	case TupleV:
		r := TupleV{e: make([]Value, len(x.e))}
		for i := range x.e {
			r.e[i] = mapVal(x.e[i], f)
		}
		return r
	case IterV:
		return v
	}
	panic(fmt.Sprintf("mapVal %T", v))
}

// mergeStates joins several states; vals[i] are values to be merged alongside.
func mergeStates(sts []*State, vals [][]Value) (*State, []Value) {
	// drop dead states
	var ss []*State
	var vs [][]Value
	for i, s := range sts {
		if s.ctx.dead {
			continue
		}
		ss = append(ss, s)
		if vals != nil {
			vs = append(vs, vals[i])
		}
	}
	if len(ss) == 0 {
		return nil, nil
	}
	if len(ss) == 1 {
		if vals != nil {
			return ss[0], vs[0]
		}
		return ss[0], nil
	}
	anc := ss[0].ctx
	for _, s := range ss[1:] {
		anc = commonCtx(anc, s.ctx)
	}
	gs := make([]*Term, len(ss))
	var assumes []*Term
	for i, s := range ss {
		g, a := s.ctx.suffix(anc)
		gs[i] = And(g...)
		for _, x := range a {
			assumes = append(assumes, Or(Not(gs[i]), x))
		}
	}
	n := &State{heap: map[string]*HNode{}, ctx: anc, zero: ss[0].zero}
	n.ctx = n.ctx.Guard(Or(gs...))
	for _, a := range assumes {
		n.ctx = n.ctx.Assume(a)
	}
	// heaps
	keys := map[string]bool{}
	for _, s := range ss {
		for k := range s.heap {
			keys[k] = true
		}
	}
	last := len(ss) - 1
	for k := range keys {
		h := ss[last].h(k)
		for i := last - 1; i >= 0; i-- {
			hi := ss[i].h(k)
			if hi != h {
				h = &HNode{kind: hIte, key: k, c: gs[i], a: hi, b: h}
			}
		}
		n.heap[k] = h
	}
	// overlay registers
	n.regs = map[interface{}]Value{}
	for i := last; i >= 0; i-- {
		for k, v := range ss[i].regs {
			if o, ok := n.regs[k]; ok {
				n.regs[k] = mergeVal(gs[i], v, o)
			} else {
				n.regs[k] = v
			}
		}
	}
	// defers: must agree
	n.defs = ss[0].defs
	for _, s := range ss[1:] {
		if s.defs != n.defs {
			n.defs = mergeDefers(n.defs, s.defs)
		}
	}
	// logs: concatenate (order irrelevant)
	n.log = mergeLogs(ss)
	var out []Value
	if vals != nil {
		out = make([]Value, len(vs[0]))
		for j := range out {
			v := vs[last][j]
			for i := last - 1; i >= 0; i-- {
				v = mergeVal(gs[i], vs[i][j], v)
			}
			out[j] = mapVal(v, n.ctx.Simp)
		}
	}
	return n, out
}

func mergeLogs(ss []*State) *wlog {
	in := map[*wlog]bool{}
	base := ss[0].log
	for p := base; p != nil; p = p.prev {
		in[p] = true
	}
	r := base
	for _, s := range ss[1:] {
		var extra []*wlog
		for p := s.log; p != nil && !in[p]; p = p.prev {
			extra = append(extra, p)
		}
		for i := len(extra) - 1; i >= 0; i-- {
			e := *extra[i]
			e.prev = r
			r = &e
			in[extra[i]] = true
			in[r] = true
		}
	}
	return r
}

type deferList struct {
	prev *deferList
	run  func(st *State) *State
	cond *Term
}

func mergeDefers(a, b *deferList) *deferList {
	if a == b {
		return a
	}
	unsupported("conditional defer")
	return nil
}

type unsupportedErr struct{ msg string }

func unsupported(f string, a ...interface{}) {
	panic(unsupportedErr{fmt.Sprintf(f, a...)})
}
