// Package vspec is the specification vocabulary of the contracts. The
// verifier interprets these functions symbolically; the bodies below give
// them their executable meaning for replaying counterexamples.
package vspec

import (
	"fmt"
	"math/big"
	"reflect"
)

// Skip is raised when a precondition does not hold.
type Skip struct{}

// Failed is raised when a postcondition does not hold.
type Failed struct{ Name string }

func (f Failed) Error() string { return "postcondition failed: " + f.Name }

// Requires restricts the contract to inputs satisfying c.
func Requires(c bool) {
	if !c {
		panic(Skip{})
	}
}

// Ensures is a named proof obligation.
func Ensures(name string, c bool) {
	if !c {
		panic(Failed{name})
	}
}

// Lemma is an intermediate obligation which later obligations may use.
func Lemma(name string, c bool) {
	if !c {
		panic(Failed{name})
	}
}

// ForallLemma: f holds for every lo <= i < hi; proved for one arbitrary i with
// the help of the lemmas f states on the way.
func ForallLemma(name string, lo, hi int, f func(i int) bool) { Lemma(name, Forall(lo, hi, f)) }

// Forall: f holds for every lo <= i < hi.
func Forall(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}

// Exists: f holds for some lo <= i < hi.
func Exists(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if f(i) {
			return true
		}
	}
	return false
}

// Modifies declares the memory (slice elements, pointees) the target may write.
func Modifies(xs ...interface{}) { modifies = true }

var (
	modifies bool     // the contract declared writes
	inputs   []region // memory reachable from the arguments
)

type region struct{ lo, hi uintptr }

// regions collects the memory reachable from v.
func regions(v reflect.Value, depth int, out *[]region) {
	if depth > 6 {
		return
	}
	switch v.Kind() {
	case reflect.Slice:
		if v.Cap() > 0 {
			*out = append(*out, region{v.Pointer(), v.Pointer() + uintptr(v.Cap())*v.Type().Elem().Size()})
			if k := v.Type().Elem().Kind(); k == reflect.Ptr || k == reflect.Slice || k == reflect.Struct || k == reflect.Interface {
				for i := 0; i < v.Len(); i++ {
					regions(v.Index(i), depth+1, out)
				}
			}
		}
	case reflect.Ptr:
		if !v.IsNil() {
			*out = append(*out, region{v.Pointer(), v.Pointer() + v.Type().Elem().Size()})
			regions(v.Elem(), depth+1, out)
		}
	case reflect.Interface:
		if !v.IsNil() {
			regions(v.Elem(), depth+1, out)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			regions(v.Field(i), depth+1, out)
		}
	}
}

// Fresh: x does not share memory with anything that existed before the call.
func Fresh(x interface{}) bool {
	var rs []region
	v := reflect.ValueOf(x)
	if v.Kind() == reflect.Slice || v.Kind() == reflect.Ptr {
		lo, hi := span(x)
		rs = append(rs, region{lo, hi})
	}
	for _, a := range rs {
		for _, b := range inputs {
			if a.lo < b.hi && b.lo < a.hi {
				return false
			}
		}
	}
	return true
}

// Disjoint: the memory of a and b does not overlap.
func Disjoint(a, b interface{}) bool {
	al, ah := span(a)
	bl, bh := span(b)
	return ah <= bl || bh <= al
}

// Separate: a and b lie in different allocations.
func Separate(a, b interface{}) bool { return Disjoint(a, b) }

// SameMem: a and b start at the same address.
func SameMem(a, b interface{}) bool {
	al, _ := span(a)
	bl, _ := span(b)
	return al == bl
}

func span(x interface{}) (uintptr, uintptr) {
	v := reflect.ValueOf(x)
	switch v.Kind() {
	case reflect.Slice:
		return v.Pointer(), v.Pointer() + uintptr(v.Len())*v.Type().Elem().Size()
	case reflect.Ptr:
		return v.Pointer(), v.Pointer() + v.Type().Elem().Size()
	}
	panic(fmt.Sprintf("vspec: memory of %T", x))
}

// Panics reports whether f panics.
func Panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case Skip, Failed:
				panic(r)
			}
			p = true
		}
	}()
	f()
	return false
}

// Split asks for a case split over lo <= x <= hi (and otherwise).
func Split(x, lo, hi int) int { return x }

// SplitBool asks for a case split on c.
func SplitBool(c bool) bool { return c }

// Hint names terms at which quantified facts are useful.
func Hint(xs ...interface{}) {}

// Distinct: no word occurs twice.
func Distinct(words []string) bool {
	m := map[string]bool{}
	for _, w := range words {
		if m[w] {
			return false
		}
		m[w] = true
	}
	return true
}

// IndexIn is the first position of s in words, or -1.
func IndexIn(words []string, s string) int {
	for i, w := range words {
		if w == s {
			return i
		}
	}
	return -1
}

// ByteAtEntry is the content of s[i] when the loop was entered (loop invariants only).
func ByteAtEntry(s []byte, i int) byte { panic("vspec: ByteAtEntry outside a loop invariant") }

// BigByte is the j-th base-256 digit of |x|.
func BigByte(x *big.Int, j int) byte {
	if j < 0 {
		return 0
	}
	y := new(big.Int).Abs(x)
	y.Rsh(y, uint(8*j))
	return byte(y.Uint64())
}

// BigRest is |x| without its i low 64-bit words.
func BigRest(x *big.Int, i int) *big.Int {
	y := new(big.Int).Abs(x)
	return y.Rsh(y, uint(64*i))
}

// All: every condition holds (all of them are evaluated).
func All(cs ...bool) bool {
	for _, c := range cs {
		if !c {
			return false
		}
	}
	return true
}

// Any: some condition holds (all of them are evaluated).
func Any(cs ...bool) bool {
	for _, c := range cs {
		if c {
			return true
		}
	}
	return false
}

// BigExt appeals to the fact that numbers with the same base-256 digits have
// the same absolute value.
func BigExt(x, y *big.Int) {}

// Prime: p is a prime number.
func Prime(p *big.Int) bool { return p.Sign() > 0 && p.ProbablyPrime(20) }

// MulPowMod is a * b^e mod m for e >= 0 and m > 0.
func MulPowMod(a, b, e, m *big.Int) *big.Int {
	y := new(big.Int).Exp(b, e, m)
	y.Mul(a, y)
	return y.Mod(y, m)
}

// Locked: the mutex is held (checked symbolically only).
func Locked(mu interface{}) bool { return true }

// RunOne executes a contract body on concrete arguments: "" when it holds or
// its precondition does not, a description of the failure otherwise.
func RunOne(f interface{}, args []interface{}) (failure string) {
	in, ok := conv(f, args)
	if !ok {
		return ""
	}
	return run(reflect.ValueOf(f), in)
}

func conv(f interface{}, args []interface{}) ([]reflect.Value, bool) {
	t := reflect.TypeOf(f)
	var in []reflect.Value
	for i, a := range args {
		if a == nil {
			in = append(in, reflect.Zero(t.In(i)))
			continue
		}
		in = append(in, reflect.ValueOf(a))
	}
	return in, len(in) == t.NumIn()
}

func run(f reflect.Value, in []reflect.Value) (failure string) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case Skip:
				failure = ""
			case Failed:
				failure = "obligation \"" + x.Name + "\" fails"
			default:
				msg := fmt.Sprint(r)
				// exhausting the address space is outside the memory model
				if msg != "runtime error: makeslice: len out of range" && msg != "runtime error: makeslice: cap out of range" {
					failure = "panic: " + msg
				}
			}
		}
	}()
	modifies = false
	inputs = nil
	for _, v := range in {
		regions(v, 0, &inputs)
	}
	f.Call(in)
	return ""
}

// RunF runs one concrete instance of a contract.
func RunF(f func()) string { return run(reflect.ValueOf(f), nil) }
