package vspec

import (
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"reflect"
	"strings"
	"time"
	"unsafe"
)

// Search looks for concrete arguments falsifying the contract f.
func Search(f interface{}, seed int64, budget time.Duration, dict []string, frame bool) (failure, input string, tried int) {
	rv := reflect.ValueOf(f)
	t := rv.Type()
	g := &gen{r: rand.New(rand.NewSource(seed)), dict: dict}
	end := time.Now().Add(budget)
	for n := 0; ; n++ {
		if n&63 == 0 && time.Now().After(end) {
			return "", "", n
		}
		g.small = n%3 == 0
		s := g.r.Int63()
		mk := func() []reflect.Value {
			g.r.Seed(s)
			g.bufs = nil
			in := make([]reflect.Value, t.NumIn())
			for i := range in {
				in[i] = g.value(t.In(i), 0)
			}
			return in
		}
		in := mk()
		if msg := run(rv, in); msg != "" {
			return msg, show(mk()), n
		}
		if frame && !modifies && !reflect.DeepEqual(vals(in), vals(mk())) {
			return "an argument was overwritten", show(mk()), n
		}
		if t.NumIn() == 0 {
			return "", "", 1
		}
	}
}

func vals(in []reflect.Value) []interface{} {
	var r []interface{}
	for _, v := range in {
		if v.Kind() != reflect.Func {
			r = append(r, v.Interface())
		}
	}
	return r
}

func show(in []reflect.Value) string {
	var sb strings.Builder
	for i, v := range in {
		if i > 0 {
			sb.WriteString(", ")
		}
		sb.WriteString(showVal(v))
	}
	return sb.String()
}

func showVal(v reflect.Value) string {
	if v.Kind() == reflect.Ptr && !v.IsNil() {
		if v.CanInterface() {
			if b, ok := v.Interface().(*big.Int); ok {
				return "big(0x" + b.Text(16) + ")"
			}
		}
		return "&" + showVal(v.Elem())
	}
	if v.Kind() == reflect.Func {
		return "func"
	}
	return fmt.Sprintf("%#v", v)
}

type gen struct {
	r     *rand.Rand
	dict  []string
	small bool
	bufs  [][]byte
}

var gens = map[reflect.Type]func(func(int) int) interface{}{}

var errT = reflect.TypeOf((*error)(nil)).Elem()

// Gen registers a source of values for replays; p is a nil pointer to the type.
func Gen(p interface{}, f func(intn func(int) int) interface{}) bool {
	gens[reflect.TypeOf(p).Elem()] = f
	return true
}

var alphabets = []string{"0123456789abcdef", "0123456789abcdefABCDEF", "0123456789", "01", "0xX1aA", "abcdefxyzXYZ", " =\"\\\n\t\x00\x7f\x80\xc3é世", "-+0123456789", "\x00\x01\x7f\x80\xff"}

func (g *gen) len() int {
	switch g.r.Intn(10) {
	case 0:
		return 0
	case 1:
		return 1
	case 2, 3, 4:
		return g.r.Intn(5)
	case 5, 6:
		return g.r.Intn(20)
	case 7:
		ls := []int{15, 16, 17, 19, 20, 21, 31, 32, 33, 38, 39, 40, 41, 42, 63, 64, 65, 66, 67, 77, 78, 79, 128, 135, 136, 137, 143, 144, 145, 200, 256, 272}
		return ls[g.r.Intn(len(ls))]
	case 8:
		return g.r.Intn(80)
	}
	return g.r.Intn(300)
}

func (g *gen) str() string {
	if len(g.dict) > 0 && g.r.Intn(4) == 0 {
		s := g.dict[g.r.Intn(len(g.dict))]
		if g.r.Intn(2) == 0 {
			return s
		}
		return s + g.str()
	}
	n := g.len()
	a := alphabets[g.r.Intn(len(alphabets))]
	b := make([]byte, n)
	for i := range b {
		b[i] = a[g.r.Intn(len(a))]
	}
	if n > 0 && g.r.Intn(6) == 0 {
		b[g.r.Intn(n)] = byte(g.r.Intn(256))
	}
	if n > 0 && g.r.Intn(5) == 0 {
		k := g.r.Intn(n + 1)
		for i := 0; i < k; i++ {
			b[i] = '0'
		}
	}
	s := string(b)
	switch g.r.Intn(8) {
	case 0, 1:
		s = "0x" + s
	case 2:
		s = "0X" + s
	case 3:
		s = "\"" + s + "\""
	case 4:
		s = "\"0x" + s + "\""
	}
	return s
}

func (g *gen) bytes() []byte {
	if len(g.bufs) > 0 && g.r.Intn(12) == 0 {
		b := g.bufs[g.r.Intn(len(g.bufs))]
		if len(b) > 0 {
			i := g.r.Intn(len(b))
			return b[i : i+g.r.Intn(len(b)-i+1)]
		}
	}
	var b []byte
	switch g.r.Intn(6) {
	case 0:
		if g.r.Intn(4) == 0 {
			return nil
		}
		b = []byte(g.str())
	case 1, 2:
		b = []byte(g.str())
	case 3:
		b = make([]byte, g.len())
	default:
		b = make([]byte, g.len())
		g.r.Read(b)
		if g.r.Intn(3) == 0 {
			k := g.r.Intn(len(b) + 1)
			for i := 0; i < k; i++ {
				b[i] = 0
			}
		}
	}
	if g.r.Intn(3) == 0 {
		c := make([]byte, len(b), len(b)+g.r.Intn(40))
		copy(c, b)
		b = c
	}
	g.bufs = append(g.bufs, b)
	return b
}

func (g *gen) uint(bits int) uint64 {
	m := ^uint64(0) >> (64 - bits)
	switch g.r.Intn(6) {
	case 0:
		return uint64(g.r.Intn(10))
	case 1:
		return uint64(g.r.Intn(300)) & m
	case 2:
		return m - uint64(g.r.Intn(3))
	case 3:
		return (uint64(1)<<uint(g.r.Intn(bits)) - uint64(g.r.Intn(2))) & m
	case 4:
		return (m >> 1) + uint64(g.r.Intn(3)) - 1
	}
	return g.r.Uint64() & m
}

func (g *gen) big() *big.Int {
	x := new(big.Int)
	switch g.r.Intn(6) {
	case 0:
		x.SetInt64(int64(g.r.Intn(20)))
	case 1:
		x.SetUint64(g.uint(64))
	case 2:
		x.Lsh(big.NewInt(1), uint(g.r.Intn(300)))
		x.Add(x, big.NewInt(int64(g.r.Intn(3)-1)))
	case 3:
		bs := []uint{63, 64, 128, 192, 255, 256, 257}
		x.Lsh(big.NewInt(1), bs[g.r.Intn(len(bs))])
		x.Add(x, big.NewInt(int64(g.r.Intn(3)-1)))
	default:
		b := make([]byte, g.r.Intn(40))
		g.r.Read(b)
		x.SetBytes(b)
	}
	if g.r.Intn(5) == 0 {
		x.Neg(x)
	}
	return x
}

var bigT = reflect.TypeOf(big.Int{})

func (g *gen) value(t reflect.Type, depth int) reflect.Value {
	v := reflect.New(t).Elem()
	g.fill(v, depth)
	return v
}

func (g *gen) fill(v reflect.Value, depth int) {
	if !v.CanSet() {
		v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	t := v.Type()
	if f := gens[t]; f != nil && t.Kind() != reflect.Interface {
		v.Set(reflect.ValueOf(f(g.r.Intn)))
		return
	}
	if t == bigT {
		v.Set(reflect.ValueOf(*g.big()))
		return
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(g.r.Intn(2) == 0)
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		bits := t.Bits()
		x := int64(g.uint(bits))
		switch g.r.Intn(4) {
		case 0, 1:
			x = int64(g.r.Intn(12))
		case 2:
			x = int64(g.len())
		}
		if g.r.Intn(5) == 0 {
			x = -x
		}
		v.SetInt(x << (64 - uint(bits)) >> (64 - uint(bits)))
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8, reflect.Uintptr:
		v.SetUint(g.uint(t.Bits()))
	case reflect.String:
		v.SetString(g.str())
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			v.Set(reflect.ValueOf(g.bytes()).Convert(t))
			return
		}
		if depth > 4 || g.r.Intn(10) == 0 {
			return
		}
		n := g.r.Intn(6)
		s := reflect.MakeSlice(t, n, n+g.r.Intn(3))
		for i := 0; i < n; i++ {
			g.fill(s.Index(i), depth+1)
		}
		v.Set(s)
	case reflect.Array:
		if t.Elem().Kind() == reflect.Uint8 && g.r.Intn(4) != 0 {
			if g.r.Intn(4) == 0 {
				return
			}
			b := make([]byte, t.Len())
			g.r.Read(b)
			for i := range b {
				v.Index(i).SetUint(uint64(b[i]))
			}
			return
		}
		for i := 0; i < t.Len(); i++ {
			g.fill(v.Index(i), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			g.fill(v.Field(i), depth+1)
		}
	case reflect.Ptr:
		if depth > 4 || g.r.Intn(12) == 0 {
			return
		}
		p := reflect.New(t.Elem())
		g.fill(p.Elem(), depth+1)
		v.Set(p)
	case reflect.Interface:
		if f := gens[t]; f != nil {
			if x := f(g.r.Intn); x != nil {
				v.Set(reflect.ValueOf(x))
			}
		} else if t == errT {
			if g.r.Intn(2) == 0 {
				v.Set(reflect.ValueOf(errors.New(g.str())))
			}
		} else if t.NumMethod() == 0 {
			switch g.r.Intn(6) {
			case 0:
				v.Set(reflect.ValueOf(g.str()))
			case 1:
				v.Set(reflect.ValueOf(g.bytes()))
			case 2:
				v.Set(reflect.ValueOf(g.r.Intn(100)))
			case 3:
				x := int32(g.r.Intn(100))
				if g.r.Intn(2) == 0 {
					x = int32(g.r.Uint32())
				}
				v.Set(reflect.ValueOf(x))
			case 4:
				v.Set(reflect.ValueOf(g.big()))
			}
		}
	}
}
