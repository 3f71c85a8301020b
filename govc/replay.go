package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// ---------- model evaluation ----------

type evaluator struct {
	m    map[*Term]*big.Int
	tab  map[string]map[string]*big.Int
	memo map[*Term]*big.Int
}

func newEvaluator(m map[*Term]*big.Int) *evaluator {
	e := &evaluator{m: m, tab: map[string]map[string]*big.Int{}, memo: map[*Term]*big.Int{}}
	var ts []*Term
	for t := range m {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	for _, t := range ts {
		if t.op == OApp {
			k := e.argKey(t.args)
			if e.tab[t.name] == nil {
				e.tab[t.name] = map[string]*big.Int{}
			}
			e.tab[t.name][k] = m[t]
		}
	}
	return e
}

func (e *evaluator) argKey(as []*Term) string {
	var s []string
	for _, a := range as {
		s = append(s, e.eval(a).String())
	}
	return strings.Join(s, ",")
}

func defaultOf(t *Term) *big.Int {
	if t.lo != nil && t.lo.Sign() > 0 {
		return t.lo
	}
	if t.hi != nil && t.hi.Sign() < 0 {
		return t.hi
	}
	return bi0
}

func b2i(b bool) *big.Int {
	if b {
		return bi1
	}
	return bi0
}

func (e *evaluator) eval(t *Term) *big.Int {
	if v, ok := e.m[t]; ok {
		return v
	}
	if v, ok := e.memo[t]; ok {
		return v
	}
	var r *big.Int
	switch t.op {
	case OConst:
		return t.k
	case OTrue:
		return bi1
	case OFalse:
		return bi0
	case OVar:
		r = defaultOf(t)
	case OApp:
		if v, ok := e.tab[t.name][e.argKey(t.args)]; ok {
			r = v
		} else {
			r = defaultOf(t)
		}
	case OLin:
		r = new(big.Int).Set(t.k)
		for i, a := range t.args {
			r.Add(r, new(big.Int).Mul(t.coef[i], e.eval(a)))
		}
	case OMul:
		r = new(big.Int).Set(bi1)
		for _, a := range t.args {
			r.Mul(r, e.eval(a))
		}
	case ODiv:
		d := e.eval(t.args[1])
		if d.Sign() <= 0 {
			r = bi0
		} else {
			r = floorDiv(e.eval(t.args[0]), d)
		}
	case OMod:
		d := e.eval(t.args[1])
		if d.Sign() <= 0 {
			r = bi0
		} else {
			r = new(big.Int).Mod(e.eval(t.args[0]), d)
		}
	case OXor:
		r = new(big.Int)
		for _, a := range t.args {
			r.Xor(r, e.eval(a))
		}
	case OBand:
		r = new(big.Int).Set(e.eval(t.args[0]))
		for _, a := range t.args {
			r.And(r, e.eval(a))
		}
	case OIte:
		if e.eval(t.args[0]).Sign() != 0 {
			r = e.eval(t.args[1])
		} else {
			r = e.eval(t.args[2])
		}
	case OEq:
		r = b2i(e.eval(t.args[0]).Sign() == 0)
	case OLe:
		r = b2i(e.eval(t.args[0]).Sign() <= 0)
	case ONot:
		r = b2i(e.eval(t.args[0]).Sign() == 0)
	case OAnd:
		r = bi1
		for _, a := range t.args {
			if e.eval(a).Sign() == 0 {
				r = bi0
			}
		}
	case OOr:
		r = bi0
		for _, a := range t.args {
			if e.eval(a).Sign() != 0 {
				r = bi1
			}
		}
	default:
		r = bi0
	}
	e.memo[t] = r
	return r
}

func (e *evaluator) cell(key string, ref, off *big.Int) *big.Int {
	if v, ok := e.tab[key][ref.String()+","+off.String()]; ok {
		return v
	}
	return bi0
}

// ---------- Go source for a model ----------

type emitter struct {
	e       *evaluator
	pkg     *types.Package
	imports map[string]string
	pre     bytes.Buffer
	bufs    map[string]*bufInfo
	types   []types.Type
	n       int
}

type bufInfo struct {
	name   string
	lo, hi int64
}

type cannot string

func (em *emitter) fail(s string) { panic(cannot(s)) }

func (em *emitter) tname(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		if p == em.pkg {
			return ""
		}
		em.imports[p.Path()] = p.Name()
		return p.Name()
	})
}

const emitLimit = 1 << 20

func (em *emitter) str(v []*big.Int) string {
	sid, off, n := v[0], v[1], v[2]
	if !n.IsInt64() || n.Int64() > emitLimit {
		em.fail("string too long")
	}
	if q, ok := seqs[sid.Int64()]; ok && sid.IsInt64() {
		b := make([]byte, n.Int64())
		for i := range b {
			b[i] = byte(em.e.eval(q.at(Num(new(big.Int).Add(off, big.NewInt(int64(i)))))).Int64())
		}
		return strconv.Quote(string(b))
	}
	b := make([]byte, n.Int64())
	for i := range b {
		b[i] = byte(em.e.cell("sb", sid, new(big.Int).Add(off, big.NewInt(int64(i)))).Int64())
	}
	return strconv.Quote(string(b))
}

// leaf values of a type read from memory
func (em *emitter) readLeaves(t types.Type, ref, off *big.Int) []*big.Int {
	var r []*big.Int
	for _, k := range leafKeys(t) {
		r = append(r, em.e.cell(k, ref, off))
	}
	return r
}

func (em *emitter) val(t types.Type, next func(t types.Type) []*big.Int, depth int) string {
	if depth > 6 {
		em.fail("too deep")
	}
	if isBigInt(t) {
		v := next(t)[0]
		em.imports["math/big"] = "big"
		return fmt.Sprintf("*vspecBig(%q)", v.String())
	}
	if k := opaqueLeaf(t); k != "" {
		next(t)
		return em.tname(t) + "{}"
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		v := next(t)
		switch {
		case u.Info()&types.IsString != 0:
			return fmt.Sprintf("%s(%s)", em.tname(t), em.str(v))
		case u.Info()&types.IsBoolean != 0:
			return fmt.Sprintf("%s(%v)", em.tname(t), v[0].Sign() != 0)
		case u.Info()&types.IsInteger != 0:
			return fmt.Sprintf("%s(%s)", em.tname(t), v[0])
		}
		em.fail("type " + t.String())
	case *types.Pointer:
		v := next(t)
		if v[0].Sign() == 0 {
			return fmt.Sprintf("(%s)(nil)", em.tname(t))
		}
		em.n++
		name := fmt.Sprintf("v%d", em.n)
		off := new(big.Int).Set(v[1])
		inner := em.val(u.Elem(), em.memReader(v[0], off), depth+1)
		fmt.Fprintf(&em.pre, "\t%s := %s\n", name, inner)
		return "&" + name
	case *types.Slice:
		v := next(t)
		if v[0].Sign() == 0 {
			return fmt.Sprintf("%s(nil)", em.tname(t))
		}
		n, c, off := v[2], v[3], v[1]
		if !c.IsInt64() || c.Int64() > emitLimit {
			if n.IsInt64() && n.Int64() <= emitLimit {
				c = n
			} else {
				em.fail("slice too long")
			}
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			key := v[0].String()
			o := off.Int64()
			bi := em.bufs[key]
			if bi == nil {
				em.n++
				bi = &bufInfo{name: fmt.Sprintf("buf%d", em.n), lo: o, hi: o + c.Int64()}
				em.bufs[key] = bi
				em.emitBuf(bi, v[0])
			} else if o < bi.lo || o+c.Int64() > bi.hi {
				em.fail("overlapping slices")
			}
			a := o - bi.lo
			return fmt.Sprintf("%s(%s[%d:%d:%d])", em.tname(t), bi.name, a, a+n.Int64(), a+c.Int64())
		}
		if n.Int64() > 4096 {
			em.fail("slice too long")
		}
		sz := slots(u.Elem())
		var es []string
		for i := int64(0); i < n.Int64(); i++ {
			es = append(es, em.val(u.Elem(), em.memReader(v[0], new(big.Int).Add(off, big.NewInt(i*sz))), depth+1))
		}
		return fmt.Sprintf("%s{%s}", em.tname(t), strings.Join(es, ", "))
	case *types.Array:
		var es []string
		for i := int64(0); i < u.Len(); i++ {
			es = append(es, em.val(u.Elem(), next, depth+1))
		}
		return fmt.Sprintf("%s{%s}", em.tname(t), strings.Join(es, ", "))
	case *types.Struct:
		var es []string
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			s := em.val(f.Type(), next, depth+1)
			if !f.Exported() && f.Pkg() != em.pkg {
				continue
			}
			es = append(es, f.Name()+": "+s)
		}
		return fmt.Sprintf("%s{%s}", em.tname(t), strings.Join(es, ", "))
	case *types.Interface:
		v := next(t)
		k := v[0].Int64()
		if k == 0 {
			return fmt.Sprintf("(%s)(nil)", em.tname(t))
		}
		if k < 0 || int(k) >= len(em.types) {
			return "struct{ Unknown int }{1}"
		}
		dt := em.types[k]
		return em.val(dt, em.memReader(v[1], new(big.Int)), depth+1)
	case *types.Signature, *types.Map, *types.Chan:
		next(t)
		return fmt.Sprintf("(%s)(nil)", em.tname(t))
	}
	em.fail("type " + t.String())
	return ""
}

func (em *emitter) memReader(ref, off *big.Int) func(t types.Type) []*big.Int {
	o := new(big.Int).Set(off)
	return func(t types.Type) []*big.Int {
		r := em.readLeaves(t, ref, o)
		o = new(big.Int).Add(o, bi1)
		return r
	}
}

func (em *emitter) emitBuf(bi *bufInfo, ref *big.Int) {
	fmt.Fprintf(&em.pre, "\t%s := make([]byte, %d)\n", bi.name, bi.hi-bi.lo)
	var ks []string
	for k := range em.e.tab["uint8"] {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		p := strings.Split(k, ",")
		if len(p) != 2 || p[0] != ref.String() {
			continue
		}
		o, ok := new(big.Int).SetString(p[1], 10)
		if !ok || !o.IsInt64() || o.Int64() < bi.lo || o.Int64() >= bi.hi {
			continue
		}
		if v := em.e.tab["uint8"][k]; v.Sign() != 0 {
			fmt.Fprintf(&em.pre, "\t%s[%d] = %s\n", bi.name, o.Int64()-bi.lo, v)
		}
	}
}

func (em *emitter) args(res *ContractResult) (out []string, err error) {
	defer func() {
		if r := recover(); r != nil {
			if c, ok := r.(cannot); ok {
				err = fmt.Errorf("%s", string(c))
				return
			}
			err = fmt.Errorf("%v", r)
		}
	}()
	for i, p := range res.c.fn.Params {
		cs := comps(res.params[i])
		next := func(t types.Type) []*big.Int {
			ks := leafKeys(t)
			var r []*big.Int
			for j := range ks {
				r = append(r, em.e.eval(cs[j]))
			}
			cs = cs[len(ks):]
			return r
		}
		out = append(out, em.val(p.Type(), next, 0))
	}
	return out, nil
}

// ---------- replay ----------

// smallModel asks again for a counterexample with short inputs.
func smallModel(res *ContractResult, o *Obl) map[*Term]*big.Int {
	best := o.res.model
	var lens []*Term
	for i, p := range res.c.fn.Params {
		cs := comps(res.params[i])
		for j, k := range leafKeysFlat(p.Type()) {
			if k == "str.n" || k == "sl.n" || k == "sl.c" {
				lens = append(lens, cs[j])
			}
		}
	}
	if len(lens) == 0 {
		return best
	}
	for _, lim := range []int64{40, 300, 5000} {
		ctx := o.ctx
		for _, l := range lens {
			ctx = ctx.Assume(Le(l, I(lim)))
		}
		if ctx.dead {
			continue
		}
		q, triv := BuildQuery(ctx.Facts(), ctx.Simp(o.goal), o.hints, 3)
		if triv {
			continue
		}
		if r := q.Solve(8*time.Second, true); r.status == "sat" {
			return r.model
		}
	}
	return best
}

func (ck *checker) replay(c *Contract, fl []failure, repo, out string, nrep int) (bool, string) {
	var sb strings.Builder
	pkg := c.fn.Package().Pkg
	base := map[string]string{"testing": "testing", "time": "time", "fmt": "fmt", vspecPath: "vspec", "math/big": "big"}
	imports := base
	var body bytes.Buffer
	nm := 0
	for _, f := range fl {
		if f.o == nil || f.o.res.model == nil || nm >= 4 {
			continue
		}
		m := smallModel(f.res, f.o)
		em := &emitter{e: newEvaluator(m), pkg: pkg, imports: map[string]string{}, bufs: map[string]*bufInfo{}, types: ck.typeList}
		args, err := em.args(f.res)
		if err != nil {
			fmt.Fprintf(&sb, "counterexample of %q cannot be made concrete: %v\n", f.o.name, err)
			continue
		}
		nm++
		if nm == 1 {
			imports = map[string]string{}
			for k, v := range base {
				imports[k] = v
			}
		}
		for k, v := range em.imports {
			imports[k] = v
		}
		fmt.Fprintf(&body, "\tfunc() {\n\t%s\n\tif m := vspec.RunF(func() { %s(%s) }); m != \"\" { fmt.Printf(\"REPLAY-FAIL model %d: %%s\\n\", m) }\n\t}()\n", em.pre.String(), c.fn.Name(), strings.Join(args, ", "), nm)
	}
	secs := 12
	if ck.tier == "thorough" {
		secs = 60
	}
	dict := ck.dictionary(c)
	var qd []string
	for _, d := range dict {
		qd = append(qd, strconv.Quote(d))
	}
	search := fmt.Sprintf("\tif m, in, n := vspec.Search(%s, %d, %d*time.Second, []string{%s}, %v); m != \"\" { fmt.Printf(\"REPLAY-FAIL search: %%s on (%%s)\\n\", m, in) } else { fmt.Println(\"SEARCH-PASS\", n) }\n", c.fn.Name(), ck.seed, secs, strings.Join(qd, ", "), !c.flags["noframe"] && !c.lemma)
	source := func(imports map[string]string, body string) []byte {
		var src bytes.Buffer
		fmt.Fprintf(&src, "package %s\n\nimport (\n", pkg.Name())
		var ips []string
		for p := range imports {
			ips = append(ips, p)
		}
		sort.Strings(ips)
		for _, p := range ips {
			fmt.Fprintf(&src, "\t%q\n", p)
		}
		fmt.Fprintf(&src, ")\n\nfunc vspecBig(s string) *big.Int { x, _ := new(big.Int).SetString(s, 10); return x }\n\nfunc TestVerifReplay(t *testing.T) {\n%s}\n", body)
		return src.Bytes()
	}
	dir := filepath.Join(out, "replay", fmt.Sprintf("%s_%d", ck.prop, nrep))
	os.MkdirAll(dir, 0o755)
	tf := filepath.Join(dir, "zz_verif_replay_test.go")
	os.WriteFile(tf, source(imports, body.String()+search), 0o644)
	rel := strings.TrimPrefix(c.pkg, "flychain/")
	rep := map[string]string{filepath.Join(repo, rel, "zz_verif_replay_test.go"): tf}
	i := 0
	for p, b := range ck.ld.overlay {
		i++
		of := filepath.Join(dir, fmt.Sprintf("ov%d_%s", i, filepath.Base(p)))
		os.WriteFile(of, b, 0o644)
		rep[p] = of
	}
	// the package's own tests are not needed
	if ms, _ := filepath.Glob(filepath.Join(repo, rel, "*_test.go")); ms != nil {
		for _, m := range ms {
			rep[m] = ""
		}
	}
	ob, _ := json.MarshalIndent(map[string]interface{}{"Replace": rep}, "", " ")
	of := filepath.Join(dir, "overlay.json")
	os.WriteFile(of, ob, 0o644)
	argv := []string{"test", "-overlay", of, "-run", "TestVerifReplay", "-count=1", "-timeout", fmt.Sprintf("%ds", secs+40), "./" + rel}
	run := func() string {
		ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs+90)*time.Second)
		defer cancel()
		cmd := exec.CommandContext(ctx, "go", append(argv[:1:1], append([]string{"-v"}, argv[1:]...)...)...)
		cmd.Dir = repo
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GOMEMLIMIT=4GiB")
		var o bytes.Buffer
		cmd.Stdout = &o
		cmd.Stderr = &o
		cmd.Run()
		return o.String()
	}
	text := run()
	if nm > 0 && (strings.Contains(text, "[build failed]") || strings.Contains(text, "[setup failed]")) {
		// a counterexample that is not expressible as source: search only
		os.WriteFile(tf, source(base, search), 0o644)
		text = run()
	}
	fmt.Fprintf(&sb, "replay against the real code: cd %s && go test -overlay %s -run TestVerifReplay -v ./%s\n", repo, of, rel)
	ok := false
	for _, l := range strings.Split(text, "\n") {
		if strings.Contains(l, "REPLAY-FAIL") || strings.Contains(l, "SEARCH-PASS") {
			fmt.Fprintln(&sb, "  "+trunc(l, 3000))
			if strings.Contains(l, "REPLAY-FAIL") {
				ok = true
			}
		}
	}
	if !strings.Contains(text, "REPLAY-FAIL") && !strings.Contains(text, "SEARCH-PASS") {
		if strings.Contains(text, "fatal error:") || strings.Contains(text, "test timed out") {
			fmt.Fprintf(&sb, "  the replayed code crashed or did not terminate\n")
		}
		fmt.Fprintf(&sb, "  output: %s\n", trunc(text, 3000))
	}
	return ok, sb.String()
}

// dictionary: string literals of the contract and of the target's package.
func (ck *checker) dictionary(c *Contract) []string {
	p := ck.ld.pkgs[c.pkg]
	if p == nil {
		return nil
	}
	seen := map[string]bool{}
	var r []string
	for _, f := range p.Syntax {
		ast.Inspect(f, func(n ast.Node) bool {
			if _, ok := n.(*ast.ImportSpec); ok {
				return false
			}
			if l, ok := n.(*ast.BasicLit); ok && l.Kind == token.STRING && len(r) < 60 {
				if s, err := strconv.Unquote(l.Value); err == nil && len(s) > 0 && len(s) < 40 && !seen[s] {
					seen[s] = true
					r = append(r, s)
				}
			}
			return true
		})
	}
	return r
}
