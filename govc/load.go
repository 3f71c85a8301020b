package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Contract struct {
	id      string
	name    string
	props   []string
	fn      *ssa.Function
	target  *ssa.Function
	tname   string
	pkg     string
	flags   map[string]bool
	opts    map[string]string
	pos     string
	dropped bool
	lemma   bool
	modular bool
}

type loopSpec struct {
	unroll int
	cut    bool
	invs   []*invSpec
}

type invSpec struct {
	def    bool // equalities define the memory and variables they speak about
	fn     *ssa.Function
	target string
	name   string
	ord    int // -1: any loop
}

type specUF struct {
	name   string
	fn     *ssa.Function
	opaque bool // never unfolded: the body serves replays only
}

type Loaded struct {
	prog      *ssa.Program
	fset      *token.FileSet
	pkgs      map[string]*packages.Package
	spkgs     map[string]*ssa.Package
	contracts []*Contract
	specs     map[*ssa.Function]*specUF
	models    map[string]*ssa.Function
	imodels   map[string]*ssa.Function // by interface method
	modular   map[*ssa.Function]*Contract
	invs      []*invSpec
	unrolls   map[string]int
	cuts      map[string]bool
	missing   []string // contracts which do not compile against the current code
	overlay   map[string][]byte
	repo      string
	built     map[*ssa.Package]bool
	mutMemo   map[*ssa.Package]map[*ssa.Global]bool
}

type directive struct {
	kind string
	args []string
}

func parseDirectives(doc *ast.CommentGroup) []directive {
	if doc == nil {
		return nil
	}
	var r []directive
	for _, c := range doc.List {
		if strings.HasPrefix(c.Text, "//govc:") {
			f := strings.Fields(strings.TrimPrefix(c.Text, "//govc:"))
			r = append(r, directive{f[0], f[1:]})
		}
	}
	return r
}

// readOverlay maps contract files of contractDir onto the repository tree.
func readOverlay(contractDir, repo string, want map[string]bool) (map[string][]byte, []string, error) {
	ov := map[string][]byte{}
	dirs := map[string]bool{}
	err := filepath.Walk(contractDir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(contractDir, p)
		d := filepath.Dir(rel)
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		ov[filepath.Join(repo, rel)] = b
		if d == "internal/vspec" || want == nil || want[d] {
			dirs["./"+d] = true
		}
		return nil
	})
	var ds []string
	for d := range dirs {
		ds = append(ds, d)
	}
	sort.Strings(ds)
	return ov, ds, err
}

func Load(contractDir, repo string, want map[string]bool) (*Loaded, error) {
	if want != nil {
		closeUses(contractDir, want)
	}
	ov, dirs, err := readOverlay(contractDir, repo, want)
	if err != nil {
		return nil, err
	}
	// packages the verifier itself refers to
	dirs = append(dirs, "unicode/utf8", "fmt", "math/big", "reflect")
	var missing []string
	for try := 0; ; try++ {
		cfg := &packages.Config{
			Mode:    packages.LoadAllSyntax,
			Dir:     repo,
			Overlay: ov,
			Fset:    token.NewFileSet(),
			Env:     append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0"),
		}
		roots, err := packages.Load(cfg, dirs...)
		if err != nil {
			return nil, err
		}
		bad := map[string][]token.Position{}
		var other []string
		packages.Visit(roots, nil, func(p *packages.Package) {
			for _, e := range p.TypeErrors {
				pos := e.Fset.Position(e.Pos)
				if _, ok := ov[pos.Filename]; ok {
					if !e.Soft || true {
						bad[pos.Filename] = append(bad[pos.Filename], pos)
						if os_debug {
							fmt.Fprintln(os.Stderr, "contract does not compile:", e)
						}
					}
				} else if strings.HasPrefix(pos.Filename, repo) {
					other = append(other, e.Error())
				}
			}
			for _, e := range p.Errors {
				if e.Kind == packages.ParseError || e.Kind == packages.ListError {
					other = append(other, e.Error())
				}
			}
		})
		if len(bad) > 0 && try < 6 {
			for f, ps := range bad {
				src, dropped := dropDecls(f, ov[f], ps)
				if dropped == nil {
					return nil, fmt.Errorf("contract file %s: %v", f, ps)
				}
				ov[f] = src
				missing = append(missing, dropped...)
			}
			continue
		}
		if len(other) > 0 {
			return nil, fmt.Errorf("the code does not type-check: %s", strings.Join(other, "; "))
		}
		return build(cfg.Fset, roots, ov, repo, missing)
	}
}

// dropDecls blanks the top-level declarations containing the given positions.
func dropDecls(name string, src []byte, ps []token.Position) ([]byte, []string) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, name, src, parser.ParseComments)
	if err != nil {
		return nil, nil
	}
	out := append([]byte(nil), src...)
	var names []string
	hit := false
	for _, d := range f.Decls {
		a, b := fs.Position(d.Pos()), fs.Position(d.End())
		start := a.Offset
		fd, _ := d.(*ast.FuncDecl)
		if fd != nil && fd.Doc != nil {
			start = fs.Position(fd.Doc.Pos()).Offset
		}
		gd, _ := d.(*ast.GenDecl)
		for _, p := range ps {
			if p.Offset >= start && p.Offset <= b.Offset {
				if gd != nil && gd.Tok == token.IMPORT {
					// unused import: keep it used
					for _, s := range gd.Specs {
						is := s.(*ast.ImportSpec)
						q := fs.Position(is.Pos())
						if q.Line == p.Line {
							e := fs.Position(is.End())
							copy(out[q.Offset:e.Offset], []byte(strings.Repeat(" ", e.Offset-q.Offset)))
							hit = true
						}
					}
					break
				}
				for i := start; i < b.Offset; i++ {
					if out[i] != '\n' {
						out[i] = ' '
					}
				}
				hit = true
				if fd != nil {
					n := fd.Name.Name
					for _, dir := range parseDirectives(fd.Doc) {
						n += " //govc:" + dir.kind + " " + strings.Join(dir.args, " ")
					}
					names = append(names, n)
				}
				break
			}
		}
	}
	if !hit {
		return nil, nil
	}
	if names == nil {
		names = []string{}
	}
	return out, names
}

func build(fset *token.FileSet, roots []*packages.Package, ov map[string][]byte, repo string, missing []string) (*Loaded, error) {
	ld := &Loaded{fset: fset, pkgs: map[string]*packages.Package{}, spkgs: map[string]*ssa.Package{}, specs: map[*ssa.Function]*specUF{},
		models: map[string]*ssa.Function{}, imodels: map[string]*ssa.Function{}, modular: map[*ssa.Function]*Contract{}, unrolls: map[string]int{}, cuts: map[string]bool{}, missing: missing, overlay: ov, repo: repo, built: map[*ssa.Package]bool{}}
	prog, _ := ssautil.AllPackages(roots, ssa.InstantiateGenerics|ssa.GlobalDebug|ssa.BuildSerially)
	ld.prog = prog
	packages.Visit(roots, nil, func(p *packages.Package) {
		ld.pkgs[p.PkgPath] = p
		if sp := prog.Package(p.Types); sp != nil {
			ld.spkgs[p.PkgPath] = sp
		}
	})
	for path, p := range ld.spkgs {
		if strings.HasPrefix(path, "flychain") {
			p.Build()
			ld.built[p] = true
		}
	}
	if bp := ld.pkgs["math/big"]; bp != nil {
		bigIntNamed = bp.Types.Scope().Lookup("Int").Type()
		bigIntUnder = bigIntNamed.Underlying()
	}
	var all []*packages.Package
	packages.Visit(roots, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, "flychain") {
			all = append(all, p)
		}
	})
	sort.Slice(all, func(i, j int) bool { return all[i].PkgPath < all[j].PkgPath })
	for _, p := range all {
		sp := ld.spkgs[p.PkgPath]
		for i, f := range p.Syntax {
			name := p.CompiledGoFiles[i]
			_ = name
			fname := fset.Position(f.Pos()).Filename
			if _, ok := ov[fname]; !ok {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				for _, dir := range parseDirectives(fd.Doc) {
					if err := ld.directive(p, sp, fd, dir, fname); err != nil {
						ld.missing = append(ld.missing, fd.Name.Name+" //govc:"+dir.kind+" "+strings.Join(dir.args, " ")+" ("+err.Error()+")")
					}
				}
			}
		}
	}
	return ld, nil
}

func (ld *Loaded) directive(p *packages.Package, sp *ssa.Package, fd *ast.FuncDecl, dir directive, fname string) error {
	fn := sp.Func(fd.Name.Name)
	if fn == nil {
		return fmt.Errorf("no function")
	}
	rel := strings.TrimPrefix(p.PkgPath, "flychain/")
	switch dir.kind {
	case "contract", "lemma":
		c := &Contract{fn: fn, name: fd.Name.Name, id: rel + "." + fd.Name.Name, flags: map[string]bool{}, opts: map[string]string{}, pkg: p.PkgPath, pos: fname, lemma: dir.kind == "lemma"}
		args := dir.args
		if !c.lemma {
			c.tname = args[0]
			t, err := ld.resolve(p.PkgPath, args[0])
			if err != nil {
				return err
			}
			c.target = t
			args = args[1:]
			c.id = rel + "." + c.tname
		} else {
			c.id = rel + "." + strings.TrimPrefix(fd.Name.Name, "verif_")
		}
		for _, a := range args {
			if strings.HasPrefix(a, "prop=") {
				c.props = strings.Split(a[5:], ",")
			} else if k, v, ok := strings.Cut(a, "="); ok {
				c.opts[k] = v
			} else {
				c.flags[a] = true
			}
		}
		c.modular = c.flags["modular"]
		if c.modular {
			ld.modular[c.target] = c
		}
		if c.opts["name"] != "" {
			c.id = rel + "." + c.opts["name"]
		}
		ld.contracts = append(ld.contracts, c)
	case "inv":
		t, ord := dir.args[0], -1
		if k, v, ok := strings.Cut(t, "#"); ok {
			t = k
			fmt.Sscan(v, &ord)
		}
		f, err := ld.resolve(p.PkgPath, t)
		if err != nil {
			// the function is gone, and its loops with it
			return nil
		}
		ld.invs = append(ld.invs, &invSpec{fn: fn, target: f.String(), name: fd.Name.Name, ord: ord, def: len(dir.args) > 1 && dir.args[1] == "def"})
	case "spec":
		ld.specs[fn] = &specUF{name: "spec." + fn.String(), fn: fn, opaque: len(dir.args) > 0 && dir.args[0] == "opaque"}
	case "model":
		f, err := ld.resolve(p.PkgPath, dir.args[0])
		if err != nil {
			return err
		}
		ld.models[funcKey(f)] = fn
	case "imodel": // Iface.Method: the behaviour of implementations that are not known
		ipkg, name := p.PkgPath, dir.args[0]
		if a, b, ok := strings.Cut(name, ":"); ok {
			ipkg, name = a, b
		}
		tn, mn, _ := strings.Cut(name, ".")
		ld.imodels["("+ipkg+"."+tn+")."+mn] = fn
	case "unroll":
		f, err := ld.resolve(p.PkgPath, dir.args[0])
		if err != nil {
			return err
		}
		n := 300
		if len(dir.args) > 1 {
			fmt.Sscan(dir.args[1], &n)
		}
		ld.unrolls[f.String()] = n
	case "cut":
		target, ord := dir.args[0], ""
		if i := strings.LastIndex(target, "#"); i >= 0 {
			target, ord = target[:i], target[i:]
		}
		f, err := ld.resolve(p.PkgPath, target)
		if err != nil {
			return err
		}
		ld.cuts[f.String()+ord] = true
	case "gen":
	default:
		return fmt.Errorf("unknown directive")
	}
	return nil
}

// resolve finds a function: Name, Type.Method, or either with an import path prefix "path:".
func (ld *Loaded) resolve(pkg, name string) (*ssa.Function, error) {
	if p, n, ok := strings.Cut(name, ":"); ok {
		pkg, name = p, n
	}
	sp := ld.spkgs[pkg]
	if sp == nil {
		return nil, fmt.Errorf("package %s not loaded", pkg)
	}
	if !ld.built[sp] {
		sp.Build()
		ld.built[sp] = true
	}
	// closures: Name$1
	base, anon, isAnon := strings.Cut(name, "$")
	var fn *ssa.Function
	if tn, mn, ok := strings.Cut(base, "."); ok {
		o := sp.Pkg.Scope().Lookup(tn)
		if o == nil {
			return nil, fmt.Errorf("no type %s", tn)
		}
		var t types.Type = o.Type()
		if named, ok := t.(*types.Named); ok && named.TypeParams().Len() > 0 {
			args := make([]types.Type, named.TypeParams().Len())
			for i := range args {
				args[i] = types.Typ[types.Int]
			}
			inst, err := types.Instantiate(nil, named, args, false)
			if err != nil {
				return nil, err
			}
			t = inst
		}
		ms := types.NewMethodSet(types.NewPointer(t))
		sel := ms.Lookup(sp.Pkg, mn)
		if sel == nil {
			return nil, fmt.Errorf("no method %s.%s", tn, mn)
		}
		f := sel.Obj().(*types.Func)
		fn = ld.prog.FuncValue(f)
		if fn == nil {
			fn = ld.prog.MethodValue(sel)
		}
	} else {
		fn = sp.Func(base)
	}
	if fn == nil {
		return nil, fmt.Errorf("no function %s", name)
	}
	if isAnon {
		var k int
		fmt.Sscan(anon, &k)
		if k < 1 || k > len(fn.AnonFuncs) {
			return nil, fmt.Errorf("no closure %s", name)
		}
		fn = fn.AnonFuncs[k-1]
	}
	return fn, nil
}

func (ld *Loaded) lookup(pkg, name string) *ssa.Function {
	f, err := ld.resolve(pkg, name)
	if err != nil {
		unsupported("%s.%s: %v", pkg, name, err)
	}
	return f
}

func (ld *Loaded) typeOf(pkg, name string) types.Type {
	p := ld.pkgs[pkg]
	if p == nil {
		unsupported("package %s not loaded", pkg)
	}
	o := p.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

// ensureBuilt makes the body of fn available.
func (ld *Loaded) ensureBuilt(fn *ssa.Function) {
	p := fn.Package()
	if p == nil && fn.Origin() != nil {
		p = fn.Origin().Package()
	}
	if p != nil && !ld.built[p] {
		p.Build()
		ld.built[p] = true
	}
}
