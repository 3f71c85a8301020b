package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// globalRef numbers package-level variables and makes sure that the
// initialiser of their package has been executed.
func (ex *Exec) globalRef(g *ssa.Global) int64 {
	if r, ok := ex.globals[g]; ok {
		return r
	}
	if ex.initDepth == 0 || ex.inited[g.Pkg] {
		ex.ensureInit(g.Pkg)
	}
	if r, ok := ex.globals[g]; ok {
		return r
	}
	ex.initCtr--
	r := ex.initCtr
	ex.globals[g] = r
	if ex.ld.mutable(g) {
		opaqueInitRefs[r] = true
	}
	return r
}

// mutable: the variable is assigned (or its address escapes into a store) outside package initialisation.
func (ld *Loaded) mutable(g *ssa.Global) bool {
	ld.ensurePkg(g.Pkg)
	if ld.mutMemo == nil {
		ld.mutMemo = map[*ssa.Package]map[*ssa.Global]bool{}
	}
	m, ok := ld.mutMemo[g.Pkg]
	if !ok {
		m = map[*ssa.Global]bool{}
		ld.mutMemo[g.Pkg] = m
		seen := map[*ssa.Function]bool{}
		var visit func(f *ssa.Function)
		visit = func(f *ssa.Function) {
			if f == nil || seen[f] {
				return
			}
			seen[f] = true
			for _, a := range f.AnonFuncs {
				visit(a)
			}
			if f.Synthetic == "package initializer" || f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
				return
			}
			pos := ld.fset.Position(f.Pos()).Filename
			if strings.Contains(pos, "zz_verif_") {
				return
			}
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if s, ok := ins.(*ssa.Store); ok {
						var a ssa.Value = s.Addr
						for {
							switch x := a.(type) {
							case *ssa.FieldAddr:
								a = x.X
								continue
							case *ssa.IndexAddr:
								a = x.X
								continue
							}
							break
						}
						if gg, ok := a.(*ssa.Global); ok {
							m[gg] = true
						}
					}
				}
			}
		}
		for _, mem := range g.Pkg.Members {
			switch x := mem.(type) {
			case *ssa.Function:
				visit(x)
			case *ssa.Type:
				for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
					ms := ld.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if _, isI := x.Type().Underlying().(*types.Interface); isI {
							continue
						}
						if fo, ok := ms.At(i).Obj().(*types.Func); ok && fo.Pkg() == g.Pkg.Pkg {
							visit(ld.prog.FuncValue(fo))
						}
					}
				}
			}
		}
	}
	return m[g]
}

func (ld *Loaded) ensurePkg(p *ssa.Package) {
	if !ld.built[p] {
		p.Build()
		ld.built[p] = true
	}
}

// ensureInit executes the initialiser of a package on the initial state.
func (ex *Exec) ensureInit(p *ssa.Package) {
	if ex.inited[p] {
		return
	}
	ex.inited[p] = true
	ex.ld.ensurePkg(p)
	path := p.Pkg.Path()
	if !strings.HasPrefix(path, "flychain") && !inlinePkgs[path] {
		// not executed: every variable is unknown
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				ex.initCtr--
				ex.globals[g] = ex.initCtr
				opaqueInitRefs[ex.initCtr] = true
			}
		}
		return
	}
	fn := p.Func("init")
	if fn == nil || len(fn.Blocks) < 2 {
		return
	}
	// own mode
	svRef, svCatch, svQuiet, svSpec, svInst := ex.refCtr, ex.catch, ex.quiet, ex.spec, ex.loopInst
	svObls := ex.obls
	ex.catch, ex.quiet, ex.spec = nil, ex.quiet+1, 1
	ex.initDepth++
	ex.inInit++
	defer func() {
		ex.refCtr, ex.catch, ex.quiet, ex.spec, ex.loopInst = svRef, svCatch, svQuiet, svSpec, svInst
		ex.obls = svObls
		ex.initDepth--
		ex.inInit--
	}()
	fr := &Frame{fn: fn, info: ex.info(fn), regs: map[ssa.Value]Value{}}
	st := initState
	st.ctx = NewCtx()
	// the body is a straight line after the guard
	b := fn.Blocks[1]
	if len(fn.Blocks[0].Succs) == 2 {
		for _, s := range fn.Blocks[0].Succs {
			if len(s.Instrs) > 1 {
				b = s
			}
		}
	}
	seenB := map[*ssa.BasicBlock]bool{}
	for b != nil && !seenB[b] {
		seenB[b] = true
		var next *ssa.BasicBlock
		for _, ins := range b.Instrs {
			if j, ok := ins.(*ssa.Jump); ok {
				next = j.Block().Succs[0]
				break
			}
			if c, ok := ins.(*ssa.Call); ok {
				if f := c.Common().StaticCallee(); f != nil && f.Name() == "init" && f.Synthetic == "package initializer" {
					continue
				}
			}
			ex.initInstr(fr, st, ins)
		}
		b = next
	}
}

func (ex *Exec) initInstr(fr *Frame, st *State, ins ssa.Instruction) {
	snap := map[string]*HNode{}
	for k, v := range st.heap {
		snap[k] = v
	}
	depth := ex.depth
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(unsupportedErr)
			if !ok {
				panic(r)
			}
			ex.depth = depth
			st.heap = snap
			st.ctx = NewCtx()
			if os.Getenv("GOVC_INIT") != "" {
				fmt.Fprintf(os.Stderr, "init %s: %s: %v\n", fr.fn, ins, u.msg)
			}
			if s, ok := ins.(*ssa.Store); ok {
				var a ssa.Value = s.Addr
				for {
					switch x := a.(type) {
					case *ssa.FieldAddr:
						a = x.X
						continue
					case *ssa.IndexAddr:
						a = x.X
						continue
					}
					break
				}
				if g, ok := a.(*ssa.Global); ok {
					opaqueInitRefs[ex.globalRef(g)] = true
				}
			}
			if c, ok := ins.(*ssa.Call); ok {
				ex.notes = append(ex.notes, fmt.Sprintf("initialiser %s not executed: %s", c.Common().Value, u.msg))
				if f := c.Common().StaticCallee(); f != nil && strings.HasPrefix(f.Name(), "init#") {
					// whatever it assigns is unknown
					for _, b := range f.Blocks {
						for _, i2 := range b.Instrs {
							if s, ok := i2.(*ssa.Store); ok {
								if g, ok := s.Addr.(*ssa.Global); ok {
									opaqueInitRefs[ex.globalRef(g)] = true
								}
							}
						}
					}
				}
			}
		}
	}()
	switch x := ins.(type) {
	case *ssa.Store:
		p := ex.get(fr, st, x.Addr).(PtrV)
		st.store(x.Val.Type(), p.ref, p.off, ex.get(fr, st, x.Val))
	case *ssa.MapUpdate:
		ex.mapUpdate(fr, st, x)
	case *ssa.DebugRef, *ssa.Return:
	case ssa.Value:
		n, v := ex.value(fr, st, x)
		if n == nil {
			unsupported("initialiser does not return")
		}
		if n != st {
			st.heap = n.heap
		}
		st.ctx = NewCtx()
		ex.set(fr, st, x, v)
	}
}
