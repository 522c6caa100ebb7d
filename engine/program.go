package main

// Loading the real code and compiling SSA functions to an indexed form.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoModule = "github.com/BTBurke/monny"

type Program struct {
	ssa       *ssa.Program
	fset      *token.FileSet
	pkgs      map[string]*ssa.Package
	infos     sync.Map // *ssa.Function -> *fnInfo
	models    map[string]*ssa.Function
	rtErr     types.Type
	modelPkgs map[string]bool
	sizes     types.Sizes
	methods   sync.Map // methKey -> *ssa.Function
}

func loadProgram(dir string, env []string, modfile string, overlay map[string][]byte, patterns []string, modelPkgs map[string]bool) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: env, Overlay: overlay, BuildFlags: []string{"-modfile=" + modfile}}
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if len(errs) < 10 {
				errs = append(errs, p.PkgPath+": "+e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors:\n%s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	pr := &Program{ssa: prog, fset: prog.Fset, pkgs: map[string]*ssa.Package{}, models: map[string]*ssa.Function{},
		modelPkgs: modelPkgs, sizes: types.SizesFor("gc", "amd64")}
	for _, p := range prog.AllPackages() {
		pr.pkgs[p.Pkg.Path()] = p
	}
	// model functions: a doc comment line "//sym:model <ssa name>" in a model
	// package replaces the named function
	packages.Visit(ps, nil, func(p *packages.Package) {
		if !modelPkgs[p.PkgPath] {
			return
		}
		sp := pr.pkgs[p.PkgPath]
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil || fd.Recv != nil {
					continue
				}
				for _, c := range fd.Doc.List {
					if n, ok := strings.CutPrefix(c.Text, "//sym:model "); ok {
						pr.models[strings.TrimSpace(n)] = sp.Func(fd.Name.Name)
					}
				}
			}
		}
	})
	if rt := pr.pkgs["runtime"]; rt != nil {
		if t := rt.Type("errorString"); t != nil {
			pr.rtErr = t.Type()
		}
	}
	if pr.rtErr == nil {
		return nil, fmt.Errorf("runtime.errorString not found")
	}
	return pr, nil
}

const (
	opReg = iota
	opConst
	opZero
	opGlobal
)

type opnd struct {
	k int
	r int
	v value
	t types.Type
	g *ssa.Global
}

type cins struct {
	in  ssa.Instruction
	dst int
	ops []opnd
	aux any
}

type cblock struct {
	code  []cins
	nphi  int
	cover uint32
}

type fnInfo struct {
	fn       *ssa.Function
	name     string
	nregs    int
	nparams  int
	blocks   []cblock
	native   func(g *G, fr *frame, args []value) value
	model    *fnInfo
	hasDefer bool
	repo     bool
	harness  bool
	pkg      string
	hits     int64
	ext      bool // no body
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (pr *Program) info(fn *ssa.Function) *fnInfo {
	if v, ok := pr.infos.Load(fn); ok {
		return v.(*fnInfo)
	}
	fi := pr.compile(fn)
	v, _ := pr.infos.LoadOrStore(fn, fi)
	return v.(*fnInfo)
}

func (pr *Program) compile(fn *ssa.Function) *fnInfo {
	fi := &fnInfo{fn: fn, name: fnName(fn)}
	if fn.Pkg != nil {
		fi.pkg = fn.Pkg.Pkg.Path()
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		fi.pkg = o.Pkg.Pkg.Path()
	}
	if strings.HasPrefix(fi.pkg, repoModule) {
		pos := pr.fset.Position(fn.Pos())
		if isHarnessPath(pos.Filename) {
			fi.harness = true
		} else {
			fi.repo = true
		}
	}
	if m, ok := pr.models[fi.name]; ok && m != fn {
		fi.model = pr.info(m)
		return fi
	}
	if nf, ok := intrinsics[fi.name]; ok {
		fi.native = nf
		return fi
	}
	if len(fn.Blocks) == 0 {
		fi.ext = true
		return fi
	}
	reg := map[ssa.Value]int{}
	n := 0
	for _, p := range fn.Params {
		reg[p] = n
		n++
	}
	fi.nparams = n
	for _, p := range fn.FreeVars {
		reg[p] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				reg[v] = n
				n++
			}
			if _, ok := in.(*ssa.Defer); ok {
				fi.hasDefer = true
			}
		}
	}
	fi.nregs = n
	mk := func(v ssa.Value) opnd {
		if v == nil {
			return opnd{k: opConst}
		}
		if r, ok := reg[v]; ok {
			return opnd{k: opReg, r: r}
		}
		switch v := v.(type) {
		case *ssa.Const:
			if v.Value == nil {
				switch v.Type().Underlying().(type) {
				case *types.Struct, *types.Array:
					return opnd{k: opZero, t: v.Type()}
				}
				if b, ok := v.Type().(*types.Basic); ok && b.Kind() == types.UntypedNil {
					return opnd{k: opConst, v: nil}
				}
				return opnd{k: opConst, v: zero(v.Type())}
			}
			return opnd{k: opConst, v: constVal(v)}
		case *ssa.Global:
			return opnd{k: opGlobal, g: v}
		case *ssa.Function:
			return opnd{k: opConst, v: v}
		case *ssa.Builtin:
			return opnd{k: opConst, v: v}
		}
		panic(fmt.Sprintf("operand %T in %s", v, fn))
	}
	fi.blocks = make([]cblock, len(fn.Blocks))
	var buf []*ssa.Value
	for _, b := range fn.Blocks {
		cb := &fi.blocks[b.Index]
		cb.code = make([]cins, len(b.Instrs))
		for i, in := range b.Instrs {
			c := &cb.code[i]
			c.in = in
			c.dst = -1
			if v, ok := in.(ssa.Value); ok {
				c.dst = reg[v]
			}
			if _, ok := in.(*ssa.Phi); ok {
				cb.nphi++
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			buf = in.Operands(buf[:0])
			c.ops = make([]opnd, len(buf))
			for j, o := range buf {
				c.ops[j] = mk(*o)
			}
			c.aux = pr.auxFor(in)
		}
	}
	return fi
}

type binAux struct {
	cls byte // i f s b c o
	k   ikind
	yk  ikind
	t   types.Type
}

func (pr *Program) auxFor(in ssa.Instruction) any {
	switch in := in.(type) {
	case *ssa.BinOp:
		a := binAux{cls: 'o', t: in.X.Type()}
		if b, ok := in.X.Type().Underlying().(*types.Basic); ok {
			switch {
			case b.Info()&types.IsInteger != 0:
				a.cls = 'i'
				a.k, _ = intKind(in.X.Type())
				a.yk, _ = intKind(in.Y.Type())
			case b.Info()&types.IsFloat != 0:
				a.cls = 'f'
				a.k.w = 64
				if b.Kind() == types.Float32 {
					a.k.w = 32
				}
			case b.Info()&types.IsString != 0:
				a.cls = 's'
			case b.Info()&types.IsBoolean != 0:
				a.cls = 'b'
			case b.Info()&types.IsComplex != 0:
				a.cls = 'c'
			}
		}
		return &a
	case *ssa.UnOp:
		a := binAux{cls: 'o', t: in.X.Type()}
		if b, ok := in.X.Type().Underlying().(*types.Basic); ok {
			switch {
			case b.Info()&types.IsInteger != 0:
				a.cls = 'i'
				a.k, _ = intKind(in.X.Type())
			case b.Info()&types.IsFloat != 0:
				a.cls = 'f'
			case b.Info()&types.IsBoolean != 0:
				a.cls = 'b'
			case b.Info()&types.IsComplex != 0:
				a.cls = 'c'
			}
		}
		if in.Op == token.MUL {
			a.t = in.Type()
		}
		return &a
	}
	return nil
}

func constVal(c *ssa.Const) value {
	t, ok := c.Type().Underlying().(*types.Basic)
	if !ok {
		panic(fmt.Sprintf("constVal %v", c))
	}
	switch {
	case t.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case t.Info()&types.IsInteger != 0:
		k := ikind{widthOf(t.Kind()), isSigned(t.Kind())}
		x := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(x); ok {
			return k.canon(uint64(i))
		}
		u, _ := constant.Uint64Val(x)
		return k.canon(u)
	case t.Info()&types.IsFloat != 0:
		f := c.Float64()
		if t.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return f
	case t.Info()&types.IsComplex != 0:
		return c.Complex128()
	case t.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		return string(rune(c.Int64()))
	case t.Kind() == types.UnsafePointer:
		return (*value)(nil)
	}
	panic(fmt.Sprintf("constVal %v", c))
}

type methKey struct {
	t    types.Type
	name string
	pkg  *types.Package
}

func (pr *Program) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m.Name(), nil}
	if !m.Exported() {
		k.pkg = m.Pkg()
	}
	if v, ok := pr.methods.Load(k); ok {
		return v.(*ssa.Function)
	}
	fn := pr.ssa.LookupMethod(t, m.Pkg(), m.Name())
	pr.methods.Store(k, fn)
	return fn
}

var _ = math.Inf
var _ = os.Stdout

// fromRepo reports whether fn belongs to the code under test (or a harness).
func fromRepo(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg == nil {
		return false
	}
	return strings.HasPrefix(fn.Pkg.Pkg.Path(), repoModule)
}
