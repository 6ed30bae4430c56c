package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/alexZaicev/go-vtd-xml"

type Verifier struct {
	prog      *ssa.Program
	fset      *token.FileSet
	spec      *Spec
	pkgs      map[string]*ssa.Package
	typeByKey map[string]types.Type
	tags      map[string]int
	tagT      []types.Type
	wmemo     map[*ssa.Function]map[string]*Sort
	wbusy     map[*ssa.Function]bool
	funcs     map[string]*ssa.Function
	anon      []*ssa.Function
	lines     map[string]int
}

func loadVerifier(repo string, sp *Spec) (*Verifier, error) {
	fset := token.NewFileSet()
	conf := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Fset: fset}
	ps, err := packages.Load(conf, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%v", e)
		}
	}
	prog, spkgs := ssautil.Packages(ps, ssa.InstantiateGenerics|ssa.GlobalDebug)
	v := &Verifier{prog: prog, fset: fset, spec: sp, pkgs: map[string]*ssa.Package{}, typeByKey: map[string]types.Type{},
		tags: map[string]int{}, wmemo: map[*ssa.Function]map[string]*Sort{}, wbusy: map[*ssa.Function]bool{}, funcs: map[string]*ssa.Function{}, lines: map[string]int{}}
	for _, p := range spkgs {
		if p == nil {
			continue
		}
		p.Build()
		v.pkgs[p.Pkg.Name()] = p
	}
	for _, p := range prog.AllPackages() {
		n := p.Pkg.Name()
		if p.Pkg.Path() == n && v.pkgs[n] == nil && (n == "bytes" || n == "unicode") {
			v.pkgs[n] = p
		}
	}
	for _, p := range spkgs {
		if p == nil {
			continue
		}
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Function:
				v.addFn(m)
			case *ssa.Type:
				T := m.Type()
				v.noteType(T)
				v.noteType(types.NewPointer(T))
				for _, MT := range []types.Type{T, types.NewPointer(T)} {
					ms := prog.MethodSets.MethodSet(MT)
					for i := 0; i < ms.Len(); i++ {
						f := prog.MethodValue(ms.At(i))
						if f != nil && f.Synthetic == "" {
							v.addFn(f)
						}
					}
				}
			}
		}
	}
	return v, nil
}

func (v *Verifier) addFn(f *ssa.Function) {
	n := v.fnName(f)
	if v.funcs[n] == f {
		return
	}
	v.funcs[n] = f
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		for _, a := range f.AnonFuncs {
			v.anon = append(v.anon, a)
			v.funcs[v.fnName(a)] = a
			rec(a)
		}
	}
	rec(f)
}

func (v *Verifier) noteType(T types.Type) { v.typeByKey[typeKey(T)] = T }

func (v *Verifier) fnName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	if f.Parent() != nil {
		n := f.Name()
		p := v.fnName(f.Parent())
		if i := strings.LastIndex(n, "$"); i >= 0 {
			return p + n[i:]
		}
		return p + "$" + n
	}
	pk := ""
	if f.Pkg != nil {
		pk = f.Pkg.Pkg.Name()
	}
	if r := f.Signature.Recv(); r != nil {
		T := r.Type()
		if p, ok := T.(*types.Pointer); ok {
			T = p.Elem()
		}
		if n, ok := T.(*types.Named); ok {
			return pk + "." + n.Obj().Name() + "." + f.Name()
		}
	}
	return pk + "." + f.Name()
}

func (v *Verifier) inModule(f *ssa.Function) bool {
	return f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), modPath)
}

func (v *Verifier) contractOf(f *ssa.Function) (*Contract, string) {
	k := v.fnName(f)
	if c, ok := v.spec.Contracts[k]; ok && c.Kind == "func" {
		return c, k
	}
	if r := f.Signature.Recv(); r != nil && f.Parent() == nil {
		if im := v.implOf(r.Type()); im != nil {
			k := im.Pkg + "." + im.Iface + "." + f.Name()
			if c, ok := v.spec.Contracts[k]; ok && c.Kind == "iface" {
				return c, k
			}
		}
	}
	if f.Parent() != nil {
		if c, k := v.functypeOf(f); c != nil {
			return c, k
		}
	}
	return nil, ""
}

// functypeOf: an anonymous function converted to a named function type with a contract
func (v *Verifier) functypeOf(f *ssa.Function) (*Contract, string) {
	if f.Parent() == nil || f.Parent().Signature.Results().Len() != 1 {
		return nil, ""
	}
	T := f.Parent().Signature.Results().At(0).Type()
	if n, ok := T.(*types.Named); ok && n.Obj().Pkg() != nil && types.Identical(n.Underlying(), f.Signature) {
		k := n.Obj().Pkg().Name() + "." + n.Obj().Name()
		if c, ok := v.spec.Contracts[k]; ok && c.Kind == "functype" {
			return c, k
		}
	}
	return nil, ""
}

func (v *Verifier) ifaceContract(T types.Type, method string) (*Contract, string) {
	n, ok := T.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return nil, ""
	}
	try := func(n *types.Named) (*Contract, string) {
		k := n.Obj().Pkg().Name() + "." + n.Obj().Name() + "." + method
		if c, ok := v.spec.Contracts[k]; ok && c.Kind == "iface" {
			return c, k
		}
		return nil, ""
	}
	if c, k := try(n); c != nil {
		return c, k
	}
	if it, ok := n.Underlying().(*types.Interface); ok {
		for i := 0; i < it.NumEmbeddeds(); i++ {
			if en, ok := it.EmbeddedType(i).(*types.Named); ok {
				if c, k := try(en); c != nil {
					return c, k
				}
			}
		}
	}
	return nil, ""
}

func (v *Verifier) implOf(T types.Type) *Impl {
	p, ok := T.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	n, ok := p.Elem().(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return nil
	}
	return v.spec.Impls[n.Obj().Pkg().Name()+"."+n.Obj().Name()]
}

func (v *Verifier) tag(T types.Type) *Term {
	k := typeKey(T)
	i, ok := v.tags[k]
	if !ok {
		i = len(v.tags) + 1
		v.tags[k] = i
		v.tagT = append(v.tagT, T)
		v.noteType(T)
	}
	return C(32, uint64(i))
}
func (v *Verifier) tagged() []types.Type { return v.tagT }

// ---------------------------------------------------------------- write sets

type addrInfo struct {
	kind string
	T    types.Type // object or element type
	off  int
	FT   types.Type
	key  string
}

func (v *Verifier) addrOf(a ssa.Value) addrInfo {
	T := derefT(a.Type())
	switch u := a.(type) {
	case *ssa.FieldAddr:
		S := derefT(u.X.Type())
		o, _ := fieldRange(S, u.Field)
		switch u.X.(type) {
		case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global:
			b := v.addrOf(u.X)
			b.off += o
			b.FT = T
			return b
		}
		v.noteType(S)
		return addrInfo{kind: "F", T: S, off: o, FT: T}
	case *ssa.IndexAddr:
		var el types.Type
		switch w := u.X.Type().Underlying().(type) {
		case *types.Slice:
			el = w.Elem()
		case *types.Pointer:
			el = w.Elem().Underlying().(*types.Array).Elem()
		}
		v.noteType(el)
		return addrInfo{kind: "E", T: el, FT: T}
	case *ssa.Global:
		return addrInfo{kind: "G", T: T, FT: T, key: u.Pkg.Pkg.Name() + "." + u.Name()}
	}
	v.noteType(T)
	switch w := T.Underlying().(type) {
	case *types.Struct:
		return addrInfo{kind: "F", T: T, FT: T}
	case *types.Array:
		v.noteType(w.Elem())
		return addrInfo{kind: "E", T: w.Elem(), FT: w.Elem()}
	}
	return addrInfo{kind: "P", T: T, FT: T}
}

func objKeys(v *Verifier, T types.Type, out map[string]*Sort) {
	v.noteType(T)
	switch u := T.Underlying().(type) {
	case *types.Struct:
		for i, c := range comps(T) {
			out[fkey(T, i)] = ArrS(BV32, c.s)
		}
	case *types.Array:
		for i, c := range comps(u.Elem()) {
			out[ekey(u.Elem(), i)] = ArrS(BV32, ArrS(BV64, c.s))
		}
	default:
		for i, c := range comps(T) {
			out[pkey(T, i)] = ArrS(BV32, c.s)
		}
	}
}

func (v *Verifier) instrWrites(in ssa.Instruction, out map[string]*Sort) {
	add := func(m map[string]*Sort) {
		for k, s := range m {
			out[k] = s
		}
	}
	switch i := in.(type) {
	case *ssa.Store:
		a := v.addrOf(i.Addr)
		n := len(comps(a.FT))
		switch a.kind {
		case "F":
			cs := comps(a.T)
			for k := a.off; k < a.off+n && k < len(cs); k++ {
				out[fkey(a.T, k)] = ArrS(BV32, cs[k].s)
			}
		case "E":
			cs := comps(a.T)
			for k := range cs {
				out[ekey(a.T, k)] = ArrS(BV32, ArrS(BV64, cs[k].s))
			}
		case "P":
			for k, c := range comps(a.T) {
				out[pkey(a.T, k)] = ArrS(BV32, c.s)
			}
		case "G":
			for k, c := range comps(a.T) {
				out[fmt.Sprintf("G:%s#%d", a.key, k)] = c.s
			}
		}
	case *ssa.Alloc:
		objKeys(v, derefT(i.Type()), out)
	case *ssa.MakeSlice:
		objKeys(v, types.NewArray(i.Type().Underlying().(*types.Slice).Elem(), 1), out)
	case *ssa.MakeInterface:
		if _, ok := i.X.Type().Underlying().(*types.Pointer); !ok && !isIface(i.X.Type()) {
			objKeys(v, i.X.Type(), out)
		}
	case *ssa.Convert:
		if isString(i.X.Type()) && isByteSlice(i.Type()) {
			objKeys(v, types.NewArray(types.Typ[types.Uint8], 1), out)
		}
	case *ssa.Call:
		c := &i.Call
		if b, ok := c.Value.(*ssa.Builtin); ok {
			if b.Name() == "append" || b.Name() == "copy" {
				objKeys(v, types.NewArray(c.Args[0].Type().Underlying().(*types.Slice).Elem(), 1), out)
			}
			return
		}
		if c.IsInvoke() {
			if con, key := v.ifaceContract(c.Value.Type(), c.Method.Name()); con != nil {
				add(v.ifaceWrites(key))
				v.modelWrites(con, out)
			}
			return
		}
		f := c.StaticCallee()
		if f == nil {
			if n, ok := c.Value.Type().(*types.Named); ok && n.Obj().Pkg() != nil {
				if con := v.spec.Contracts[n.Obj().Pkg().Name()+"."+n.Obj().Name()]; con != nil {
					v.modelWrites(con, out)
				}
			}
			add(v.functypeWrites(c.Signature()))
			return
		}
		if con, _ := v.contractOf(f); con != nil {
			v.modelWrites(con, out)
		}
		if f.Pkg == nil || !v.inModule(f) {
			switch f.String() {
			case "errors.As":
				// target pointers to pointers
				if mi, ok := c.Args[1].(*ssa.MakeInterface); ok {
					objKeys(v, derefT(mi.X.Type()), out)
				}
			default:
				n := strings.NewReplacer("(", "", ")", "", "*", "").Replace(f.String())
				if con := v.spec.Contracts[n]; con != nil {
					v.modelWrites(con, out)
				}
			}
			if f.Pkg == nil && len(f.Blocks) > 0 {
				add(v.writes(f))
			}
			return
		}
		add(v.writes(f))
	}
}

// modelWrites adds the model maps a contract may modify
func (v *Verifier) modelWrites(con *Contract, out map[string]*Sort) {
	names := map[string]bool{}
	var walk func(e *Expr, pkg string, d int)
	walk = func(e *Expr, pkg string, d int) {
		if d > 12 {
			return
		}
		if e.K == "call" && e.A[0].K == "ident" {
			n := e.A[0].Name
			names[n] = true
			if ms, ok := v.spec.ModSets[pkg+"."+n]; ok {
				for _, a := range ms.Body.A {
					walk(a, ms.Pkg, d+1)
				}
			}
		}
	}
	for _, c := range con.clauses("modifies") {
		walk(c.E, con.Pkg, 0)
	}
	for _, m := range v.spec.Models {
		for fn := range m.Fns {
			if names[fn] {
				ev := &Ev{x: &Exec{V: v}, pkg: m.Pkg}
				for _, k := range ev.modelKeys(m, fn) {
					out[k.key] = k.sort
				}
			}
		}
	}
}

func (v *Verifier) writes(f *ssa.Function) map[string]*Sort {
	if m, ok := v.wmemo[f]; ok {
		return m
	}
	m := map[string]*Sort{}
	v.wmemo[f] = m
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			v.instrWrites(in, m)
		}
	}
	return m
}

func (v *Verifier) ifaceWrites(key string) map[string]*Sort {
	out := map[string]*Sort{}
	// key pkg.Iface.Method
	p := strings.Split(key, ".")
	o := v.pkgs[p[0]]
	if o == nil {
		return out
	}
	obj := o.Pkg.Scope().Lookup(p[1])
	if obj == nil {
		return out
	}
	it, ok := obj.Type().Underlying().(*types.Interface)
	if !ok {
		return out
	}
	for _, f := range v.implsOf(it, p[2]) {
		for k, s := range v.writes(f) {
			out[k] = s
		}
	}
	return out
}

func (v *Verifier) implsOf(it *types.Interface, method string) []*ssa.Function {
	var out []*ssa.Function
	var names []string
	for n := range v.funcs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f := v.funcs[n]
		if f.Name() != method || f.Signature.Recv() == nil {
			continue
		}
		if types.Implements(f.Signature.Recv().Type(), it) {
			out = append(out, f)
		}
	}
	return out
}

func (v *Verifier) functypeWrites(sig *types.Signature) map[string]*Sort {
	out := map[string]*Sort{}
	for _, f := range v.anon {
		if types.Identical(f.Signature, sig) {
			for k, s := range v.writes(f) {
				out[k] = s
			}
		}
	}
	return out
}

func (v *Verifier) loopWrites(x *Exec, fn *ssa.Function, L *Loop) []keyInfo {
	out := map[string]*Sort{}
	for b := range L.blocks {
		for _, in := range b.Instrs {
			v.instrWrites(in, out)
		}
	}
	var ks []keyInfo
	for k, s := range out {
		ks = append(ks, keyInfo{k, s})
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].key < ks[j].key })
	return ks
}

// mayUnroll: the loop header's branch is governed by a small constant
func (v *Verifier) mayUnroll(L *Loop) bool {
	h := L.header
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	switch c := iff.Cond.(type) {
	case *ssa.Extract:
		n, ok := c.Tuple.(*ssa.Next)
		return ok && n.IsString
	case *ssa.BinOp:
		k, ok := c.Y.(*ssa.Const)
		if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
			return false
		}
		n, _ := constant.Int64Val(k.Value)
		return n <= 12 && n >= -1
	}
	return false
}
