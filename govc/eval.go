package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
)

// Ev evaluates specification expressions
type Ev struct {
	x        *Exec
	cur      *State
	old      *State
	names    map[string]*Val
	oldNames map[string]*Val
	pkg      string
	oldNext  *Term // allocation bound of the old state
	depth    int
	qd       int  // quantifier nesting
	soft     bool // missing names are reported as nil instead of an error
}

type specErr struct{ msg string }

func (e *Ev) fail(f string, a ...interface{}) {
	panic(specErr{fmt.Sprintf(f, a...)})
}

// try evaluates a boolean expression; "" error means success
func (e *Ev) try(ex *Expr) (t *Term, err string) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(specErr); ok {
				t, err = nil, s.msg
				return
			}
			panic(r)
		}
	}()
	v := e.eval(ex)
	if v.C == nil || v.C[0].sort != BoolS {
		return nil, "not a boolean: " + ex.String()
	}
	return v.C[0], ""
}

func (e *Ev) tryVal(ex *Expr) (v *Val, err string) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(specErr); ok {
				v, err = nil, s.msg
				return
			}
			panic(r)
		}
	}()
	return e.concrete(e.eval(ex), types.Typ[types.Int]), ""
}

var boolT = types.Typ[types.Bool]
var intT = types.Typ[types.Int]

func boolVal(t *Term) *Val { return &Val{T: boolT, C: []*Term{t}} }

func (e *Ev) concrete(v *Val, T types.Type) *Val {
	if v.Num != nil {
		if !isInt(T) {
			e.fail("constant used as %s", T)
		}
		return &Val{T: T, C: []*Term{C(comps(T)[0].s.W, uint64(*v.Num))}}
	}
	return v
}

func numVal(n int64) *Val { return &Val{Num: &n} }

func (e *Ev) with(names map[string]*Val) *Ev {
	n := *e
	n.names = names
	n.depth++
	if n.depth > 40 {
		e.fail("definitions too deep")
	}
	return &n
}

func (e *Ev) eval(ex *Expr) *Val {
	switch ex.K {
	case "int", "char":
		return numVal(int64(ex.Val))
	case "str":
		return e.x.strVal(ex.Name, types.Typ[types.String])
	case "ident":
		return e.ident(ex)
	case "field":
		return e.field(ex)
	case "index":
		return e.index(ex)
	case "un":
		return e.un(ex)
	case "bin":
		return e.bin(ex)
	case "old":
		n := *e
		n.cur = e.old
		if e.oldNames != nil {
			n.names = e.oldNames
		}
		if e.old == nil {
			e.fail("old() not available here")
		}
		return n.eval(ex.A[0])
	case "forall", "exists":
		return e.quant(ex)
	case "call":
		return e.call(ex)
	case "typeis":
		v := e.eval(ex.A[0])
		T := e.typ(ex.Name)
		if v.T != nil && !types.IsInterface(v.T) {
			return boolVal(BoolC(types.Identical(v.T, T)))
		}
		return boolVal(Eq(v.C[0], e.x.V.tag(T)))
	case "tobj":
		v := e.eval(ex.A[0])
		T := e.typ(ex.Name)
		return &Val{T: T, C: []*Term{v.C[1]}}
	}
	e.fail("cannot evaluate %s", ex.K)
	return nil
}

func (e *Ev) pkgScope(name string) *types.Package {
	if p, ok := e.x.V.pkgs[name]; ok {
		return p.Pkg
	}
	return nil
}

func (e *Ev) typ(s string) types.Type {
	if strings.HasPrefix(s, "*") {
		return types.NewPointer(e.typ(s[1:]))
	}
	if strings.HasPrefix(s, "[]") {
		return types.NewSlice(e.typ(s[2:]))
	}
	for _, b := range types.Typ {
		if b.Name() == s {
			return b
		}
	}
	if s == "byte" {
		return types.Typ[types.Uint8]
	}
	if s == "rune" {
		return types.Typ[types.Int32]
	}
	pk := e.pkg
	n := s
	if i := strings.Index(s, "."); i >= 0 {
		pk, n = s[:i], s[i+1:]
	}
	if n == "error" {
		return types.Universe.Lookup("error").Type()
	}
	if n == "any" {
		return types.NewInterfaceType(nil, nil)
	}
	if p := e.pkgScope(pk); p != nil {
		if o := p.Scope().Lookup(n); o != nil {
			return o.Type()
		}
	}
	e.fail("unknown type %s", s)
	return nil
}

func (e *Ev) constObj(c *types.Const) *Val {
	switch c.Val().Kind() {
	case constant.Int:
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			if i, ok := constant.Int64Val(c.Val()); ok {
				return numVal(i)
			}
			u, _ := constant.Uint64Val(c.Val())
			return numVal(int64(u))
		}
		i, ok := constant.Int64Val(c.Val())
		if !ok {
			u, _ := constant.Uint64Val(c.Val())
			i = int64(u)
		}
		return &Val{T: c.Type(), C: []*Term{C(comps(c.Type())[0].s.W, uint64(i))}}
	case constant.Bool:
		return boolVal(BoolC(constant.BoolVal(c.Val())))
	case constant.String:
		return e.x.strVal(constant.StringVal(c.Val()), types.Typ[types.String])
	}
	e.fail("constant %s", c.Name())
	return nil
}

func (e *Ev) pkgMember(pk, n string) *Val {
	p := e.x.V.pkgs[pk]
	if p == nil {
		return nil
	}
	o := p.Pkg.Scope().Lookup(n)
	switch c := o.(type) {
	case *types.Const:
		return e.constObj(c)
	case *types.Var:
		return e.x.loadLV(e.cur, &LV{kind: "G", key: pk + "." + n, T: c.Type()})
	}
	return nil
}

func (e *Ev) ident(ex *Expr) *Val {
	switch ex.Name {
	case "true":
		return boolVal(True)
	case "false":
		return boolVal(False)
	case "nil":
		return &Val{T: types.Typ[types.UntypedNil], C: []*Term{C32(0)}}
	}
	if v, ok := e.names[ex.Name]; ok {
		return v
	}
	if d := e.def(ex.Name); d != nil && len(d.Params) == 0 {
		return e.with(map[string]*Val{}).evalIn(d)
	}
	if v := e.pkgMember(e.pkg, ex.Name); v != nil {
		return v
	}
	e.fail("unknown name %s", ex.Name)
	return nil
}

func (e *Ev) def(n string) *Def {
	if d, ok := e.x.V.spec.Defs[e.pkg+"."+n]; ok {
		return d
	}
	for k, d := range e.x.V.spec.Defs {
		if strings.HasSuffix(k, "."+n) && d.Name == n {
			return d
		}
	}
	return nil
}

func (e *Ev) evalIn(d *Def) *Val {
	n := *e
	n.pkg = d.Pkg
	return n.eval(d.Body)
}

func findField(T types.Type, name string) (path []int, FT types.Type) {
	st, ok := T.Underlying().(*types.Struct)
	if !ok {
		return nil, nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return []int{i}, st.Field(i).Type()
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Embedded() {
			if p, t := findField(st.Field(i).Type(), name); p != nil {
				return append([]int{i}, p...), t
			}
		}
	}
	return nil, nil
}

func fieldOff(T types.Type, path []int) (int, types.Type) {
	o := 0
	for _, i := range path {
		fo, _ := fieldRange(T, i)
		o += fo
		T = T.Underlying().(*types.Struct).Field(i).Type()
	}
	return o, T
}

func (e *Ev) field(ex *Expr) *Val {
	if ex.A[0].K == "ident" {
		if _, bound := e.names[ex.A[0].Name]; !bound {
			if _, isPkg := e.x.V.pkgs[ex.A[0].Name]; isPkg {
				if v := e.pkgMember(ex.A[0].Name, ex.Name); v != nil {
					return v
				}
			}
		}
	}
	b := e.eval(ex.A[0])
	if b.T == nil {
		e.fail("field of a constant")
	}
	if p, ok := b.T.Underlying().(*types.Pointer); ok {
		path, _ := findField(p.Elem(), ex.Name)
		if path == nil {
			e.fail("no field %s in %s", ex.Name, p.Elem())
		}
		o, FT := fieldOff(p.Elem(), path)
		e.x.V.noteType(p.Elem())
		if b.LV != nil {
			lv := *b.LV
			lv.off += o
			lv.T = FT
			return e.x.loadLV(e.cur, &lv)
		}
		return e.x.loadLV(e.cur, &LV{kind: "F", key: typeKey(p.Elem()), ref: b.C[0], off: o, T: FT})
	}
	path, _ := findField(b.T, ex.Name)
	if path == nil {
		e.fail("no field %s in %s", ex.Name, b.T)
	}
	o, FT := fieldOff(b.T, path)
	n := len(comps(FT))
	return &Val{T: FT, C: b.C[o : o+n]}
}

func (e *Ev) idx64(v *Val) *Term {
	v = e.concrete(v, intT)
	t := v.C[0]
	if t.sort.W < 64 {
		if isSigned(v.T) {
			return Sext(t, 64)
		}
		return Zext(t, 64)
	}
	return t
}

func (e *Ev) index(ex *Expr) *Val {
	b := e.eval(ex.A[0])
	i := e.idx64(e.eval(ex.A[1]))
	switch u := b.T.Underlying().(type) {
	case *types.Slice:
		e.x.V.noteType(u.Elem())
		return e.x.loadLV(e.cur, &LV{kind: "E", key: typeKey(u.Elem()), ref: b.C[0], idx: Add(b.C[1], i), T: u.Elem()})
	case *types.Basic:
		if isString(b.T) {
			return &Val{T: types.Typ[types.Uint8], C: []*Term{Select(e.x.strContent(b.C[0]), Add(b.C[1], i))}}
		}
	case *types.Array:
		v := &Val{T: u.Elem()}
		for _, c := range b.C {
			v.C = append(v.C, Select(c, i))
		}
		return v
	}
	e.fail("index of %s", b.T)
	return nil
}

func (e *Ev) un(ex *Expr) *Val {
	v := e.eval(ex.A[0])
	switch ex.Op {
	case "!":
		return boolVal(Not(v.C[0]))
	case "-":
		if v.Num != nil {
			return numVal(-*v.Num)
		}
		return &Val{T: v.T, C: []*Term{Neg(v.C[0])}}
	case "^":
		if v.Num != nil {
			return numVal(^*v.Num)
		}
		return &Val{T: v.T, C: []*Term{BNot(v.C[0])}}
	case "*":
		p := v.T.Underlying().(*types.Pointer)
		if v.LV != nil {
			return e.x.loadLV(e.cur, v.LV)
		}
		return e.x.loadObj(e.cur, p.Elem(), v.C[0])
	}
	e.fail("operator %s", ex.Op)
	return nil
}

func (e *Ev) boolOf(ex *Expr) *Term {
	v := e.eval(ex)
	if len(v.C) != 1 || v.C[0].sort != BoolS {
		e.fail("not a boolean: %s", ex)
	}
	return v.C[0]
}

func (e *Ev) bin(ex *Expr) *Val {
	switch ex.Op {
	case "&&":
		a := e.boolOf(ex.A[0])
		if a == False {
			return boolVal(False)
		}
		return boolVal(And(a, e.boolOf(ex.A[1])))
	case "||":
		a := e.boolOf(ex.A[0])
		if a == True {
			return boolVal(True)
		}
		return boolVal(Or(a, e.boolOf(ex.A[1])))
	case "==>":
		a := e.boolOf(ex.A[0])
		if a == False {
			return boolVal(True)
		}
		return boolVal(Implies(a, e.boolOf(ex.A[1])))
	case "<==>":
		return boolVal(Eq(e.boolOf(ex.A[0]), e.boolOf(ex.A[1])))
	}
	a, b := e.eval(ex.A[0]), e.eval(ex.A[1])
	if a.Num != nil && b.Num != nil {
		x, y := *a.Num, *b.Num
		switch ex.Op {
		case "+":
			return numVal(x + y)
		case "-":
			return numVal(x - y)
		case "*":
			return numVal(x * y)
		case "/":
			return numVal(x / y)
		case "%":
			return numVal(x % y)
		case "<<":
			return numVal(x << uint(y))
		case ">>":
			return numVal(x >> uint(y))
		case "&":
			return numVal(x & y)
		case "|":
			return numVal(x | y)
		case "^":
			return numVal(x ^ y)
		case "==":
			return boolVal(BoolC(x == y))
		case "!=":
			return boolVal(BoolC(x != y))
		case "<":
			return boolVal(BoolC(x < y))
		case "<=":
			return boolVal(BoolC(x <= y))
		case ">":
			return boolVal(BoolC(x > y))
		case ">=":
			return boolVal(BoolC(x >= y))
		}
	}
	if ex.Op == "<<" || ex.Op == ">>" {
		a = e.concrete(a, intT)
		b = e.concrete(b, intT)
		op := token.SHL
		if ex.Op == ">>" {
			op = token.SHR
		}
		return &Val{T: a.T, C: []*Term{shift(op, a.C[0], b.C[0], isSigned(a.T))}}
	}
	if a.Num != nil {
		a = e.concrete(a, b.T)
	}
	if b.Num != nil {
		b = e.concrete(b, a.T)
	}
	switch ex.Op {
	case "==", "!=":
		t := e.eq(a, b)
		if ex.Op == "!=" {
			t = Not(t)
		}
		return boolVal(t)
	}
	if !isInt(a.T) || !isInt(b.T) {
		e.fail("operator %s on %s and %s in %s", ex.Op, a.T, b.T, ex)
	}
	if a.C[0].sort != b.C[0].sort || isSigned(a.T) != isSigned(b.T) {
		e.fail("mixed integer types %s and %s in %s", a.T, b.T, ex)
	}
	s := isSigned(a.T)
	p, q := a.C[0], b.C[0]
	mkv := func(t *Term) *Val { return &Val{T: a.T, C: []*Term{t}} }
	switch ex.Op {
	case "+":
		return mkv(Add(p, q))
	case "-":
		return mkv(Sub(p, q))
	case "*":
		return mkv(Bin(OMul, p, q))
	case "/":
		if s {
			return mkv(Bin(OSDiv, p, q))
		}
		return mkv(Bin(OUDiv, p, q))
	case "%":
		if s {
			return mkv(Bin(OSRem, p, q))
		}
		return mkv(Bin(OURem, p, q))
	case "&":
		return mkv(Bin(OBAnd, p, q))
	case "|":
		return mkv(Bin(OBOr, p, q))
	case "^":
		return mkv(Bin(OBXor, p, q))
	case "&^":
		return mkv(Bin(OBAnd, p, BNot(q)))
	case "<":
		return boolVal(cmpInt(token.LSS, p, q, s))
	case "<=":
		return boolVal(cmpInt(token.LEQ, p, q, s))
	case ">":
		return boolVal(cmpInt(token.GTR, p, q, s))
	case ">=":
		return boolVal(cmpInt(token.GEQ, p, q, s))
	}
	e.fail("operator %s", ex.Op)
	return nil
}

func isUntypedNil(v *Val) bool {
	b, ok := v.T.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

func (e *Ev) eq(a, b *Val) *Term {
	if isUntypedNil(a) {
		a, b = b, a
	}
	if isUntypedNil(b) {
		switch a.T.Underlying().(type) {
		case *types.Interface, *types.Slice, *types.Pointer, *types.Signature, *types.Map:
			return Eq(a.C[0], C32(0))
		}
		e.fail("nil comparison of %s", a.T)
	}
	_, sa := a.T.Underlying().(*types.Slice)
	if sa {
		return And(Eq(a.C[0], b.C[0]), Eq(a.C[1], b.C[1]), Eq(a.C[2], b.C[2]), Eq(a.C[3], b.C[3]))
	}
	if isString(a.T) && a.Str == nil && b.Str == nil {
		return And(Eq(a.C[0], b.C[0]), Eq(a.C[1], b.C[1]), Eq(a.C[2], b.C[2]))
	}
	if len(a.C) == len(b.C) {
		for i := range a.C {
			if a.C[i].sort != b.C[i].sort {
				e.fail("comparison of %s and %s", a.T, b.T)
			}
		}
	}
	t := e.x.eqVals(e.cur, a, b)
	if t == nil {
		e.fail("comparison of %s and %s", a.T, b.T)
	}
	return t
}

func (e *Ev) quant(ex *Expr) *Val {
	names := map[string]*Val{}
	for k, v := range e.names {
		names[k] = v
	}
	var T types.Type = intT
	if len(ex.A) == 1 {
		T = e.typ(ex.Op)
	}
	// named by nesting level so that equal formulas are equal terms
	bv := Var(fmt.Sprintf("?%s.%d", ex.Name, e.qd), comps(T)[0].s)
	names[ex.Name] = &Val{T: T, C: []*Term{bv}}
	n := *e
	n.qd++
	n.names = names
	if e.oldNames != nil {
		on := map[string]*Val{}
		for k, v := range e.oldNames {
			on[k] = v
		}
		on[ex.Name] = names[ex.Name]
		n.oldNames = on
	}
	var body *Term
	if len(ex.A) == 3 {
		lo := e.idx64(e.eval(ex.A[0]))
		hi := e.idx64(e.eval(ex.A[1]))
		guard := And(Sle(lo, bv), Slt(bv, hi))
		body = n.boolOf(ex.A[2])
		if ex.K == "forall" {
			body = Implies(guard, body)
		} else {
			body = And(guard, body)
		}
	} else {
		body = n.boolOf(ex.A[0])
	}
	if ex.K == "forall" {
		return boolVal(Forall(bv, body))
	}
	return boolVal(Not(Forall(bv, Not(body))))
}

// model lookup ---------------------------------------------------------------

func (e *Ev) modelOf(fn string, arg *Val) (*Model, *Impl) {
	V := e.x.V
	T := arg.T
	if T == nil {
		return nil, nil
	}
	if p, ok := T.Underlying().(*types.Pointer); ok {
		if n, ok := p.Elem().(*types.Named); ok && n.Obj().Pkg() != nil {
			key := n.Obj().Pkg().Name() + "." + n.Obj().Name()
			if im, ok := V.spec.Impls[key]; ok {
				m := V.spec.Models[im.Pkg+"."+im.Iface]
				if m != nil && m.Fns[fn] != nil {
					return m, im
				}
			}
		}
		return nil, nil
	}
	if n, ok := T.(*types.Named); ok && isIface(T) && n.Obj().Pkg() != nil {
		if m, ok := V.spec.Models[n.Obj().Pkg().Name()+"."+n.Obj().Name()]; ok && m.Fns[fn] != nil {
			return m, nil
		}
	}
	return nil, nil
}

func modelRef(v *Val) *Term {
	if isIface(v.T) {
		return v.C[1]
	}
	return v.C[0]
}

func modelKey(m *Model, fn string, i int) string { return fmt.Sprintf("M:%s.%s#%d", m.Iface, fn, i) }

// modelKeys gives the heap keys (and sorts) of a model function
func (e *Ev) modelKeys(m *Model, fn string) []keyInfo {
	f := m.Fns[fn]
	n := *e
	n.pkg = m.Pkg
	T := n.typ(f.Type)
	var out []keyInfo
	for i, c := range comps(T) {
		s := c.s
		for range f.Params {
			s = ArrS(BV64, s)
		}
		out = append(out, keyInfo{modelKey(m, fn, i), ArrS(BV32, s)})
	}
	return out
}

func (e *Ev) modelApp(m *Model, im *Impl, fn string, args []*Val) *Val {
	f := m.Fns[fn]
	for _, a := range args[1:] {
		e.x.trig(e.idx64(a))
	}
	if len(args) != len(f.Params)+1 {
		e.fail("%s takes %d arguments", fn, len(f.Params)+1)
	}
	if im != nil && e.x.world == im.Pkg {
		d := im.Defs[fn]
		if d == nil {
			e.fail("impl %s does not define %s", im.Type, fn)
		}
		return e.macro(d, args)
	}
	n := *e
	n.pkg = m.Pkg
	T := n.typ(f.Type)
	v := &Val{T: T}
	for _, k := range e.modelKeys(m, fn) {
		t := Select(e.x.get(e.cur, k.key, k.sort), modelRef(args[0]))
		for _, a := range args[1:] {
			t = Select(t, e.idx64(a))
		}
		v.C = append(v.C, t)
	}
	e.x.noteRefs(v)
	e.x.wf(v)
	if m.Known != nil && len(f.Params) == 0 && !e.x.inKnown && !v.C[0].fv {
		if key := v.C[0]; !e.x.knownSeen[key] && m.Fns["valid"] != nil {
			if e.x.knownSeen == nil {
				e.x.knownSeen = map[*Term]bool{}
			}
			e.x.knownSeen[key] = true
			e.x.inKnown = true
			q := *e
			q.names = map[string]*Val{m.Self: args[0]}
			q.oldNames, q.old = nil, nil
			q.pkg = m.Pkg
			k := q.boolOf(m.Known)
			ok := q.modelApp(m, nil, "valid", []*Val{args[0]}).C[0]
			e.x.inKnown = false
			if t := Implies(ok, k); t != True && !t.fv {
				e.x.facts = append(e.x.facts, t)
			}
		}
	}
	return v
}

func (e *Ev) macro(d *Def, args []*Val) *Val {
	if len(args) != len(d.Params) {
		e.fail("%s takes %d arguments", d.Name, len(d.Params))
	}
	names := map[string]*Val{}
	for i, p := range d.Params {
		names[p] = args[i]
	}
	n := e.with(names)
	n.oldNames = nil
	n.pkg = d.Pkg
	return n.eval(d.Body)
}

func (e *Ev) call(ex *Expr) *Val {
	fx := ex.A[0]
	if fx.K != "ident" {
		if fx.K == "field" && fx.A[0].K == "ident" {
			// qualified conversion or definition
			if T := e.tryType(fx.A[0].Name + "." + fx.Name); T != nil && len(ex.A) == 2 {
				return e.conv(e.eval(ex.A[1]), T)
			}
		}
		if fx.K == "field" && fx.A[0].K == "ident" {
			if d := e.x.V.spec.Defs[fx.A[0].Name+"."+fx.Name]; d != nil {
				var args []*Val
				for i := range ex.A[1:] {
					args = append(args, e.eval(ex.A[i+1]))
				}
				return e.macro(d, args)
			}
		}
		e.fail("call of %s", fx)
	}
	name := fx.Name
	arg := func(i int) *Val { return e.eval(ex.A[i+1]) }
	switch name {
	case "len":
		v := arg(0)
		switch v.T.Underlying().(type) {
		case *types.Slice, *types.Basic:
			return &Val{T: intT, C: []*Term{v.C[2]}}
		}
		e.fail("len of %s", v.T)
	case "trigger":
		e.x.trig(e.idx64(arg(0)))
		return boolVal(True)
	case "cap":
		return &Val{T: intT, C: []*Term{arg(0).C[3]}}
	case "arr":
		return &Val{T: types.Typ[types.Uint32], C: []*Term{arg(0).C[0]}}
	case "off":
		return &Val{T: intT, C: []*Term{arg(0).C[1]}}
	case "ref":
		v := arg(0)
		return &Val{T: types.Typ[types.Uint32], C: []*Term{modelRef(v)}}
	case "owner":
		v := arg(0)
		return &Val{T: types.Typ[types.Uint32], C: []*Term{App("owner", BV32, v.C[0])}}
	case "ite":
		c := e.boolOf(ex.A[1])
		a, b := arg(1), arg(2)
		if a.Num != nil && b.Num != nil {
			a = e.concrete(a, intT)
		}
		if a.Num != nil {
			a = e.concrete(a, b.T)
		}
		if b.Num != nil {
			b = e.concrete(b, a.T)
		}
		r := &Val{T: a.T}
		for i := range a.C {
			r.C = append(r.C, Ite(c, a.C[i], b.C[i]))
		}
		return r
	case "fresh":
		v := arg(0)
		r := modelRef(v)
		if _, ok := v.T.Underlying().(*types.Slice); ok {
			r = v.C[0]
		}
		if e.oldNext == nil {
			e.fail("fresh() not available here")
		}
		return boolVal(And(Neq(r, C32(0)), Not(Ult(r, e.oldNext))))
	case "unchanged":
		a := arg(0)
		n := *e
		n.cur = e.old
		if e.oldNames != nil {
			n.names = e.oldNames
		}
		b := n.eval(ex.A[1])
		var cs []*Term
		for i := range a.C {
			cs = append(cs, Eq(a.C[i], b.C[i]))
		}
		return boolVal(And(cs...))
	case "ult":
		return boolVal(Ult(e.concrete(arg(0), intT).C[0], e.concrete(arg(1), intT).C[0]))
	case "content":
		// content(s): the backing byte/element array (first component)
		v := arg(0)
		if isString(v.T) {
			return &Val{T: types.NewArray(types.Typ[types.Uint8], 0), C: []*Term{e.x.strContent(v.C[0])}}
		}
		sl := v.T.Underlying().(*types.Slice)
		r := &Val{T: types.NewArray(sl.Elem(), 0)}
		e.x.V.noteType(sl.Elem())
		for i, c := range comps(sl.Elem()) {
			r.C = append(r.C, Select(e.x.get(e.cur, ekey(sl.Elem(), i), ArrS(BV32, ArrS(BV64, c.s))), v.C[0]))
		}
		return r
	}
	if len(ex.A) == 2 {
		if _, isDef := e.names[name]; !isDef {
			if T := e.tryType(name); T != nil {
				return e.conv(e.eval(ex.A[1]), T)
			}
		}
	}
	var args []*Val
	for i := range ex.A[1:] {
		args = append(args, arg(i))
	}
	if len(args) > 0 {
		if m, im := e.modelOf(name, args[0]); m != nil {
			return e.modelApp(m, im, name, args)
		}
	}
	if d := e.def(name); d != nil {
		return e.macro(d, args)
	}
	// uninterpreted specification function
	if u, ok := e.x.V.spec.Ufs[name]; ok {
		var ts []*Term
		for _, a := range args {
			a = e.concrete(a, intT)
			ts = append(ts, a.C...)
		}
		T := e.typ(u)
		v := &Val{T: T}
		for i, c := range comps(T) {
			v.C = append(v.C, App(fmt.Sprintf("%s.%d", name, i), c.s, ts...))
		}
		return v
	}
	ts := ""
	if len(args) > 0 && args[0].T != nil {
		ts = args[0].T.String()
	}
	e.fail("unknown function %s(%s)", name, ts)
	return nil
}

func (e *Ev) tryType(s string) (T types.Type) {
	defer func() {
		if r := recover(); r != nil {
			T = nil
		}
	}()
	if _, ok := e.names[s]; ok {
		return nil
	}
	if d := e.x.V.spec.Defs[e.pkg+"."+s]; d != nil {
		return nil
	}
	return e.typ(s)
}

func (e *Ev) conv(v *Val, T types.Type) *Val {
	if v.Num != nil {
		return e.concrete(v, T)
	}
	if isInt(v.T) && isInt(T) {
		return e.x.convert(e.cur, True, v, T)
	}
	if len(v.C) == len(comps(T)) {
		c := *v
		c.T = T
		return &c
	}
	e.fail("conversion of %s to %s", v.T, T)
	return nil
}

// ---------------------------------------------------------------- modifies

type modEntry struct {
	kind string // field elems model owned global
	keys []keyInfo
	ref  *Term
	pred func(r *Term) *Term
	fn   string // model function
	m    *Model
	text string
}

func (e *Ev) modset(ex *Expr) []modEntry {
	if ex.K == "call" && ex.A[0].K == "ident" {
		name := ex.A[0].Name
		if d, ok := e.x.V.spec.ModSets[e.pkg+"."+name]; ok {
			names := map[string]*Val{}
			for i, p := range d.Params {
				names[p] = e.eval(ex.A[i+1])
			}
			n := e.with(names)
			n.pkg = d.Pkg
			var out []modEntry
			for _, a := range d.Body.A {
				out = append(out, n.modset(a)...)
			}
			return out
		}
		switch name {
		case "all":
			v := e.eval(ex.A[1])
			S := derefT(v.T)
			e.x.V.noteType(S)
			var ks []keyInfo
			for i, c := range comps(S) {
				ks = append(ks, keyInfo{fkey(S, i), ArrS(BV32, c.s)})
			}
			return []modEntry{{kind: "field", keys: ks, ref: v.C[0], text: ex.String()}}
		case "elems":
			v := e.eval(ex.A[1])
			sl := v.T.Underlying().(*types.Slice)
			e.x.V.noteType(sl.Elem())
			var ks []keyInfo
			for i, c := range comps(sl.Elem()) {
				ks = append(ks, keyInfo{ekey(sl.Elem(), i), ArrS(BV32, ArrS(BV64, c.s))})
			}
			return []modEntry{{kind: "elems", keys: ks, ref: v.C[0], text: ex.String()}}
		case "owned":
			// owned(b, elemExample): arrays with owner b
			v := e.eval(ex.A[1])
			T := e.typ(strings.Trim(ex.A[2].String(), "\""))
			e.x.V.noteType(T)
			var ks []keyInfo
			for i, c := range comps(T) {
				ks = append(ks, keyInfo{ekey(T, i), ArrS(BV32, ArrS(BV64, c.s))})
			}
			o := v.C[0]
			return []modEntry{{kind: "owned", keys: ks, pred: func(r *Term) *Term { return Eq(App("owner", BV32, r), o) }, text: ex.String()}}
		case "global":
			nm := ex.A[1].String()
			if !strings.Contains(nm, ".") {
				nm = e.pkg + "." + nm
			}
			i := strings.Index(nm, ".")
			o := e.pkgScope(nm[:i]).Scope().Lookup(nm[i+1:])
			if o == nil {
				e.fail("no variable %s", nm)
			}
			var ks []keyInfo
			for i, c := range comps(o.Type()) {
				ks = append(ks, keyInfo{fmt.Sprintf("G:%s#%d", nm, i), c.s})
			}
			return []modEntry{{kind: "global", keys: ks, text: ex.String()}}
		}
		if len(ex.A) >= 2 {
			v := e.eval(ex.A[1])
			if m, im := e.modelOf(name, v); m != nil {
				if im != nil && e.x.world == im.Pkg {
					return []modEntry{{kind: "implmodel", fn: name, m: m, ref: modelRef(v), text: ex.String()}}
				}
				return []modEntry{{kind: "model", fn: name, m: m, keys: e.modelKeys(m, name), ref: modelRef(v), text: ex.String()}}
			}
		}
	}
	if ex.K == "field" {
		b := e.eval(ex.A[0])
		p, ok := b.T.Underlying().(*types.Pointer)
		if !ok {
			e.fail("modifies %s: not an object", ex)
		}
		path, _ := findField(p.Elem(), ex.Name)
		if path == nil {
			e.fail("no field %s", ex.Name)
		}
		o, FT := fieldOff(p.Elem(), path)
		e.x.V.noteType(p.Elem())
		var ks []keyInfo
		for i, c := range comps(FT) {
			ks = append(ks, keyInfo{fkey(p.Elem(), o+i), ArrS(BV32, c.s)})
		}
		return []modEntry{{kind: "field", keys: ks, ref: b.C[0], text: ex.String()}}
	}
	e.fail("modifies %s", ex)
	return nil
}

func (e *Ev) trySet(ex *Expr) (m []modEntry, err string) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(specErr); ok {
				m, err = nil, s.msg
				return
			}
			panic(r)
		}
	}()
	return e.modset(ex), ""
}

// trig records a ground term used as an argument of a model function: the
// quantifiers over model arguments are instantiated with it
func (x *Exec) trig(t *Term) {
	if t.fv || x.trigSeen[t] {
		return
	}
	if x.trigSeen == nil {
		x.trigSeen = map[*Term]bool{}
	}
	x.trigSeen[t] = true
	x.trigs = append(x.trigs, t)
}
