package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) call(fr *Frame, c *ssa.CallCommon, v ssa.Value, st *State, pc *Term) (*Val, *Term) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(b, c, v, st, pc), pc
	}
	var args []*Val
	if c.IsInvoke() {
		recv := x.use(st, pc, c.Value)
		for _, a := range c.Args {
			args = append(args, x.arg(st, pc, a))
		}
		x.safety(pc, Neq(recv.C[0], C32(0)), "no call on a nil interface: "+srcName(c.Value)+"."+c.Method.Name())
		if con, key := x.V.ifaceContract(c.Value.Type(), c.Method.Name()); con != nil {
			x.used[key] = true
			return x.apply(con, nil, append([]*Val{recv}, args...), c.Signature(), st, pc, key)
		}
		if c.Method.Name() == "Error" && len(args) == 0 {
			return x.freshVal("errstr", types.Typ[types.String]), pc
		}
		// concrete type known?
		if recv.C[0].op == OConst {
			for _, T := range x.V.tagged() {
				if x.V.tag(T) == recv.C[0] {
					f := x.V.prog.LookupMethod(T, c.Method.Pkg(), c.Method.Name())
					if f != nil {
						if _, isP := T.Underlying().(*types.Pointer); isP {
							return x.dispatch(fr, f, append([]*Val{{T: T, C: []*Term{recv.C[1]}}}, args...), nil, v, st, pc)
						}
					}
				}
			}
		}
		return &Val{T: v.Type(), Bad: "call of interface method " + c.Method.FullName() + " without a contract"}, pc
	}
	for _, a := range c.Args {
		args = append(args, x.arg(st, pc, a))
	}
	if f := c.StaticCallee(); f != nil {
		var binds []*Val
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				binds = append(binds, x.val(st, b))
			}
		}
		return x.dispatch(fr, f, args, binds, v, st, pc)
	}
	fv := x.use(st, pc, c.Value)
	if fv.Fn != nil {
		return x.dispatch(fr, fv.Fn.fn, args, fv.Fn.binds, v, st, pc)
	}
	x.safety(pc, Neq(fv.C[0], C32(0)), "no call of a nil function")
	if n, ok := c.Value.Type().(*types.Named); ok && n.Obj().Pkg() != nil {
		key := n.Obj().Pkg().Name() + "." + n.Obj().Name()
		if con := x.V.spec.Contracts[key]; con != nil && con.Kind == "functype" {
			x.used[key] = true
			return x.apply(con, nil, args, c.Signature(), st, pc, key)
		}
	}
	return &Val{T: v.Type(), Bad: "call of an unknown function value"}, pc
}

// arg evaluates an argument; interior pointers are allowed (they only survive inlining)
func (x *Exec) arg(st *State, pc *Term, a ssa.Value) *Val { return x.use(st, pc, a) }

func (x *Exec) dispatch(fr *Frame, f *ssa.Function, args, binds []*Val, v ssa.Value, st *State, pc *Term) (*Val, *Term) {
	if f.Pkg == nil || !x.V.inModule(f) {
		if r, ok := x.extern(f, args, v, st, pc); ok {
			return r, pc
		}
		if f.Synthetic != "" && len(f.Blocks) > 0 && f.Object() != nil && f.Object().Pkg() != nil && x.V.pkgs[f.Object().Pkg().Name()] != nil {
			return x.inline(fr, f, args, binds, v, st, pc)
		}
		return &Val{T: v.Type(), Bad: "call of external function " + f.String()}, pc
	}
	if con, key := x.V.contractOf(f); con != nil && !con.Inline {
		x.used[key] = true
		x.hints(f.Name(), st, pc)
		return x.apply(con, f, args, f.Signature, st, pc, key)
	}
	if f.Object() == nil && f.Parent() != nil {
		// anonymous function called directly
	}
	return x.inline(fr, f, args, binds, v, st, pc)
}

func (x *Exec) inline(fr *Frame, f *ssa.Function, args, binds []*Val, v ssa.Value, st *State, pc *Term) (*Val, *Term) {
	n := 0
	for g := fr; g != nil; g = g.caller {
		if g.fn == f {
			return &Val{T: v.Type(), Bad: "recursive call of " + f.Name() + " without a contract"}, pc
		}
		n++
	}
	if n > 10 || len(f.Blocks) == 0 {
		return &Val{T: v.Type(), Bad: "cannot inline " + f.String()}, pc
	}
	if r := f.Signature.Recv(); r != nil {
		if im := x.V.implOf(r.Type()); im != nil && im.Pkg != x.world {
			return &Val{T: v.Type(), Bad: "method " + f.Name() + " of a modelled type has no contract"}, pc
		}
	}
	x.inlined[x.V.fnName(f)] = true
	sp := x.curPos
	rets := x.execFn(f, args, binds, pc, st, fr)
	x.curPos = sp
	if len(rets) == 0 {
		return &Val{T: v.Type(), Bad: "no return from " + f.Name()}, False
	}
	var es []Edge
	var pcs []*Term
	for _, r := range rets {
		s := r.st
		s.env = map[ssa.Value]*Val{}
		es = append(es, Edge{pc: r.pc, st: s})
		pcs = append(pcs, r.pc)
	}
	m, npc := x.mergeEdges(es)
	st.heap = m.heap
	k := f.Signature.Results().Len()
	if k == 0 {
		return &Val{T: v.Type()}, npc
	}
	var parts []*Val
	for i := 0; i < k; i++ {
		var vals []*Val
		for _, r := range rets {
			vals = append(vals, r.vals[i])
		}
		parts = append(parts, x.iteVals(pcs, vals))
	}
	if k == 1 {
		return parts[0], npc
	}
	t := &Val{T: v.Type(), parts: parts}
	for _, p := range parts {
		t.C = append(t.C, p.C...)
	}
	return t, npc
}

// apply uses a contract at a call site
func (x *Exec) apply(con *Contract, f *ssa.Function, args []*Val, sig *types.Signature, st *State, pc *Term, key string) (*Val, *Term) {
	con.Used = true
	names := map[string]*Val{}
	for i, p := range con.Params {
		if i < len(args) {
			names[p] = args[i]
		}
	}
	if len(con.Params) != len(args) {
		x.unsupported(pc, fmt.Sprintf("contract %s has %d parameters, the code has %d", key, len(con.Params), len(args)))
	}
	pre := &State{heap: map[string]*Term{}, env: map[ssa.Value]*Val{}}
	for k, t := range st.heap {
		pre.heap[k] = t
	}
	if sig.Recv() != nil && f != nil {
		if _, ok := sig.Recv().Type().Underlying().(*types.Pointer); ok && len(args) > 0 {
			x.safety(pc, Neq(args[0].C[0], C32(0)), "no call on a nil receiver: "+con.Name)
		}
	}
	ev := &Ev{x: x, cur: st, old: nil, names: names, pkg: con.Pkg}
	if f != nil && f.Pkg != nil {
		ev.pkg = f.Pkg.Pkg.Name()
	}
	for _, c := range con.clauses("requires") {
		t, err := ev.try(c.E)
		if err != "" {
			x.specError(pc, key+" requires "+c.Text, err)
			continue
		}
		if Implies(pc, t) == True {
			x.trivial++
			continue
		}
		for _, part := range conjuncts(t) {
			x.obligation(&Obl{Kind: "pre", PC: pc, Cond: part, Desc: "precondition of " + key + ": " + c.Text, Labels: c.Labels, Callee: key})
		}
		x.assume(pc, t)
	}
	// effects
	nextBefore := x.nextCur
	var ents []modEntry
	for _, c := range con.clauses("modifies") {
		m, err := ev.trySet(c.E)
		if err != "" {
			x.specError(pc, key+" modifies "+c.Text, err)
			continue
		}
		ents = append(ents, m...)
	}
	// a method of a modelled type called inside its own package: the concrete footprint
	var exp []modEntry
	for _, m := range ents {
		if m.kind != "implmodel" {
			exp = append(exp, m)
			continue
		}
		im := x.V.implOf(args[0].T)
		if im == nil {
			continue
		}
		dup := false
		for _, q := range exp {
			if q.text == "impl" {
				dup = true
			}
		}
		if dup {
			continue
		}
		for _, e := range x.implMods(im, args[0], st) {
			e.text = "impl"
			exp = append(exp, e)
		}
	}
	ents = exp
	W := map[string]keyInfo{}
	unknown := false
	if f != nil && len(f.Blocks) > 0 {
		for k, s := range x.V.writes(f) {
			W[k] = keyInfo{k, s}
		}
	} else if con.Kind == "iface" {
		for k, s := range x.V.ifaceWrites(key) {
			W[k] = keyInfo{k, s}
		}
	} else if con.Kind == "functype" {
		for k, s := range x.V.functypeWrites(sig) {
			W[k] = keyInfo{k, s}
		}
	} else {
		unknown = true
	}
	for _, m := range ents {
		for _, k := range m.keys {
			if m.kind == "model" || unknown {
				W[k.key] = k
			}
		}
	}
	x.bump()
	var ks []string
	for k := range W {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		ki := W[k]
		if k[0] == 'G' {
			for _, m := range ents {
				for _, mk := range m.keys {
					if mk.key == k {
						x.checkGlobal(pc, k)
						t := Fresh(k+"@", ki.sort)
						varHi[t] = x.seq
						st.heap[k] = t
					}
				}
			}
			continue
		}
		r := BoundVar("r", BV32)
		pred := False
		if k[0] != 'M' {
			pred = Not(Ult(r, nextBefore))
		}
		for _, m := range ents {
			for _, mk := range m.keys {
				if mk.key != k {
					continue
				}
				if m.pred != nil {
					pred = Or(pred, m.pred(r))
					q := x.freshRef("w")
					x.checkWrite(And(pc, m.pred(q)), k, q, con.Name+" writes "+m.text)
				} else {
					pred = Or(pred, Eq(r, m.ref))
					x.checkWrite(pc, k, m.ref, con.Name+" writes "+m.text)
				}
			}
		}
		if pred == False {
			continue
		}
		old := x.get(st, k, ki.sort)
		st.heap[k] = Mix(old, x.newMap(k, ki.sort), r, pred)
		if k[0] == 'M' {
			delete(varHi, st.heap[k])
		}
	}
	// results
	res := sig.Results()
	var parts []*Val
	for i := 0; i < res.Len(); i++ {
		parts = append(parts, x.freshVal(fmt.Sprintf("%s.r%d", con.Name, i), res.At(i).Type()))
	}
	pn := map[string]*Val{}
	for k, v := range names {
		pn[k] = v
	}
	for i, n := range con.Results {
		if i < len(parts) {
			pn[n] = parts[i]
		}
	}
	pe := &Ev{x: x, cur: st, old: pre, names: pn, oldNames: pn, pkg: ev.pkg, oldNext: nextBefore}
	for _, c := range con.clauses("ensures") {
		t, err := pe.try(c.E)
		if err != "" {
			x.specError(pc, key+" ensures "+c.Text, err)
			continue
		}
		x.assume(pc, t)
	}
	switch len(parts) {
	case 0:
		return &Val{T: types.NewTuple()}, pc
	case 1:
		return parts[0], pc
	}
	t := &Val{T: res, parts: parts}
	for _, p := range parts {
		t.C = append(t.C, p.C...)
	}
	return t, pc
}

func (x *Exec) implMods(im *Impl, self *Val, st *State) []modEntry {
	var out []modEntry
	ev := &Ev{x: x, cur: st, names: map[string]*Val{"self": self}, pkg: im.Pkg}
	for _, c := range im.Mods {
		m, err := ev.trySet(c.E)
		if err != "" {
			x.specError(True, "impl "+im.Type+" modifies "+c.Text, err)
			continue
		}
		out = append(out, m...)
	}
	return out
}

func (x *Exec) checkGlobal(pc *Term, k string) {
	for _, p := range x.writable {
		if k == p.prefix {
			return
		}
	}
	x.obligation(&Obl{Kind: "frame", PC: pc, Cond: False, Desc: "writes the package variable " + k})
}

func (x *Exec) specError(pc *Term, what, err string) {
	x.obligation(&Obl{Kind: "spec", PC: pc, Cond: False, Desc: "contract cannot be read against this code: " + what + ": " + err})
}

func conjuncts(t *Term) []*Term {
	if t.op == OAnd {
		var out []*Term
		for _, a := range t.args {
			out = append(out, conjuncts(a)...)
		}
		return out
	}
	if t.op == OOr {
		n, at := 0, -1
		for i, a := range t.args {
			if a.op == OAnd {
				k := 0
				for _, q := range a.args {
					if q.op == OForall {
						k = 1
					}
				}
				if k > 0 {
					n, at = 1, i
				}
			}
		}
		if n == 1 && len(t.args[at].args) <= 400 {
			var out []*Term
			for _, c := range t.args[at].args {
				na := append([]*Term{}, t.args...)
				na[at] = c
				out = append(out, conjuncts(Or(na...))...)
			}
			return out
		}
	}
	if t.op == OForall {
		b := t.args[1]
		if b.op == OAnd {
			var out []*Term
			for _, a := range conjuncts(b) {
				out = append(out, conjuncts(Forall(t.args[0], a))...)
			}
			return out
		}
		// guard ==> (A && B)
		ands := 0
		if b.op == OOr {
			for _, a := range b.args {
				if a.op == OAnd {
					ands++
				}
			}
		}
		if b.op == OOr && ands == 1 {
			for i, a := range b.args {
				if a.op == OAnd && a.fv {
					var out []*Term
					for _, c := range a.args {
						na := append([]*Term{}, b.args...)
						na[i] = c
						out = append(out, conjuncts(Forall(t.args[0], Or(na...)))...)
					}
					return out
				}
			}
		}
	}
	return []*Term{t}
}

// ---------------------------------------------------------------- builtins

func (x *Exec) builtin(b *ssa.Builtin, c *ssa.CallCommon, v ssa.Value, st *State, pc *Term) *Val {
	switch b.Name() {
	case "len":
		a := x.use(st, pc, c.Args[0])
		switch u := c.Args[0].Type().Underlying().(type) {
		case *types.Slice, *types.Basic:
			return &Val{T: v.Type(), C: []*Term{a.C[2]}}
		case *types.Pointer:
			return &Val{T: v.Type(), C: []*Term{C64(u.Elem().Underlying().(*types.Array).Len())}}
		case *types.Array:
			return &Val{T: v.Type(), C: []*Term{C64(u.Len())}}
		case *types.Map:
			n := Fresh("maplen", BV64)
			x.facts = append(x.facts, Sle(C64(0), n))
			return &Val{T: v.Type(), C: []*Term{n}}
		}
	case "cap":
		a := x.use(st, pc, c.Args[0])
		if _, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
			return &Val{T: v.Type(), C: []*Term{a.C[3]}}
		}
	case "append":
		return x.appendB(c, v, st, pc)
	case "ssa:wrapnilchk":
		a := x.use(st, pc, c.Args[0])
		x.nilCheck(pc, a.C[0], "method wrapper")
		return a
	case "min", "max":
		a := x.use(st, pc, c.Args[0])
		r := a.C[0]
		for _, q := range c.Args[1:] {
			t := x.use(st, pc, q).C[0]
			s := isSigned(a.T)
			var lt *Term
			if s {
				lt = Slt(t, r)
			} else {
				lt = Ult(t, r)
			}
			if b.Name() == "max" {
				lt = Not(lt)
			}
			r = Ite(lt, t, r)
		}
		return &Val{T: v.Type(), C: []*Term{r}}
	case "print", "println":
		x.stdout(pc)
		return &Val{T: types.NewTuple()}
	case "copy":
		d, s := x.use(st, pc, c.Args[0]), x.use(st, pc, c.Args[1])
		sl := c.Args[0].Type().Underlying().(*types.Slice)
		x.V.noteType(sl.Elem())
		n := Ite(Slt(s.C[2], d.C[2]), s.C[2], d.C[2])
		for k, cc := range comps(sl.Elem()) {
			key := ekey(sl.Elem(), k)
			m := x.get(st, key, ArrS(BV32, ArrS(BV64, cc.s)))
			var src *Term
			if isString(c.Args[1].Type()) {
				src = x.strContent(s.C[0])
			} else {
				src = Select(m, s.C[0])
			}
			old := Select(m, d.C[0])
			nw := Fresh("copy", ArrS(BV64, cc.s))
			varHi[nw] = x.seq
			i := BoundVar("i", BV64)
			rel := Sub(i, d.C[1])
			in := And(Sle(d.C[1], i), Slt(i, Add(d.C[1], n)))
			x.assume(pc, Forall(i, And(Implies(in, Eq(Select(nw, i), Select(src, Add(s.C[1], rel)))), Implies(Not(in), Eq(Select(nw, i), Select(old, i))))))
			x.checkWrite(And(pc, Slt(C64(0), n)), key, d.C[0], "copy")
			x.setHeap(st, key, Store(m, d.C[0], nw))
		}
		return &Val{T: v.Type(), C: []*Term{n}}
	}
	return &Val{T: v.Type(), Bad: "builtin " + b.Name()}
}

func (x *Exec) appendB(c *ssa.CallCommon, v ssa.Value, st *State, pc *Term) *Val {
	a, b := x.use(st, pc, c.Args[0]), x.use(st, pc, c.Args[1])
	sl := c.Args[0].Type().Underlying().(*types.Slice)
	x.V.noteType(sl.Elem())
	n := b.C[2]
	newLen := Add(a.C[2], n)
	// memory bound: a slice never grows beyond maxLen elements
	x.assume(pc, Sle(newLen, C64(maxLen)))
	inpl := Sle(newLen, a.C[3])
	r := x.alloc()
	x.own(r)
	ncap := Fresh("cap", BV64)
	x.facts = append(x.facts, Sle(newLen, ncap), Sle(ncap, C64(maxLen)))
	for k, cc := range comps(sl.Elem()) {
		key := ekey(sl.Elem(), k)
		m := x.get(st, key, ArrS(BV32, ArrS(BV64, cc.s)))
		old := Select(m, a.C[0])
		var nw *Term
		isStr := isString(c.Args[1].Type())
		if n.op == OConst && n.val <= 8 {
			nw = old
			for j := int64(0); j < int64(n.val); j++ {
				var e *Term
				if isStr {
					e = Select(x.strContent(b.C[0]), Add(b.C[1], C64(j)))
				} else {
					e = Select(Select(m, b.C[0]), Add(b.C[1], C64(j)))
				}
				nw = Store(nw, Add(Add(a.C[1], a.C[2]), C64(j)), e)
			}
		} else {
			var src *Term
			if isStr {
				src = x.strContent(b.C[0])
			} else {
				src = Select(m, b.C[0])
			}
			nw = Fresh("append", ArrS(BV64, cc.s))
			varHi[nw] = x.seq
			i := BoundVar("i", BV64)
			end := Add(a.C[1], a.C[2])
			in := And(Sle(end, i), Slt(i, Add(end, n)))
			x.assume(pc, Forall(i, And(Implies(in, Eq(Select(nw, i), Select(src, Add(b.C[1], Sub(i, end))))), Implies(Not(in), Eq(Select(nw, i), Select(old, i))))))
		}
		some := Slt(C64(0), n)
		x.checkWrite(And(pc, inpl, some), key, a.C[0], "append to "+srcName(c.Args[0])+" in place")
		m2 := Store(m, a.C[0], Ite(inpl, nw, old))
		m2 = Store(m2, r, nw)
		x.setHeap(st, key, m2)
	}
	off := a.C[1]
	return &Val{T: v.Type(), C: []*Term{Ite(inpl, a.C[0], r), off, newLen, Ite(inpl, a.C[3], ncap)}}
}

func (x *Exec) stdout(pc *Term) {
	for _, p := range x.writable {
		if p.prefix == "G:os.Stdout#0" {
			return
		}
	}
	x.obligation(&Obl{Kind: "frame", PC: pc, Cond: False, Desc: "writes to standard output"})
}

// extern models the few library functions the code uses
func (x *Exec) extern(f *ssa.Function, args []*Val, v ssa.Value, st *State, pc *Term) (*Val, bool) {
	name := f.String()
	switch name {
	case "fmt.Sprintf", "fmt.Sprint":
		x.used["extern "+name] = true
		return x.freshVal("sprintf", types.Typ[types.String]), true
	case "fmt.Printf", "fmt.Println", "fmt.Print":
		x.used["extern "+name] = true
		x.stdout(pc)
		return x.freshVal("printf", f.Signature.Results()), true
	case "strings.ToUpper", "strings.ToLower":
		x.used["extern "+name] = true
		if args[0].Str != nil {
			s := strings.ToUpper(*args[0].Str)
			if name == "strings.ToLower" {
				s = strings.ToLower(*args[0].Str)
			}
			return x.strVal(s, types.Typ[types.String]), true
		}
		if x.V.spec.Contracts[name] == nil {
			return x.freshVal("toupper", types.Typ[types.String]), true
		}
	case "errors.As":
		x.used["extern "+name] = true
		err, target := args[0], args[1]
		// the target must be an interface built from a pointer to a pointer
		var PT types.Type
		for _, T := range x.V.tagged() {
			if x.V.tag(T) == target.C[0] {
				PT = T
			}
		}
		if PT == nil {
			return nil, false
		}
		ET := derefT(PT)
		ok := Fresh("errorsAs", BoolS)
		x.assume(pc, Implies(ok, Neq(err.C[0], C32(0))))
		x.assume(pc, Implies(Eq(err.C[0], x.V.tag(ET)), ok))
		found := x.freshVal("as", ET)
		x.assume(pc, Implies(And(ok, Eq(err.C[0], x.V.tag(ET))), Eq(found.C[0], err.C[1])))
		cur := x.loadObj(st, ET, target.C[1])
		x.checkWrite(And(pc, ok), pkey(ET, 0), target.C[1], "errors.As target")
		x.storeObj(st, ET, target.C[1], &Val{T: ET, C: []*Term{Ite(ok, found.C[0], cur.C[0])}})
		return &Val{T: boolT, C: []*Term{ok}}, true
	case "errors.New":
		x.used["extern "+name] = true
		r := x.freshVal("err", f.Signature.Results().At(0).Type())
		x.assume(pc, Neq(r.C[0], C32(0)))
		return r, true
	}
	if con := x.V.spec.Contracts[strings.NewReplacer("(", "", ")", "", "*", "").Replace(name)]; con != nil && con.Kind == "extern" {
		x.used["extern "+name] = true
		r, _ := x.apply(con, nil, args, f.Signature, st, pc, name)
		return r, true
	}
	return nil, false
}

// hints are facts the contract proposes before a call; they are kept when proved
func (x *Exec) hints(callee string, st *State, pc *Term) {
	if x.con == nil || x.noObl > 0 {
		return
	}
	for _, c := range x.con.clauses("hint") {
		on := len(c.Labels) == 0
		for _, l := range c.Labels {
			on = on || l == callee
		}
		if !on {
			continue
		}
		ev := &Ev{x: x, cur: st, old: x.entry, names: x.rootNames, oldNames: x.rootNames, pkg: x.specPkg, oldNext: x.next0}
		t, err := ev.try(c.E)
		if err != "" || t == True {
			continue
		}
		li := &LoopInst{id: len(x.loops), pos: "hint before " + callee}
		x.loops = append(x.loops, li)
		for _, part := range conjuncts(t) {
			cd := &Cand{sel: Fresh("hint", BoolS), desc: c.Text, alive: true}
			li.cands = append(li.cands, cd)
			if o := x.obligation(&Obl{Kind: "inv-init", PC: pc, Cond: part, Desc: "hint before " + callee + ": " + c.Text}); o != nil {
				o.Cand = len(li.cands) - 1
				o.Loop = li
			}
			if x.factCand == nil {
				x.factCand = map[int]*Cand{}
			}
			x.factCand[len(x.facts)] = cd
			x.facts = append(x.facts, Implies(And(pc, cd.sel), part))
		}
	}
}
