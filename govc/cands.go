package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type candGen struct {
	desc   string
	eval   func(*State) *Term
	user   bool
	labels []string
}

const strPos = "strpos$"

// localNames maps source names to values usable at a loop header
// comments of allocations that are no variables
var synthAlloc = map[string]bool{"slicelit": true, "varargs": true, "complit": true, "new": true, "makeslice": true, "makechan": true, "rangefunc": true}

func (x *Exec) localNames(fr *Frame, L *Loop, st *State) map[string]*Val {
	out := map[string]*Val{}
	if fr.fn == x.root {
		for i, p := range fr.fn.Params {
			if x.con != nil && i < len(x.con.Params) {
				out[x.con.Params[i]] = st.env[p]
			}
		}
	}
	for _, p := range fr.fn.Params {
		if v := st.env[p]; v != nil {
			out[p.Name()] = v
		}
	}
	// values named by debug information that dominate the header
	for _, b := range fr.fn.Blocks {
		if b != L.header && !b.Dominates(L.header) {
			continue
		}
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.DebugRef:
				if b == L.header {
					continue
				}
				if o := i.Object(); o != nil && !i.IsAddr {
					if _, isP := out[o.Name()]; !isP {
						if v := x.peekVal(st, i.X); v != nil {
							out[o.Name()] = v
						}
					}
				}
			}
		}
	}
	// local variables kept in memory
	for _, b := range fr.fn.Blocks {
		if b == L.header || !b.Dominates(L.header) {
			continue
		}
		for _, in := range b.Instrs {
			if al, ok := in.(*ssa.Alloc); ok && token.IsIdentifier(al.Comment) && !synthAlloc[al.Comment] {
				if v := st.env[al]; v != nil && v.Bad == "" && v.LV == nil && len(v.C) == 1 {
					out[al.Comment] = x.loadObj(st, derefT(al.Type()), v.C[0])
				}
			}
		}
	}
	// byte positions of string ranges
	for _, b := range fr.fn.Blocks {
		if b == L.header || !b.Dominates(L.header) {
			continue
		}
		for _, in := range b.Instrs {
			if r, ok := in.(*ssa.Range); ok {
				if it := st.env[r]; it != nil && len(it.C) == 4 {
					out[strPos+r.Name()] = &Val{T: types.Typ[types.Int], C: []*Term{it.C[3]}}
				}
			}
		}
	}
	// phis of enclosing loops and of the header itself
	for _, b := range fr.fn.Blocks {
		if b != L.header && !b.Dominates(L.header) {
			continue
		}
		for _, in := range b.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if phi.Comment != "" {
				if v := st.env[phi]; v != nil && v.Bad == "" {
					out[phi.Comment] = v
				}
			}
		}
	}
	return out
}

func (x *Exec) peekVal(st *State, v ssa.Value) *Val {
	if c, ok := v.(*ssa.Const); ok {
		return x.constVal(c)
	}
	r := st.env[v]
	if r == nil || r.Bad != "" {
		return nil
	}
	return r
}

func (x *Exec) genCands(fr *Frame, L *Loop, phis []*ssa.Phi, est, st *State, pc *Term) []candGen {
	var out []candGen
	seen := map[string]bool{}
	add := func(c candGen) {
		if !c.user && x.con != nil && x.con.NoAuto {
			return
		}
		if seen[c.desc] {
			return
		}
		seen[c.desc] = true
		out = append(out, c)
	}
	intPhi := func(p *ssa.Phi) bool { return isInt(p.Type()) }
	// bounds from the initial value
	for _, p := range phis {
		p := p
		if !intPhi(p) {
			continue
		}
		iv := est.env[p]
		if iv == nil || iv.Bad != "" || len(iv.C) != 1 {
			continue
		}
		i0 := iv.C[0]
		s := isSigned(p.Type())
		le := func(a, b *Term) *Term {
			if s {
				return Sle(a, b)
			}
			return Ule(a, b)
		}
		add(candGen{desc: phiName(p) + " >= initial value", eval: func(q *State) *Term { return le(i0, q.env[p].C[0]) }})
		add(candGen{desc: phiName(p) + " <= initial value", eval: func(q *State) *Term { return le(q.env[p].C[0], i0) }})
		add(candGen{desc: phiName(p) + " == initial value", eval: func(q *State) *Term { return Eq(q.env[p].C[0], i0) }})
		add(candGen{desc: phiName(p) + " >= -1", eval: func(q *State) *Term {
			t := q.env[p].C[0]
			if !s {
				return nil
			}
			return Sle(C(t.sort.W, ^uint64(0)), t)
		}})
		// parallel induction variables
		for _, p2 := range phis {
			p2 := p2
			if p2 == p || !intPhi(p2) || comps(p2.Type())[0].s != comps(p.Type())[0].s || phiIdx(phis, p2) < phiIdx(phis, p) {
				continue
			}
			iv2 := est.env[p2]
			if iv2 == nil || iv2.Bad != "" {
				continue
			}
			j0 := iv2.C[0]
			add(candGen{desc: phiName(p) + " - " + phiName(p2) + " is constant", eval: func(q *State) *Term {
				return Eq(Sub(q.env[p].C[0], i0), Sub(q.env[p2].C[0], j0))
			}})
		}
	}
	// bounds from comparisons in the loop with loop-invariant operands
	for b := range L.blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		c, ok := iff.Cond.(*ssa.BinOp)
		if !ok || !isInt(c.X.Type()) {
			continue
		}
		for _, sw := range []bool{false, true} {
			a, lim := c.X, c.Y
			if sw {
				a, lim = lim, a
			}
			p, ok := a.(*ssa.Phi)
			if !ok || p.Block() != L.header {
				// i+1 < n pattern
				continue
			}
			lv := x.invariantVal(est, L, lim)
			if lv == nil {
				continue
			}
			t := lv.C[0]
			s := isSigned(p.Type())
			le := func(a, b *Term) *Term {
				if s {
					return Sle(a, b)
				}
				return Ule(a, b)
			}
			add(candGen{desc: fmt.Sprintf("%s <= bound %s", phiName(p), srcName(lim)), eval: func(q *State) *Term { return le(q.env[p].C[0], t) }})
			add(candGen{desc: fmt.Sprintf("%s >= bound %s", phiName(p), srcName(lim)), eval: func(q *State) *Term { return le(t, q.env[p].C[0]) }})
			// constant step k: i <= bound + k - 1
			for _, k := range stepsOf(p, L) {
				k := k
				if k > 1 && k < 16 {
					add(candGen{desc: fmt.Sprintf("%s <= bound %s + %d", phiName(p), srcName(lim), k-1), eval: func(q *State) *Term {
						return le(q.env[p].C[0], Add(t, C(t.sort.W, uint64(k-1))))
					}})
				}
			}
		}
	}
	// range loops: the hidden index is compared after incrementing
	for b := range L.blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		c, ok := iff.Cond.(*ssa.BinOp)
		if !ok || c.Op != token.LSS {
			continue
		}
		add1, ok := c.X.(*ssa.BinOp)
		if !ok || add1.Op != token.ADD {
			continue
		}
		p, ok := add1.X.(*ssa.Phi)
		if !ok || p.Block() != L.header {
			continue
		}
		lv := x.invariantVal(est, L, c.Y)
		if lv == nil {
			continue
		}
		t := lv.C[0]
		add(candGen{desc: fmt.Sprintf("%s < bound %s", phiName(p), srcName(c.Y)), eval: func(q *State) *Term {
			return Or(Slt(q.env[p].C[0], t), Eq(q.env[p].C[0], C(64, ^uint64(0))))
		}})
	}
	// slices built by the loop
	for _, p := range phis {
		p := p
		if _, ok := p.Type().Underlying().(*types.Slice); !ok {
			continue
		}
		if iv := est.env[p]; iv == nil || iv.Bad != "" || len(iv.C) != 4 {
			continue
		}
		arr0, len0 := est.env[p].C[0], est.env[p].C[2]
		add(candGen{desc: phiName(p) + " is nil or allocated by this function", eval: func(q *State) *Term {
			v := q.env[p]
			return Or(And(Eq(v.C[0], C32(0)), Eq(v.C[3], C64(0))), And(Not(Ult(v.C[0], x.next0)), Eq(App("owner", BV32, v.C[0]), x.ownerTerm())))
		}})
		add(candGen{desc: phiName(p) + " same array as before the loop", eval: func(q *State) *Term { return Eq(q.env[p].C[0], arr0) }})
		add(candGen{desc: phiName(p) + " not shorter than before the loop", eval: func(q *State) *Term { return Sle(len0, q.env[p].C[2]) }})
	}
	names := func(q *State) map[string]*Val { return x.localNames(fr, L, q) }
	rootNames := func(q *State) map[string]*Val {
		m := names(q)
		for k, v := range x.rootNames {
			if _, ok := m[k]; !ok {
				m[k] = v
			}
		}
		return m
	}
	entryNames := x.rootNames
	user := func(c *Clause, pkg string, isUser bool, prefix string) {
		for _, pe := range x.wildcards(fr, L, splitConj(x, c.E, pkg, 0), est) {
			pe := pe
			f := func(q *State) *Term {
				ev := &Ev{x: x, cur: q, old: x.entry, names: rootNames(q), oldNames: entryNames, pkg: pkg, oldNext: x.next0}
				t, err := ev.try(pe)
				if err != "" {
					return nil
				}
				return t
			}
			if f(est) == nil || f(st) == nil {
				continue
			}
			add(candGen{desc: prefix + pe.String(), eval: f, user: isUser, labels: c.Labels})
		}
	}
	if x.con != nil {
		pkg := x.specPkg
		for _, c := range x.con.clauses("invariant") {
			user(c, pkg, true, "")
		}
		for _, c := range x.con.clauses("requires") {
			user(c, pkg, false, "precondition kept: ")
		}
	}
	for _, con := range x.V.spec.Cands {
		if con.Pkg != x.world {
			continue
		}
		for _, c := range con.clauses("invariant") {
			user(c, con.Pkg, false, "template: ")
		}
	}
	// fields of parameters that only grow / do not change during the loop
	for _, k := range x.V.loopWrites(x, fr.fn, L) {
		if k.key[0] != 'F' || k.sort.Elem.K == SArr {
			continue
		}
		k := k
		for _, prm := range fr.fn.Params {
			pt, ok := prm.Type().Underlying().(*types.Pointer)
			if !ok {
				continue
			}
			if !strings.HasPrefix(k.key, "F:"+typeKey(pt.Elem())+".") {
				continue
			}
			pv := est.env[prm]
			if pv == nil || pv.LV != nil || len(pv.C) != 1 {
				continue
			}
			r := pv.C[0]
			init := Select(x.get(est, k.key, k.sort), r)
			nm := prm.Name() + "." + k.key[strings.LastIndex(k.key, ".")+1:]
			add(candGen{desc: nm + " unchanged by the loop", eval: func(q *State) *Term { return Eq(Select(x.get(q, k.key, k.sort), r), init) }})
			if k.sort.Elem == BV64 {
				add(candGen{desc: nm + " >= value before the loop", eval: func(q *State) *Term { return Sle(init, Select(x.get(q, k.key, k.sort), r)) }})
			}
		}
	}
	// model integers of modelled parameters
	return out
}

func phiIdx(ps []*ssa.Phi, p *ssa.Phi) int {
	for i, q := range ps {
		if q == p {
			return i
		}
	}
	return -1
}

func stepsOf(p *ssa.Phi, L *Loop) []int64 {
	var out []int64
	for i, e := range p.Edges {
		if !L.blocks[p.Block().Preds[i]] {
			continue
		}
		if b, ok := e.(*ssa.BinOp); ok && b.X == ssa.Value(p) && (b.Op == token.ADD) {
			if c, ok := b.Y.(*ssa.Const); ok {
				out = append(out, c.Int64())
			}
		}
	}
	return out
}

// splitConj splits a specification expression into conjuncts, expanding definitions
func splitConj(x *Exec, e *Expr, pkg string, d int) []*Expr {
	if e.K == "bin" && e.Op == "&&" {
		return append(splitConj(x, e.A[0], pkg, d), splitConj(x, e.A[1], pkg, d)...)
	}
	if d < 6 && e.K == "call" && e.A[0].K == "ident" {
		if df := x.V.spec.Defs[pkg+"."+e.A[0].Name]; df != nil && len(df.Params) == len(e.A)-1 {
			simple := true
			m := map[string]*Expr{}
			for i, p := range df.Params {
				m[p] = e.A[i+1]
				if e.A[i+1].K != "ident" {
					simple = false
				}
			}
			if simple && df.Body.K == "bin" && df.Body.Op == "&&" || simple && df.Body.K == "call" {
				return splitConj(x, substExpr(df.Body, m), pkg, d+1)
			}
		}
	}
	return []*Expr{e}
}

func wildNames(e *Expr, out map[string]bool) {
	if e.K == "ident" && strings.HasPrefix(e.Name, "$") {
		out[e.Name] = true
	}
	for _, a := range e.A {
		wildNames(a, out)
	}
}

// wildcards instantiates $i… (integer loop variables) and $s… (slices in scope)
func (x *Exec) wildcards(fr *Frame, L *Loop, es []*Expr, st *State) []*Expr {
	var out []*Expr
	for _, e := range es {
		w := map[string]bool{}
		wildNames(e, w)
		if len(w) == 0 {
			out = append(out, e)
			continue
		}
		ln := x.localNames(fr, L, st)
		phi := map[string]bool{}
		for _, b := range fr.fn.Blocks {
			if b != L.header && !b.Dominates(L.header) {
				continue
			}
			for _, in := range b.Instrs {
				if p, ok := in.(*ssa.Phi); ok && p.Comment != "" {
					phi[p.Comment] = true
				}
			}
		}
		cur := []*Expr{e}
		for _, n := range sortedKeys(w) {
			var next []*Expr
			for _, k := range sortedKeys(ln) {
				v := ln[k]
				if v == nil || v.Bad != "" {
					continue
				}
				switch n[1] {
				case 'i':
					if !isInt(v.T) || !phi[k] && !strings.HasPrefix(k, strPos) {
						continue
					}
				case 'p':
					if _, ok := v.T.Underlying().(*types.Pointer); !ok || v.LV != nil {
						continue
					}
				case 's':
					if _, ok := v.T.Underlying().(*types.Slice); !ok {
						continue
					}
				}
				for _, c := range cur {
					next = append(next, substExpr(c, map[string]*Expr{n: {K: "ident", Name: k}}))
				}
			}
			cur = next
		}
		if len(cur) > 80 {
			cur = cur[:80]
		}
		out = append(out, cur...)
	}
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func substExpr(e *Expr, m map[string]*Expr) *Expr {
	if e.K == "ident" {
		if r, ok := m[e.Name]; ok {
			return r
		}
		return e
	}
	n := *e
	n.A = make([]*Expr, len(e.A))
	for i, a := range e.A {
		if e.K == "call" && i == 0 {
			n.A[i] = a
			continue
		}
		n.A[i] = substExpr(a, m)
	}
	return &n
}

// invariantVal returns the value of v in the state before the loop if the loop
// cannot change it
func (x *Exec) invariantVal(est *State, L *Loop, v ssa.Value) *Val {
	if c, ok := v.(*ssa.Const); ok {
		r := x.constVal(c)
		if r.Bad != "" {
			return nil
		}
		return r
	}
	in, isI := v.(ssa.Instruction)
	if !isI || !L.blocks[in.Block()] {
		r := est.env[v]
		if r == nil || r.Bad != "" || len(r.C) != 1 {
			return nil
		}
		return r
	}
	// recomputed in the loop from invariant data: evaluate in the state before the loop
	switch i := v.(type) {
	case *ssa.UnOp:
		if i.Op != token.MUL {
			return nil
		}
		if fa, ok := i.X.(*ssa.FieldAddr); ok {
			b := x.invariantAny(est, L, fa.X)
			if b == nil || b.LV != nil {
				return nil
			}
			S := derefT(fa.X.Type())
			o, _ := fieldRange(S, fa.Field)
			x.V.noteType(S)
			r := x.loadLV(est, &LV{kind: "F", key: typeKey(S), ref: b.C[0], off: o, T: i.Type()})
			if len(r.C) != 1 {
				return nil
			}
			return r
		}
	case *ssa.BinOp:
		a, b := x.invariantVal(est, L, i.X), x.invariantVal(est, L, i.Y)
		if a == nil || b == nil {
			return nil
		}
		switch i.Op {
		case token.ADD:
			return &Val{T: i.Type(), C: []*Term{Add(a.C[0], b.C[0])}}
		case token.SUB:
			return &Val{T: i.Type(), C: []*Term{Sub(a.C[0], b.C[0])}}
		}
	case *ssa.Call:
		if b, ok := i.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			s := x.invariantAny(est, L, i.Call.Args[0])
			if s != nil && len(s.C) >= 3 {
				return &Val{T: intT, C: []*Term{s.C[2]}}
			}
		}
	}
	return nil
}

func (x *Exec) invariantAny(est *State, L *Loop, v ssa.Value) *Val {
	in, isI := v.(ssa.Instruction)
	if !isI || !L.blocks[in.Block()] {
		r := est.env[v]
		if r == nil || r.Bad != "" {
			return nil
		}
		return r
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			b := x.invariantAny(est, L, fa.X)
			if b == nil || b.LV != nil {
				return nil
			}
			S := derefT(fa.X.Type())
			o, _ := fieldRange(S, fa.Field)
			x.V.noteType(S)
			return x.loadLV(est, &LV{kind: "F", key: typeKey(S), ref: b.C[0], off: o, T: u.Type()})
		}
	}
	return nil
}

func (x *Exec) genMeas(fr *Frame, L *Loop, phis []*ssa.Phi, est, st *State, pc *Term) []candGen {
	var out []candGen
	w64 := func(t *Term, s bool) *Term {
		if t.sort.W == 64 {
			return t
		}
		if s {
			return Sext(t, 64)
		}
		return Zext(t, 64)
	}
	if x.con != nil {
		for _, c := range x.con.clauses("decreases") {
			c := c
			f := func(q *State) *Term {
				ev := &Ev{x: x, cur: q, old: x.entry, names: x.localNames(fr, L, q), oldNames: x.rootNames, pkg: x.specPkg, oldNext: x.next0}
				v, err := ev.tryVal(c.E)
				if err != "" || len(v.C) != 1 || v.C[0].sort.K != SBV {
					return nil
				}
				return w64(v.C[0], isSigned(v.T))
			}
			if f(est) != nil && f(st) != nil {
				out = append(out, candGen{desc: c.Text, eval: f, user: true})
			}
		}
	}
	for _, con := range x.V.spec.Cands {
		if con.Pkg != x.world {
			continue
		}
		for _, c := range con.clauses("decreases") {
			c := c
			f := func(q *State) *Term {
				nm := x.localNames(fr, L, q)
				for k, v := range x.rootNames {
					if _, ok := nm[k]; !ok {
						nm[k] = v
					}
				}
				ev := &Ev{x: x, cur: q, old: x.entry, names: nm, oldNames: x.rootNames, pkg: con.Pkg, oldNext: x.next0}
				v, err := ev.tryVal(c.E)
				if err != "" || len(v.C) != 1 || v.C[0].sort.K != SBV {
					return nil
				}
				return w64(v.C[0], isSigned(v.T))
			}
			if f(est) != nil && f(st) != nil {
				out = append(out, candGen{desc: c.Text, eval: f})
			}
		}
	}
	for b := range L.blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		c, ok := iff.Cond.(*ssa.BinOp)
		if !ok || !isInt(c.X.Type()) {
			continue
		}
		val := func(v ssa.Value) func(q *State) *Term {
			switch u := v.(type) {
			case *ssa.Phi:
				if u.Block() == L.header {
					return func(q *State) *Term { return w64(q.env[u].C[0], isSigned(u.Type())) }
				}
			case *ssa.BinOp:
				if p, ok := u.X.(*ssa.Phi); ok && p.Block() == L.header {
					if k, ok := u.Y.(*ssa.Const); ok && u.Op == token.ADD {
						_ = k
						return func(q *State) *Term { return w64(q.env[p].C[0], isSigned(p.Type())) }
					}
				}
			}
			if lv := x.invariantVal(est, L, v); lv != nil {
				t := w64(lv.C[0], isSigned(v.Type()))
				return func(q *State) *Term { return t }
			}
			return nil
		}
		fx, fy := val(c.X), val(c.Y)
		if fx == nil || fy == nil {
			continue
		}
		nx, ny := srcName(c.X), srcName(c.Y)
		out = append(out, candGen{desc: ny + " - " + nx, eval: func(q *State) *Term { return Sub(fy(q), fx(q)) }})
		out = append(out, candGen{desc: nx + " - " + ny, eval: func(q *State) *Term { return Sub(fx(q), fy(q)) }})
		out = append(out, candGen{desc: nx + " - " + ny + " + 1", eval: func(q *State) *Term { return Add(Sub(fx(q), fy(q)), C64(1)) }})
		out = append(out, candGen{desc: ny + " - " + nx + " + 1", eval: func(q *State) *Term { return Add(Sub(fy(q), fx(q)), C64(1)) }})
	}
	// string iteration
	for b := range L.blocks {
		for _, in := range b.Instrs {
			if n, ok := in.(*ssa.Next); ok && n.IsString {
				if r, ok := n.Iter.(*ssa.Range); ok && !L.blocks[r.Block()] {
					out = append(out, candGen{desc: "remaining string", eval: func(q *State) *Term {
						it := q.env[r]
						if it == nil || len(it.C) != 4 {
							return nil
						}
						return Sub(it.C[2], it.C[3])
					}})
				}
			}
		}
	}
	for i := range out {
		_ = i
	}
	return out
}
