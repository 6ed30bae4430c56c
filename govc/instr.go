package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- control flow

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *Loop
}

type cfgInfo struct {
	rpo    []*ssa.BasicBlock
	loops  map[*ssa.BasicBlock]*Loop // by header
	inner  map[*ssa.BasicBlock]*Loop // innermost loop of a block
	irred  bool
	hasRec bool
}

var cfgCache = map[*ssa.Function]*cfgInfo{}

func cfg(fn *ssa.Function) *cfgInfo {
	if c, ok := cfgCache[fn]; ok {
		return c
	}
	c := &cfgInfo{loops: map[*ssa.BasicBlock]*Loop{}, inner: map[*ssa.BasicBlock]*Loop{}}
	cfgCache[fn] = c
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	onstack := map[*ssa.BasicBlock]bool{}
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		onstack[b] = true
		for _, s := range b.Succs {
			if onstack[s] && !s.Dominates(b) {
				c.irred = true
			}
			if !seen[s] {
				dfs(s)
			}
		}
		onstack[b] = false
		post = append(post, b)
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	for i := len(post) - 1; i >= 0; i-- {
		c.rpo = append(c.rpo, post[i])
	}
	for _, b := range c.rpo {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				L := c.loops[h]
				if L == nil {
					L = &Loop{header: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
					c.loops[h] = L
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					n := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if L.blocks[n] {
						continue
					}
					L.blocks[n] = true
					stack = append(stack, n.Preds...)
				}
			}
		}
	}
	for _, b := range c.rpo {
		var best *Loop
		for _, L := range c.loops {
			if L.blocks[b] && (best == nil || len(L.blocks) < len(best.blocks)) {
				best = L
			}
		}
		if best != nil {
			c.inner[b] = best
		}
	}
	for _, L := range c.loops {
		var best *Loop
		for _, M := range c.loops {
			if M != L && M.blocks[L.header] && (best == nil || len(M.blocks) < len(best.blocks)) {
				best = M
			}
		}
		L.parent = best
	}
	return c
}

type Ret struct {
	pc   *Term
	st   *State
	vals []*Val
	pos  token.Pos
}

type Frame struct {
	fn     *ssa.Function
	rets   []Ret
	caller *Frame
	debug  map[string][]ssa.Value
}

// execFn runs the body of fn
func (x *Exec) execFn(fn *ssa.Function, args, binds []*Val, pc *Term, heap *State, caller *Frame) []Ret {
	fr := &Frame{fn: fn, caller: caller}
	st := &State{heap: map[string]*Term{}, env: map[ssa.Value]*Val{}}
	for k, v := range heap.heap {
		st.heap[k] = v
	}
	for i, p := range fn.Params {
		st.env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		if i < len(binds) {
			st.env[f] = binds[i]
		}
	}
	if cfg(fn).irred {
		x.unsupported(pc, "irreducible control flow in "+fn.Name())
		return nil
	}
	x.region(fr, nil, fn.Blocks[0], st, pc)
	return fr.rets
}

// region executes the blocks of a loop (or of the whole function when L is
// nil) starting at block h in state st; returns the exit and back edges
func (x *Exec) region(fr *Frame, L *Loop, h *ssa.BasicBlock, st *State, pc *Term) (map[*ssa.BasicBlock][]Edge, []Edge) {
	ci := cfg(fr.fn)
	pend := map[*ssa.BasicBlock][]Edge{}
	exits := map[*ssa.BasicBlock][]Edge{}
	var backs []Edge
	route := func(to *ssa.BasicBlock, e Edge) {
		if e.pc == False {
			return
		}
		if L != nil && to == L.header {
			backs = append(backs, e)
		} else if L != nil && !L.blocks[to] {
			exits[to] = append(exits[to], e)
		} else {
			pend[to] = append(pend[to], e)
		}
	}
	for _, b := range ci.rpo {
		if L != nil && !L.blocks[b] {
			continue
		}
		inner := ci.inner[b]
		if inner != L {
			// belongs to an inner loop: find the child of L containing it
			c := inner
			for c != nil && c.parent != L {
				c = c.parent
			}
			if c == nil || c.header != b {
				continue
			}
			es := pend[b]
			if len(es) == 0 {
				continue
			}
			delete(pend, b)
			ex := x.loop(fr, c, es)
			var tos []*ssa.BasicBlock
			for to := range ex {
				tos = append(tos, to)
			}
			sort.Slice(tos, func(i, j int) bool { return tos[i].Index < tos[j].Index })
			for _, to := range tos {
				for _, e := range ex[to] {
					route(to, e)
				}
			}
			continue
		}
		var bst *State
		var bpc *Term
		if b == h {
			bst, bpc = st, pc
		} else {
			es := pend[b]
			if len(es) == 0 {
				continue
			}
			bst, bpc = x.enter(b, es)
		}
		x.block(fr, b, bst, bpc, route)
		if x.stop {
			return exits, backs
		}
	}
	return exits, backs
}

func (x *Exec) enter(b *ssa.BasicBlock, es []Edge) (*State, *Term) {
	st, pc := x.mergeEdges(es)
	var pcs []*Term
	for _, e := range es {
		pcs = append(pcs, e.pc)
	}
	nv := map[*ssa.Phi]*Val{}
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var vals []*Val
		for _, e := range es {
			vals = append(vals, x.val(e.st, phi.Edges[e.pidx]))
		}
		nv[phi] = x.iteVals(pcs, vals)
	}
	for p, v := range nv {
		st.env[p] = v
	}
	return st, pc
}

func predIndex(from, to *ssa.BasicBlock, succIdx int) int {
	// the occurrence number of the edge among duplicate edges
	n := 0
	for i := 0; i < succIdx; i++ {
		if from.Succs[i] == to {
			n++
		}
	}
	for i, p := range to.Preds {
		if p == from {
			if n == 0 {
				return i
			}
			n--
		}
	}
	return -1
}

func (x *Exec) block(fr *Frame, b *ssa.BasicBlock, st *State, pc *Term, route func(*ssa.BasicBlock, Edge)) {
	for _, in := range b.Instrs {
		if p := in.Pos(); p.IsValid() {
			x.curPos = p
		}
		switch i := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := x.use(st, pc, i.Cond).C[0]
			route(b.Succs[0], Edge{b, predIndex(b, b.Succs[0], 0), And(pc, c), st})
			s2 := st
			if b.Succs[0] == b.Succs[1] {
				s2 = st.clone()
			}
			route(b.Succs[1], Edge{b, predIndex(b, b.Succs[1], 1), And(pc, Not(c)), s2})
			return
		case *ssa.Jump:
			route(b.Succs[0], Edge{b, predIndex(b, b.Succs[0], 0), pc, st})
			return
		case *ssa.Return:
			var vs []*Val
			for _, r := range i.Results {
				vs = append(vs, x.use(st, pc, r))
			}
			fr.rets = append(fr.rets, Ret{pc, st, vs, i.Pos()})
			return
		case *ssa.Panic:
			x.safety(pc, False, "explicit panic is unreachable")
			return
		default:
			pc = x.instr(fr, in, st, pc)
			if pc == False {
				return
			}
		}
	}
}

func (x *Exec) safety(pc, cond *Term, desc string) {
	if Implies(pc, cond) == True {
		x.trivial++
		return
	}
	x.require("safety", pc, cond, desc)
}

// use fetches an operand, reporting values outside the subset
func (x *Exec) use(st *State, pc *Term, v ssa.Value) *Val {
	r := x.val(st, v)
	if r.Bad != "" {
		x.unsupported(pc, r.Bad)
		n := x.freshVal("bad", v.Type())
		st.env[v] = n
		return n
	}
	return r
}

// ---------------------------------------------------------------- loops

func (x *Exec) loop(fr *Frame, L *Loop, in []Edge) map[*ssa.BasicBlock][]Edge {
	if ex, ok := x.unroll(fr, L, in); ok {
		return ex
	}
	return x.cut(fr, L, in)
}

type snapshot struct {
	nf, no, nl, nr, nc, nu int
	seq                    int
	base, next             *Term
	off                    uint64
	triv                   int
	wf                     map[*Term]bool
}

func (x *Exec) snap(fr *Frame) snapshot {
	w := make(map[*Term]bool, len(x.wfSeen))
	for k := range x.wfSeen {
		w[k] = true
	}
	return snapshot{len(x.facts), len(x.obls), len(x.loops), len(fr.rets), len(x.covers), len(x.unsup), x.seq, x.base, x.nextCur, x.off, x.trivial, w}
}
func (x *Exec) rollback(fr *Frame, s snapshot) {
	x.facts, x.obls, x.loops, fr.rets = x.facts[:s.nf], x.obls[:s.no], x.loops[:s.nl], fr.rets[:s.nr]
	x.covers = x.covers[:s.nc]
	for k := range x.factCand {
		if k >= s.nf {
			delete(x.factCand, k)
		}
	}
	x.base, x.nextCur, x.off, x.trivial = s.base, s.next, s.off, s.triv
	x.wfSeen = s.wf
	// sequence numbers stay monotone: reuse would confuse refDistinct
	nb := Fresh("next@", BV32)
	x.facts = append(x.facts, mk(OUle, BoolS, "", 0, x.nextCur, nb), mk(OUlt, BoolS, "", 0, nb, C(32, 0x40000000)))
	x.seq++
	x.base, x.off, x.nextCur = nb, 0, nb
	nextSeqOf[nb] = x.seq
}

const unrollMax = 48

func (x *Exec) unroll(fr *Frame, L *Loop, in []Edge) (map[*ssa.BasicBlock][]Edge, bool) {
	// only loops whose control folds to constants
	if !x.V.mayUnroll(L) {
		return nil, false
	}
	s := x.snap(fr)
	exits := map[*ssa.BasicBlock][]Edge{}
	cur := in
	for k := 0; ; k++ {
		if k > unrollMax {
			x.rollback(fr, s)
			return nil, false
		}
		var cl []Edge
		for _, e := range cur {
			e.st = e.st.clone()
			cl = append(cl, e)
		}
		st, pc := x.enter(L.header, cl)
		// decide: header condition must be constant
		nf := len(x.facts)
		x.hdrConst = nil
		ex, backs := x.region(fr, L, L.header, st, pc)
		_ = nf
		for to, es := range ex {
			exits[to] = append(exits[to], es...)
		}
		if x.hdrNonConst(L, st) {
			x.rollback(fr, s)
			return nil, false
		}
		if len(backs) == 0 {
			return exits, true
		}
		cur = backs
	}
}

// hdrNonConst reports whether the condition of the loop header's branch is not
// a constant in the state after executing the header
func (x *Exec) hdrNonConst(L *Loop, st *State) bool {
	h := L.header
	last := h.Instrs[len(h.Instrs)-1]
	iff, ok := last.(*ssa.If)
	if !ok {
		return true
	}
	if L.blocks[h.Succs[0]] && L.blocks[h.Succs[1]] {
		return true
	}
	c, ok := st.env[iff.Cond]
	if !ok {
		if k, isC := iff.Cond.(*ssa.Const); isC {
			_ = k
			return true
		}
		return true
	}
	if len(c.C) != 1 {
		return true
	}
	return c.C[0] != True && c.C[0] != False
}

func (x *Exec) cut(fr *Frame, L *Loop, in []Edge) map[*ssa.BasicBlock][]Edge {
	est, pc := x.enter(L.header, in)
	h := L.header
	pos := ""
	for _, i := range h.Instrs {
		if i.Pos().IsValid() {
			p := x.V.fset.Position(i.Pos())
			pos = fmt.Sprintf("%s:%d", shortFile(p.Filename), p.Line)
			break
		}
	}
	if pos == "" {
		for b := range L.blocks {
			for _, i := range b.Instrs {
				if i.Pos().IsValid() && pos == "" {
					p := x.V.fset.Position(i.Pos())
					pos = fmt.Sprintf("%s:%d", shortFile(p.Filename), p.Line)
				}
			}
		}
	}
	li := &LoopInst{id: len(x.loops), pos: fmt.Sprintf("%s loop at %s", fr.fn.Name(), pos)}
	x.loops = append(x.loops, li)
	st := est.clone()
	// havoc
	x.bump()
	for _, k := range x.V.loopWrites(x, fr.fn, L) {
		x.havocKey(st, k)
	}
	var phis []*ssa.Phi
	for _, i := range h.Instrs {
		phi, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		ev := est.env[phi]
		nv := x.freshVal(phiName(phi), phi.Type())
		if ev != nil {
			if ev.LV != nil || ev.Bad != "" {
				nv = &Val{T: phi.Type(), Bad: "interior pointer changed by a loop"}
			}
		}
		st.env[phi] = nv
	}
	// string iterators advanced in the loop
	for b := range L.blocks {
		for _, i := range b.Instrs {
			if n, ok := i.(*ssa.Next); ok {
				if r, ok := n.Iter.(*ssa.Range); ok && !L.blocks[r.Block()] {
					if it, ok := st.env[r]; ok && len(it.C) == 4 {
						p := Fresh("iter", BV64)
						x.facts = append(x.facts, Sle(C64(0), p), Sle(p, it.C[2]))
						c := *it
						c.C = []*Term{it.C[0], it.C[1], it.C[2], p}
						c.Str = it.Str
						st.env[r] = &c
					}
				}
			}
		}
	}
	// unfoldings of recursively defined specification functions
	if x.con != nil {
		for _, c := range x.con.clauses("define") {
			for _, q := range []*State{est, st} {
				ev := &Ev{x: x, cur: q, old: x.entry, names: x.localNames(fr, L, q), oldNames: x.rootNames, pkg: x.specPkg, oldNext: x.next0}
				if t, err := ev.try(c.E); err == "" {
					x.assume(True, t)
				}
			}
		}
	}
	// candidate invariants
	for _, c := range x.genCands(fr, L, phis, est, st, pc) {
		c := c
		ti := c.eval(est)
		th := c.eval(st)
		if th == nil || ti == nil || th == True || ti == False {
			continue
		}
		cd := &Cand{sel: Fresh("inv", BoolS), desc: c.desc, alive: true, user: c.user, eval: c.eval, labels: c.labels}
		li.cands = append(li.cands, cd)
		if o := x.obligation(&Obl{Kind: "inv-init", PC: pc, Cond: ti, Desc: "loop invariant holds on entry: " + c.desc, Pos: li.pos}); o != nil {
			o.Cand = len(li.cands) - 1
			o.Loop = li
		}
		if x.factCand == nil {
			x.factCand = map[int]*Cand{}
		}
		x.factCand[len(x.facts)] = cd
		x.facts = append(x.facts, Implies(And(pc, cd.sel), th))
	}
	for _, m := range x.genMeas(fr, L, phis, est, st, pc) {
		t := m.eval(st)
		if t == nil {
			continue
		}
		li.meas = append(li.meas, &Meas{desc: m.desc, head: t, eval: m.eval})
	}
	x.covers = append(x.covers, pc)
	head := st.clone()
	ex, backs := x.region(fr, L, h, st, pc)
	li.back = len(backs)
	for _, e := range backs {
		bs := e.st.clone()
		nv := map[*ssa.Phi]*Val{}
		for _, phi := range phis {
			nv[phi] = x.val(e.st, phi.Edges[e.pidx])
		}
		for p, v := range nv {
			bs.env[p] = v
		}
		for ci, c := range li.cands {
			t := c.eval(bs)
			if t == nil {
				t = False
			}
			if o := x.obligation(&Obl{Kind: "inv-pres", PC: e.pc, Cond: t, Desc: "loop invariant preserved: " + c.desc, Pos: li.pos}); o != nil {
				o.Cand = ci
				o.Loop = li
			}
		}
		for mi, m := range li.meas {
			t := m.eval(bs)
			if t == nil {
				continue
			}
			if o := x.obligation(&Obl{Kind: "term", PC: e.pc, Cond: And(Sle(C(m.head.sort.W, 0), m.head), Slt(t, m.head)), Desc: "loop measure decreases: " + m.desc, Pos: li.pos}); o != nil {
				o.Loop = li
				o.Meas = mi
			}
		}
		if len(li.meas) == 0 {
			if o := x.obligation(&Obl{Kind: "term", PC: e.pc, Cond: False, Desc: "loop has a measure", Pos: li.pos}); o != nil {
				o.Loop = li
				o.Meas = 0
			}
		}
	}
	_ = head
	return ex
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

// havocKey forgets what a key holds at every location the function may write
func (x *Exec) havocKey(st *State, k keyInfo) {
	switch k.key[0] {
	case 'G':
		st.heap[k.key] = Fresh(k.key+"@", k.sort)
		varHi[st.heap[k.key]] = x.seq
	default:
		old := x.get(st, k.key, k.sort)
		nw := x.newMap(k.key, k.sort)
		r := BoundVar("r", BV32)
		st.heap[k.key] = Mix(old, nw, r, x.allowed(k.key, r))
	}
}

// ---------------------------------------------------------------- instructions

func (x *Exec) nilCheck(pc *Term, ref *Term, what string) {
	x.safety(pc, Neq(ref, C(32, 0)), "no nil dereference: "+what)
}

func (x *Exec) ptrTarget(st *State, pc *Term, v ssa.Value) *Val { return x.use(st, pc, v) }

func derefT(T types.Type) types.Type { return T.Underlying().(*types.Pointer).Elem() }

func (x *Exec) instr(fr *Frame, in ssa.Instruction, st *State, pc *Term) *Term {
	set := func(v ssa.Value, r *Val) { st.env[v] = r }
	switch i := in.(type) {
	case *ssa.Alloc:
		T := derefT(i.Type())
		x.V.noteType(T)
		r := x.alloc()
		x.storeObj(st, T, r, zeroVal(T))
		av := &Val{T: i.Type(), C: []*Term{r}}
		set(i, av)
		if im := x.V.implOf(i.Type()); im != nil && im.Pkg != x.world {
			if m := x.V.spec.Models[im.Pkg+"."+im.Iface]; m != nil && m.Zero != nil {
				ev := &Ev{x: x, cur: st, names: map[string]*Val{m.Self: av}, pkg: im.Pkg}
				if t, err := ev.try(m.Zero); err == "" {
					x.assume(pc, t)
				} else {
					x.specError(pc, "zero value of "+im.Type, err)
				}
			}
		}
	case *ssa.BinOp:
		set(i, x.binop(st, pc, i))
	case *ssa.UnOp:
		a := x.use(st, pc, i.X)
		switch i.Op {
		case token.MUL:
			set(i, x.load(st, pc, a, i.Type()))
		case token.NOT:
			set(i, &Val{T: i.Type(), C: []*Term{Not(a.C[0])}})
		case token.SUB:
			set(i, &Val{T: i.Type(), C: []*Term{Neg(a.C[0])}})
		case token.XOR:
			set(i, &Val{T: i.Type(), C: []*Term{BNot(a.C[0])}})
		default:
			set(i, &Val{T: i.Type(), Bad: "operator " + i.Op.String()})
		}
	case *ssa.Call:
		r, npc := x.call(fr, &i.Call, i, st, pc)
		if r != nil {
			set(i, r)
		}
		return npc
	case *ssa.ChangeType:
		a := *x.use(st, pc, i.X)
		a.T = i.Type()
		set(i, &a)
	case *ssa.ChangeInterface:
		a := *x.use(st, pc, i.X)
		a.T = i.Type()
		set(i, &a)
	case *ssa.Convert:
		set(i, x.convert(st, pc, x.use(st, pc, i.X), i.Type()))
	case *ssa.Extract:
		t := x.use(st, pc, i.Tuple)
		if t.parts != nil {
			set(i, t.parts[i.Index])
		} else {
			set(i, tupleParts(t)[i.Index])
		}
	case *ssa.Field:
		a := x.use(st, pc, i.X)
		o, n := fieldRange(i.X.Type(), i.Field)
		set(i, &Val{T: i.Type(), C: a.C[o : o+n]})
	case *ssa.FieldAddr:
		a := x.use(st, pc, i.X)
		S := derefT(i.X.Type())
		x.V.noteType(S)
		o, _ := fieldRange(S, i.Field)
		FT := derefT(i.Type())
		if a.LV != nil {
			lv := *a.LV
			lv.off += o
			lv.T = FT
			set(i, &Val{T: i.Type(), C: a.C, LV: &lv})
		} else {
			x.nilCheck(pc, a.C[0], i.X.Name()+"."+S.Underlying().(*types.Struct).Field(i.Field).Name())
			set(i, &Val{T: i.Type(), C: a.C, LV: &LV{kind: "F", key: typeKey(S), ref: a.C[0], off: o, T: FT}})
		}
	case *ssa.Index:
		a := x.use(st, pc, i.X)
		ix := x.idx(st, pc, i.Index)
		if isString(i.X.Type()) {
			x.safety(pc, And(Sle(C64(0), ix), Slt(ix, a.C[2])), "string index in range")
			set(i, &Val{T: i.Type(), C: []*Term{Select(x.strContent(a.C[0]), Add(a.C[1], ix))}})
		} else if at, ok := i.X.Type().Underlying().(*types.Array); ok {
			x.safety(pc, And(Sle(C64(0), ix), Slt(ix, C64(at.Len()))), "array index in range")
			v := &Val{T: i.Type()}
			for _, c := range a.C {
				v.C = append(v.C, Select(c, ix))
			}
			set(i, v)
		} else {
			set(i, &Val{T: i.Type(), Bad: "index"})
		}
	case *ssa.Lookup:
		a := x.use(st, pc, i.X)
		if isString(i.X.Type()) {
			ix := x.idx(st, pc, i.Index)
			x.safety(pc, And(Sle(C64(0), ix), Slt(ix, a.C[2])), "string index in range")
			set(i, &Val{T: i.Type(), C: []*Term{Select(x.strContent(a.C[0]), Add(a.C[1], ix))}})
		} else {
			// map lookup: nothing is known about the value (absent keys give the zero value)
			set(i, x.freshVal("maplookup", i.Type()))
		}
	case *ssa.IndexAddr:
		a := x.use(st, pc, i.X)
		ix := x.idx(st, pc, i.Index)
		switch u := i.X.Type().Underlying().(type) {
		case *types.Slice:
			x.V.noteType(u.Elem())
			x.safety(pc, And(Sle(C64(0), ix), Slt(ix, a.C[2])), "slice index in range: "+srcName(i.X)+"["+srcName(i.Index)+"]")
			set(i, &Val{T: i.Type(), C: []*Term{C32(1)}, LV: &LV{kind: "E", key: typeKey(u.Elem()), ref: a.C[0], idx: Add(a.C[1], ix), T: u.Elem()}})
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			x.V.noteType(at.Elem())
			x.safety(pc, And(Sle(C64(0), ix), Slt(ix, C64(at.Len()))), "array index in range")
			if a.LV != nil {
				set(i, &Val{T: i.Type(), Bad: "element of an array inside an object"})
			} else {
				set(i, &Val{T: i.Type(), C: []*Term{C32(1)}, LV: &LV{kind: "E", key: typeKey(at.Elem()), ref: a.C[0], idx: ix, T: at.Elem()}})
			}
		}
	case *ssa.Slice:
		set(i, x.slice(st, pc, i))
	case *ssa.MakeSlice:
		T := i.Type().Underlying().(*types.Slice)
		x.V.noteType(T.Elem())
		l, c := x.idx(st, pc, i.Len), x.idx(st, pc, i.Cap)
		x.safety(pc, And(Sle(C64(0), l), Sle(l, c), Sle(c, C64(maxLen))), "make: length and capacity in range")
		r := x.alloc()
		for k, cc := range comps(T.Elem()) {
			key := ekey(T.Elem(), k)
			x.setHeap(st, key, Store(x.get(st, key, ArrS(BV32, ArrS(BV64, cc.s))), r, zeroOf(ArrS(BV64, cc.s))))
		}
		x.own(r)
		set(i, &Val{T: i.Type(), C: []*Term{r, C64(0), l, c}})
	case *ssa.MakeClosure:
		var b []*Val
		for _, v := range i.Bindings {
			b = append(b, x.val(st, v))
		}
		f := i.Fn.(*ssa.Function)
		set(i, &Val{T: i.Type(), C: []*Term{x.fnID(f)}, Fn: &FnVal{fn: f, binds: b}})
	case *ssa.MakeInterface:
		a := x.use(st, pc, i.X)
		set(i, x.makeIface(st, a, i.Type()))
	case *ssa.TypeAssert:
		set(i, x.typeAssert(st, pc, i))
	case *ssa.Range:
		a := x.use(st, pc, i.X)
		if isString(i.X.Type()) {
			set(i, &Val{T: i.X.Type(), C: []*Term{a.C[0], a.C[1], a.C[2], C64(0)}, Str: a.Str})
		} else {
			set(i, &Val{T: i.Type(), Bad: "range over a map"})
		}
	case *ssa.Next:
		it := x.use(st, pc, i.Iter)
		if !i.IsString {
			set(i, &Val{T: i.Type(), Bad: "range over a map"})
			break
		}
		pos := it.C[3]
		var r, wd *Term
		ok := Slt(pos, it.C[2])
		if it.Str != nil && pos.op == OConst {
			s := *it.Str
			p := int(pos.val)
			if p < len(s) {
				ru, n := utf8.DecodeRuneInString(s[p:])
				r, wd = C(32, uint64(uint32(ru))), C64(int64(n))
			} else {
				r, wd = C32(0), C64(0)
			}
		} else {
			b := Select(x.strContent(it.C[0]), Add(it.C[1], pos))
			hi := Fresh("rune", BV32)
			hw := Fresh("width", BV64)
			x.facts = append(x.facts, Sle(C32(0x80), hi), Sle(hi, C32(0x10FFFF)), Sle(C64(1), hw), Sle(hw, C64(4)))
			small := Ult(b, C(8, 0x80))
			x.assume(And(pc, ok, Not(small)), Sle(Add(pos, hw), it.C[2]))
			r = Ite(small, Zext(b, 32), hi)
			wd = Ite(small, C64(1), hw)
			r = Ite(ok, r, C32(0))
		}
		nit := *it
		nit.C = []*Term{it.C[0], it.C[1], it.C[2], Ite(ok, Add(pos, wd), pos)}
		st.env[i.Iter] = &nit
		set(i, &Val{T: i.Type(), parts: []*Val{{T: types.Typ[types.Bool], C: []*Term{ok}}, {T: types.Typ[types.Int], C: []*Term{pos}}, {T: types.Typ[types.Rune], C: []*Term{r}}}, C: []*Term{ok, pos, r}})
	case *ssa.Store:
		a := x.use(st, pc, i.Addr)
		v := x.val(st, i.Val)
		if v.Bad != "" {
			x.unsupported(pc, v.Bad)
			v = x.freshVal("bad", i.Val.Type())
		}
		if v.LV != nil {
			x.unsupported(pc, "interior pointer stored in memory")
		}
		x.store(st, pc, a, v, i.Addr)
	case *ssa.RunDefers:
	case *ssa.MapUpdate:
		x.unsupported(pc, "map update")
	default:
		x.unsupported(pc, fmt.Sprintf("%T", in))
		if v, ok := in.(ssa.Value); ok {
			set(v, &Val{T: v.Type(), Bad: fmt.Sprintf("%T", in)})
		}
	}
	return pc
}

func srcName(v ssa.Value) string {
	switch u := v.(type) {
	case *ssa.UnOp:
		if f, ok := u.X.(*ssa.FieldAddr); ok {
			return srcName(f.X) + "." + derefT(f.X.Type()).Underlying().(*types.Struct).Field(f.Field).Name()
		}
		if ia, ok := u.X.(*ssa.IndexAddr); ok {
			return srcName(ia.X) + "[" + srcName(ia.Index) + "]"
		}
	case *ssa.BinOp:
		return srcName(u.X) + u.Op.String() + srcName(u.Y)
	case *ssa.Const:
		if u.Value != nil {
			return u.Value.String()
		}
	case *ssa.Phi:
		return phiName(u)
	case *ssa.Parameter:
		return u.Name()
	case *ssa.Convert:
		return srcName(u.X)
	}
	return v.Name()
}

func (x *Exec) idx(st *State, pc *Term, v ssa.Value) *Term {
	a := x.use(st, pc, v)
	t := a.C[0]
	if t.sort.W < 64 {
		if isSigned(v.Type()) {
			return Sext(t, 64)
		}
		return Zext(t, 64)
	}
	if !isSigned(v.Type()) {
		// huge unsigned values are out of range anyway: keep as is (negative when reinterpreted)
		return t
	}
	return t
}

func (x *Exec) ownerTerm() *Term {
	if x.owner != nil {
		return x.owner
	}
	return C32(0)
}

func (x *Exec) own(r *Term) {
	if x.owner != nil {
		x.facts = append(x.facts, Eq(App("owner", BV32, r), x.owner))
	} else {
		x.facts = append(x.facts, Eq(App("owner", BV32, r), C32(0)))
	}
}

func (x *Exec) load(st *State, pc *Term, a *Val, T types.Type) *Val {
	if a.LV != nil {
		v := x.loadLV(st, a.LV)
		v.T = T
		return v
	}
	x.nilCheck(pc, a.C[0], "load")
	x.V.noteType(T)
	v := x.loadObj(st, T, a.C[0])
	if fv, ok := x.fnCells[a.C[0]]; ok {
		v.Fn = fv
	}
	return v
}

func (x *Exec) store(st *State, pc *Term, a, v *Val, addr ssa.Value) {
	if a.LV != nil {
		n := len(comps(a.LV.T))
		switch a.LV.kind {
		case "F":
			S := x.V.typeByKey[a.LV.key]
			for k := a.LV.off; k < a.LV.off+n; k++ {
				x.checkWrite(pc, fkey(S, k), a.LV.ref, srcField(addr))
			}
		case "E":
			S := x.V.typeByKey[a.LV.key]
			x.checkWrite(pc, ekey(S, a.LV.off), a.LV.ref, srcField(addr))
		case "G":
			ok := false
			for _, p := range x.writable {
				if p.prefix == fmt.Sprintf("G:%s#%d", a.LV.key, a.LV.off) {
					ok = true
				}
			}
			if !ok && x.root.Name() != "init" {
				x.obligation(&Obl{Kind: "frame", PC: pc, Cond: False, Desc: "writes the package variable " + a.LV.key})
			}
		}
		x.storeLV(st, a.LV, v)
		return
	}
	x.nilCheck(pc, a.C[0], "store")
	T := derefT(addr.Type())
	x.V.noteType(T)
	switch T.Underlying().(type) {
	case *types.Struct:
		for k := range comps(T) {
			x.checkWrite(pc, fkey(T, k), a.C[0], srcField(addr))
		}
	case *types.Array:
	default:
		x.checkWrite(pc, pkey(T, 0), a.C[0], srcField(addr))
	}
	if v.Fn != nil {
		if x.fnCells == nil {
			x.fnCells = map[*Term]*FnVal{}
		}
		x.fnCells[a.C[0]] = v.Fn
	}
	x.storeObj(st, T, a.C[0], v)
}

func srcField(v ssa.Value) string {
	switch u := v.(type) {
	case *ssa.FieldAddr:
		return srcName(u.X) + "." + derefT(u.X.Type()).Underlying().(*types.Struct).Field(u.Field).Name()
	case *ssa.IndexAddr:
		return srcName(u.X) + "[" + srcName(u.Index) + "]"
	}
	return v.Name()
}

func (x *Exec) slice(st *State, pc *Term, i *ssa.Slice) *Val {
	a := x.use(st, pc, i.X)
	var lo, hi *Term
	lo = C64(0)
	if i.Low != nil {
		lo = x.idx(st, pc, i.Low)
	}
	if i.High != nil {
		hi = x.idx(st, pc, i.High)
	}
	switch u := i.X.Type().Underlying().(type) {
	case *types.Basic: // string
		if hi == nil {
			hi = a.C[2]
		}
		x.safety(pc, And(Sle(C64(0), lo), Sle(lo, hi), Sle(hi, a.C[2])), "string slice bounds in range")
		if a.Str != nil && lo.op == OConst && hi.op == OConst && int(lo.val) <= int(hi.val) && int(hi.val) <= len(*a.Str) {
			return x.strVal((*a.Str)[lo.val:hi.val], i.Type())
		}
		return &Val{T: i.Type(), C: []*Term{a.C[0], Add(a.C[1], lo), Sub(hi, lo)}}
	case *types.Slice:
		if hi == nil {
			hi = a.C[2]
		}
		cp := a.C[3]
		if i.Max != nil {
			m := x.idx(st, pc, i.Max)
			x.safety(pc, And(Sle(hi, m), Sle(m, a.C[3])), "slice bounds in range (max)")
			cp = m
		}
		x.safety(pc, And(Sle(C64(0), lo), Sle(lo, hi), Sle(hi, a.C[3])), "slice bounds in range")
		if c := Implies(pc, Sle(hi, a.C[2])); c != True {
			x.obligation(&Obl{Kind: "unsupported", PC: pc, Cond: Sle(hi, a.C[2]), Desc: "slice expression stays within the length (elements between length and capacity are outside the subset)"})
			x.assume(pc, Sle(hi, a.C[2]))
		}
		return &Val{T: i.Type(), C: []*Term{a.C[0], Add(a.C[1], lo), Sub(hi, lo), Sub(cp, lo)}}
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		if a.LV != nil {
			return &Val{T: i.Type(), Bad: "slice of an array inside an object"}
		}
		n := C64(at.Len())
		if hi == nil {
			hi = n
		}
		x.safety(pc, And(Sle(C64(0), lo), Sle(lo, hi), Sle(hi, n)), "array slice bounds in range")
		x.own(a.C[0])
		return &Val{T: i.Type(), C: []*Term{a.C[0], lo, Sub(hi, lo), Sub(n, lo)}}
	}
	return &Val{T: i.Type(), Bad: "slice expression"}
}

func (x *Exec) makeIface(st *State, a *Val, T types.Type) *Val {
	if isIface(a.T) {
		return &Val{T: T, C: a.C}
	}
	tag := x.V.tag(a.T)
	if _, ok := a.T.Underlying().(*types.Pointer); ok {
		if a.LV != nil {
			return &Val{T: T, Bad: "interior pointer converted to an interface"}
		}
		return &Val{T: T, C: []*Term{tag, a.C[0]}}
	}
	r := x.alloc()
	x.V.noteType(a.T)
	if a.Fn != nil {
		return &Val{T: T, Bad: "function converted to an interface"}
	}
	x.storeObj(st, a.T, r, a)
	return &Val{T: T, C: []*Term{tag, r}}
}

func (x *Exec) typeAssert(st *State, pc *Term, i *ssa.TypeAssert) *Val {
	a := x.use(st, pc, i.X)
	var ok *Term
	var v *Val
	if isIface(i.AssertedType) {
		var alts []*Term
		known := false
		for _, t := range x.V.tagged() {
			if types.Implements(t, i.AssertedType.Underlying().(*types.Interface)) {
				alts = append(alts, Eq(a.C[0], x.V.tag(t)))
			}
			known = true
		}
		_ = known
		u := Fresh("implements", BoolS)
		ok = And(Neq(a.C[0], C32(0)), Or(append(alts, u)...))
		v = &Val{T: i.AssertedType, C: []*Term{Ite(ok, a.C[0], C32(0)), Ite(ok, a.C[1], C32(0))}}
	} else {
		ok = Eq(a.C[0], x.V.tag(i.AssertedType))
		if _, isP := i.AssertedType.Underlying().(*types.Pointer); isP {
			v = &Val{T: i.AssertedType, C: []*Term{Ite(ok, a.C[1], C32(0))}}
		} else {
			x.V.noteType(i.AssertedType)
			o := x.loadObj(st, i.AssertedType, a.C[1])
			v = &Val{T: i.AssertedType}
			for k, c := range o.C {
				v.C = append(v.C, Ite(ok, c, zeroOf(comps(i.AssertedType)[k].s)))
			}
		}
	}
	if i.CommaOk {
		return &Val{T: i.Type(), parts: []*Val{v, {T: types.Typ[types.Bool], C: []*Term{ok}}}, C: append(append([]*Term{}, v.C...), ok)}
	}
	x.safety(pc, ok, "type assertion to "+typeKey(i.AssertedType))
	return v
}

func (x *Exec) convert(st *State, pc *Term, a *Val, T types.Type) *Val {
	S := a.T
	switch {
	case isInt(S) && isInt(T):
		w := comps(T)[0].s.W
		t := a.C[0]
		if w < t.sort.W {
			t = Extract(w-1, 0, t)
		} else if w > t.sort.W {
			if isSigned(S) {
				t = Sext(t, w)
			} else {
				t = Zext(t, w)
			}
		}
		return &Val{T: T, C: []*Term{t}}
	case isString(S) && isString(T):
		c := *a
		c.T = T
		return &c
	case isString(T) && isByteSlice(S):
		r := x.freshRef("str")
		x.facts = append(x.facts, Ult(r, C(32, 0x80000000)))
		if x.strAlias == nil {
			x.strAlias = map[*Term]*Term{}
		}
		x.strAlias[r] = Select(x.get(st, ekey(types.Typ[types.Uint8], 0), ArrS(BV32, ArrS(BV64, BV8))), a.C[0])
		return &Val{T: T, C: []*Term{r, a.C[1], a.C[2]}}
	case isString(S) && isByteSlice(T):
		r := x.alloc()
		k := ekey(types.Typ[types.Uint8], 0)
		x.V.noteType(types.Typ[types.Uint8])
		x.setHeap(st, k, Store(x.get(st, k, ArrS(BV32, ArrS(BV64, BV8))), r, x.strContent(a.C[0])))
		x.own(r)
		return &Val{T: T, C: []*Term{r, a.C[1], a.C[2], a.C[2]}}
	case isString(T) && isInt(S):
		v := x.freshVal("runestr", T)
		x.facts = append(x.facts, Sle(C64(1), v.C[2]), Sle(v.C[2], C64(4)))
		return v
	}
	if len(comps(S)) == len(comps(T)) {
		same := true
		for i := range comps(S) {
			if comps(S)[i].s != comps(T)[i].s {
				same = false
			}
		}
		if same && typeKey(S.Underlying()) == typeKey(T.Underlying()) {
			c := *a
			c.T = T
			return &c
		}
	}
	return &Val{T: T, Bad: fmt.Sprintf("conversion %s to %s", S, T)}
}

func isByteSlice(T types.Type) bool {
	s, ok := T.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (x *Exec) binop(st *State, pc *Term, i *ssa.BinOp) *Val {
	a, b := x.use(st, pc, i.X), x.use(st, pc, i.Y)
	T := i.Type()
	bv := func(t *Term) *Val { return &Val{T: T, C: []*Term{t}} }
	switch i.Op {
	case token.EQL, token.NEQ:
		t := x.eqVals(st, a, b)
		if t == nil {
			return &Val{T: T, Bad: "comparison of " + a.T.String()}
		}
		if i.Op == token.NEQ {
			t = Not(t)
		}
		return bv(t)
	}
	if isString(i.X.Type()) {
		switch i.Op {
		case token.ADD:
			if a.Str != nil && b.Str != nil {
				return x.strVal(*a.Str+*b.Str, T)
			}
			v := x.freshVal("concat", T)
			x.assume(pc, Eq(v.C[2], Add(a.C[2], b.C[2])))
			return v
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return bv(Fresh("strcmp", BoolS))
		}
	}
	if !isInt(i.X.Type()) {
		return &Val{T: T, Bad: "operator on " + i.X.Type().String()}
	}
	s := isSigned(i.X.Type())
	p, q := a.C[0], b.C[0]
	switch i.Op {
	case token.ADD:
		return bv(Add(p, q))
	case token.SUB:
		return bv(Sub(p, q))
	case token.MUL:
		return bv(Bin(OMul, p, q))
	case token.QUO, token.REM:
		x.safety(pc, Neq(q, C(q.sort.W, 0)), "no division by zero")
		op := OUDiv
		if i.Op == token.REM {
			op = OURem
		}
		if s {
			op = OSDiv
			if i.Op == token.REM {
				op = OSRem
			}
		}
		return bv(Bin(op, p, q))
	case token.AND:
		return bv(Bin(OBAnd, p, q))
	case token.OR:
		return bv(Bin(OBOr, p, q))
	case token.XOR:
		return bv(Bin(OBXor, p, q))
	case token.AND_NOT:
		return bv(Bin(OBAnd, p, BNot(q)))
	case token.SHL, token.SHR:
		if isSigned(i.Y.Type()) {
			x.safety(pc, Sle(C(q.sort.W, 0), q), "no negative shift count")
		}
		return bv(shift(i.Op, p, q, s))
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return bv(cmpInt(i.Op, p, q, s))
	}
	return &Val{T: T, Bad: "operator " + i.Op.String()}
}

func shift(op token.Token, p, q *Term, signed bool) *Term {
	w := p.sort.W
	if q.sort.W > w {
		q = Ite(Ult(q, C(q.sort.W, uint64(w))), Extract(w-1, 0, q), C(w, uint64(w)))
	} else if q.sort.W < w {
		q = Zext(q, w)
	}
	if op == token.SHL {
		return Bin(OShl, p, q)
	}
	if signed {
		return Bin(OAshr, p, q)
	}
	return Bin(OLshr, p, q)
}

func cmpInt(op token.Token, p, q *Term, s bool) *Term {
	switch op {
	case token.GTR:
		p, q = q, p
		op = token.LSS
	case token.GEQ:
		p, q = q, p
		op = token.LEQ
	}
	if op == token.LSS {
		if s {
			return Slt(p, q)
		}
		return Ult(p, q)
	}
	if s {
		return Sle(p, q)
	}
	return Ule(p, q)
}

func isNilConst(v *Val) bool {
	for _, c := range v.C {
		if c.op != OConst || c.val != 0 {
			return false
		}
	}
	return true
}

func (x *Exec) eqVals(st *State, a, b *Val) *Term {
	switch a.T.Underlying().(type) {
	case *types.Slice:
		if isNilConst(a) {
			return Eq(b.C[0], C32(0))
		}
		return Eq(a.C[0], C32(0))
	case *types.Interface:
		if !isIface(b.T) {
			bb := *b
			if _, ok := b.T.Underlying().(*types.Pointer); ok {
				return And(Eq(a.C[0], x.V.tag(b.T)), Eq(a.C[1], bb.C[0]))
			}
			return nil
		}
		if isNilConst(a) {
			return Eq(b.C[0], C32(0))
		}
		if isNilConst(b) {
			return Eq(a.C[0], C32(0))
		}
		return And(Eq(a.C[0], b.C[0]), Eq(a.C[1], b.C[1]))
	case *types.Basic:
		if isString(a.T) {
			if a.Str != nil && b.Str != nil {
				return BoolC(*a.Str == *b.Str)
			}
			if a.Str != nil && *a.Str == "" {
				return Eq(b.C[2], C64(0))
			}
			if b.Str != nil && *b.Str == "" {
				return Eq(a.C[2], C64(0))
			}
			if a.Str != nil && len(*a.Str) <= 64 || b.Str != nil && len(*b.Str) <= 64 {
				if b.Str == nil {
					a, b = b, a
				}
				cs := []*Term{Eq(a.C[2], C64(int64(len(*b.Str))))}
				for k := 0; k < len(*b.Str); k++ {
					cs = append(cs, Eq(Select(x.strContent(a.C[0]), Add(a.C[1], C64(int64(k)))), C(8, uint64((*b.Str)[k]))))
				}
				return And(cs...)
			}
			same := And(Eq(a.C[0], b.C[0]), Eq(a.C[1], b.C[1]), Eq(a.C[2], b.C[2]))
			u := Fresh("streq", BoolS)
			return Or(same, And(Eq(a.C[2], b.C[2]), u))
		}
	case *types.Signature:
		if isNilConst(a) {
			return Eq(b.C[0], C32(0))
		}
		return Eq(a.C[0], C32(0))
	case *types.Pointer:
		if a.LV != nil || b.LV != nil {
			if a.LV != nil && isNilConst(b) && b.LV == nil || b.LV != nil && isNilConst(a) && a.LV == nil {
				return False
			}
			return nil
		}
	}
	if len(a.C) != len(b.C) {
		return nil
	}
	var cs []*Term
	for i := range a.C {
		cs = append(cs, Eq(a.C[i], b.C[i]))
	}
	return And(cs...)
}
