package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- references

// Reference ordering: every allocation and every "next" bound gets a sequence
// number.  refHi(r)=s means r < next(s); refLo(r)=s means r >= next(s).
var (
	nextSeqOf = map[*Term]int{} // next terms
	allocLo   = map[*Term]int{}
	varHi     = map[*Term]int{} // variables (refs) and map variables
)

func resetTerms() {
	termTab = map[string]*Term{}
	selCache = map[[2]*Term]*Term{}
	nextSeqOf = map[*Term]int{}
	allocLo = map[*Term]int{}
	varHi = map[*Term]int{}
	hiCache = map[*Term]int{}
	readAs = map[*Term]*Term{}
	termCount = 0
	freshCtr = 0
	termTab["1"] = True
	True = mk(OTrue, BoolS, "", 0)
	False = mk(OFalse, BoolS, "", 0)
	delete(termTab, "1")
}

var hiCache = map[*Term]int{}

const inf = math.MaxInt32

func refHi(t *Term) int {
	if t.op == OConst {
		if t.val == 0 {
			return 0
		}
		return inf
	}
	if h, ok := hiCache[t]; ok {
		return h
	}
	h := inf
	if lo, ok := allocLo[t]; ok && t.op != OVar {
		h = lo + 1
	} else {
		switch t.op {
		case OVar:
			if v, ok := varHi[t]; ok {
				h = v
			}
		case OSelect:
			h = refHi(t.args[0])
		case OStore:
			h = maxi(refHi(t.args[0]), refHi(t.args[2]))
		case OIte:
			h = maxi(refHi(t.args[1]), refHi(t.args[2]))
		case OMix:
			h = maxi(refHi(t.args[0]), refHi(t.args[1]))
		case OConstArr:
			h = refHi(t.args[0])
		}
	}
	hiCache[t] = h
	return h
}

func maxi(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func init() {
	refDistinct = func(a, b *Term) bool {
		if a.sort != BV32 {
			return false
		}
		if lo, ok := allocLo[a]; ok && refHi(b) <= lo {
			return true
		}
		if lo, ok := allocLo[b]; ok && refHi(a) <= lo {
			return true
		}
		return false
	}
	isRefLo = func(a *Term) bool { _, ok := allocLo[a]; return ok }
	refUlt = func(a, b *Term) *Term {
		s, ok := nextSeqOf[b]
		if !ok {
			return nil
		}
		if refHi(a) <= s {
			return True
		}
		if lo, ok := allocLo[a]; ok && lo >= s {
			return False
		}
		if a.op == OIte {
			return Ite(a.args[0], Ult(a.args[1], b), Ult(a.args[2], b))
		}
		return nil
	}
}

// ---------------------------------------------------------------- state

type State struct {
	heap map[string]*Term
	env  map[ssa.Value]*Val
}

func (s *State) clone() *State {
	n := &State{heap: make(map[string]*Term, len(s.heap)), env: make(map[ssa.Value]*Val, len(s.env))}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.env {
		n.env[k] = v
	}
	return n
}

type Obl struct {
	Fn     string
	Kind   string // safety pre ensures frame inv-init inv-pres term unsupported sep
	Labels []string
	PC     *Term
	Cond   *Term
	NFacts int
	Desc   string
	Pos    string
	Cand   int // candidate index for inv obligations, -1 otherwise
	Loop   *LoopInst
	ID     string
	Status string
	Meas   int
	Callee string
}

type LoopInst struct {
	id    int
	pos   string
	cands []*Cand
	meas  []*Meas
	back  int
}

type Cand struct {
	sel    *Term
	desc   string
	alive  bool
	user   bool
	eval   func(*State) *Term
	labels []string
}
type Meas struct {
	desc string
	head *Term
	eval func(*State) *Term
}

type keyInfo struct {
	key  string
	sort *Sort
}

type Edge struct {
	from *ssa.BasicBlock
	pidx int
	pc   *Term
	st   *State
}

type Exec struct {
	split     int
	inKnown   bool
	knownSeen map[*Term]bool
	V         *Verifier
	root      *ssa.Function
	con       *Contract
	world     string
	facts     []*Term
	obls      []*Obl
	seq       int
	base      *Term
	off       uint64
	nextCur   *Term
	next0     *Term
	initHeap  map[string]*Term
	entry     *State
	params    []*Val
	loops     []*LoopInst
	allCands  []*Cand
	wfSeen    map[*Term]bool
	depth     int
	callStk   []*ssa.Function
	writable  []permEntry
	recvPerm  *Val
	owner     *Term
	unsup     []string
	refTerms  map[*Term]bool
	strIDs    map[string]*Term
	strBy     map[*Term]string
	fnIDs     map[*ssa.Function]int64
	noObl     int
	curPos    token.Pos
	oblN      int
	covers    []*Term
	coverAt   []int
	stop      bool
	used      map[string]bool // contracts used
	inlined   map[string]bool
	trivial   int
	hdrConst  *Term
	fnCells   map[*Term]*FnVal
	strAlias  map[*Term]*Term
	frames    int
	rootNames map[string]*Val
	specPkg   string
	trigs     []*Term
	trigSeen  map[*Term]bool
	verb      bool
	nret      int
	factCand  map[int]*Cand
	slow      []*Obl
}

type permEntry struct {
	prefix string // key prefix such as F:parser.VtdParser. or E:int64# or M:LongBuffer.size
	ref    *Term
	cond   func(r *Term) *Term
	isKey  func(key string) bool
}

func NewExec(v *Verifier, fn *ssa.Function, con *Contract) *Exec {
	x := &Exec{V: v, root: fn, con: con, initHeap: map[string]*Term{}, wfSeen: map[*Term]bool{}, refTerms: map[*Term]bool{},
		strIDs: map[string]*Term{}, strBy: map[*Term]string{}, fnIDs: map[*ssa.Function]int64{}, used: map[string]bool{}, inlined: map[string]bool{}}
	x.base = Var("next@0", BV32)
	x.facts = append(x.facts, mk(OUle, BoolS, "", 0, C32(1), x.base), mk(OUlt, BoolS, "", 0, x.base, C(32, 0x40000000)))
	x.nextCur = x.base
	x.next0 = x.base
	nextSeqOf[x.base] = 0
	x.seq = 0
	if fn != nil && fn.Pkg != nil {
		x.world = fn.Pkg.Pkg.Name()
	}
	return x
}

func (x *Exec) alloc() *Term {
	r := Add(x.base, C(32, x.off))
	if x.off == 0 {
		// keep next@k distinct from the reference itself
		r = mk(OAdd, BV32, "", 0, x.base, C(32, 0))
	}
	allocLo[r] = x.seq
	x.seq++
	x.off++
	x.nextCur = Add(x.base, C(32, x.off))
	nextSeqOf[x.nextCur] = x.seq
	return r
}

// bump starts a new allocation epoch: an unknown number of objects were allocated
func (x *Exec) bump() {
	nb := Fresh("next@", BV32)
	x.facts = append(x.facts, mk(OUle, BoolS, "", 0, x.nextCur, nb), mk(OUlt, BoolS, "", 0, nb, C(32, 0x40000000)))
	x.seq++
	x.base, x.off = nb, 0
	x.nextCur = nb
	nextSeqOf[nb] = x.seq
}

func (x *Exec) freshRef(pfx string) *Term {
	r := Fresh(pfx, BV32)
	varHi[r] = x.seq
	x.refTerms[r] = true
	return r
}

func (x *Exec) freshVal(pfx string, T types.Type) *Val {
	v := &Val{T: T}
	for _, c := range comps(T) {
		if c.kind == "ref" {
			v.C = append(v.C, x.freshRef(pfx))
		} else {
			t := Fresh(pfx, c.s)
			if c.s.K == SArr {
				varHi[t] = x.seq
			}
			v.C = append(v.C, t)
		}
	}
	x.wf(v)
	return v
}

const maxLen = int64(1) << 46

// wf assumes that slice and string headers are well formed
func (x *Exec) wf(v *Val) {
	if v.T == nil {
		return
	}
	x.wfT(v.T, v.C)
}

func (x *Exec) wfT(T types.Type, c []*Term) {
	switch u := T.Underlying().(type) {
	case *types.Slice:
		x.wfFact(c[3], func() []*Term {
			return []*Term{Sle(C64(0), c[1]), Sle(c[1], C64(maxLen)), Sle(C64(0), c[2]), Sle(c[2], c[3]), Sle(c[3], C64(maxLen)),
				Implies(Eq(c[0], C32(0)), Eq(c[3], C64(0)))}
		})
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			x.wfFact(c[2], func() []*Term {
				return []*Term{Sle(C64(0), c[1]), Sle(c[1], C64(maxLen)), Sle(C64(0), c[2]), Sle(c[2], C64(maxLen))}
			})
		}
	case *types.Struct:
		o := 0
		for i := 0; i < u.NumFields(); i++ {
			n := len(comps(u.Field(i).Type()))
			x.wfT(u.Field(i).Type(), c[o:o+n])
			o += n
		}
	case *types.Tuple:
		o := 0
		for i := 0; i < u.Len(); i++ {
			n := len(comps(u.At(i).Type()))
			x.wfT(u.At(i).Type(), c[o:o+n])
			o += n
		}
	}
}

func (x *Exec) wfFact(key *Term, f func() []*Term) {
	if x.wfSeen[key] || key.fv || key.op == OConst {
		return
	}
	x.wfSeen[key] = true
	for _, t := range f() {
		if t != True && !t.fv {
			x.facts = append(x.facts, t)
		}
	}
}

// ---------------------------------------------------------------- heap

func (x *Exec) get(st *State, key string, s *Sort) *Term {
	if t, ok := st.heap[key]; ok {
		return t
	}
	if t, ok := x.initHeap[key]; ok {
		return t
	}
	t := Var(key+"@0", s)
	varHi[t] = 0
	x.initHeap[key] = t
	return t
}

func (x *Exec) newMap(key string, s *Sort) *Term {
	t := Fresh(key+"@", s)
	varHi[t] = x.seq
	return t
}

func (x *Exec) loadObj(st *State, T types.Type, ref *Term) *Val {
	v := &Val{T: T}
	switch u := T.Underlying().(type) {
	case *types.Array:
		for i, c := range comps(u.Elem()) {
			v.C = append(v.C, Select(x.get(st, ekey(u.Elem(), i), ArrS(BV32, ArrS(BV64, c.s))), ref))
		}
		return v
	case *types.Struct:
		for i, c := range comps(T) {
			v.C = append(v.C, Select(x.get(st, fkey(T, i), ArrS(BV32, c.s)), ref))
		}
	default:
		for i, c := range comps(T) {
			v.C = append(v.C, Select(x.get(st, pkey(T, i), ArrS(BV32, c.s)), ref))
		}
	}
	x.noteRefs(v)
	x.wf(v)
	return v
}

func (x *Exec) noteRefs(v *Val) {
	cs := comps(v.T)
	for i, c := range cs {
		if c.kind == "ref" && i < len(v.C) {
			x.refTerms[v.C[i]] = true
		}
	}
}

func (x *Exec) storeObj(st *State, T types.Type, ref *Term, v *Val) {
	switch u := T.Underlying().(type) {
	case *types.Array:
		for i, c := range comps(u.Elem()) {
			k := ekey(u.Elem(), i)
			x.setHeap(st, k, Store(x.get(st, k, ArrS(BV32, ArrS(BV64, c.s))), ref, v.C[i]))
		}
	case *types.Struct:
		for i, c := range comps(T) {
			k := fkey(T, i)
			x.setHeap(st, k, Store(x.get(st, k, ArrS(BV32, c.s)), ref, v.C[i]))
		}
	default:
		for i, c := range comps(T) {
			k := pkey(T, i)
			x.setHeap(st, k, Store(x.get(st, k, ArrS(BV32, c.s)), ref, v.C[i]))
		}
	}
}

func (x *Exec) setHeap(st *State, k string, t *Term) { st.heap[k] = t }

func zeroVal(T types.Type) *Val {
	v := &Val{T: T}
	for _, c := range comps(T) {
		v.C = append(v.C, zeroOf(c.s))
	}
	if isString(T) {
		s := ""
		v.Str = &s
	}
	return v
}

func zeroOf(s *Sort) *Term {
	switch s.K {
	case SBool:
		return False
	case SBV:
		return C(s.W, 0)
	}
	return ConstArr(s, zeroOf(s.Elem))
}

func (x *Exec) loadLV(st *State, lv *LV) *Val {
	v := &Val{T: lv.T}
	n := len(comps(lv.T))
	switch lv.kind {
	case "F":
		S := x.V.typeByKey[lv.key]
		for i := lv.off; i < lv.off+n; i++ {
			v.C = append(v.C, Select(x.get(st, fkey(S, i), ArrS(BV32, comps(S)[i].s)), lv.ref))
		}
	case "E":
		S := x.V.typeByKey[lv.key]
		for i := lv.off; i < lv.off+n; i++ {
			v.C = append(v.C, Select(Select(x.get(st, ekey(S, i), ArrS(BV32, ArrS(BV64, comps(S)[i].s))), lv.ref), lv.idx))
		}
	case "G":
		for i, c := range comps(lv.T) {
			k := fmt.Sprintf("G:%s#%d", lv.key, i)
			t, ok := st.heap[k]
			if !ok {
				t = x.get(st, k, c.s)
			}
			v.C = append(v.C, t)
		}
	}
	x.noteRefs(v)
	x.wf(v)
	return v
}

func (x *Exec) storeLV(st *State, lv *LV, val *Val) {
	n := len(comps(lv.T))
	switch lv.kind {
	case "F":
		S := x.V.typeByKey[lv.key]
		for i := 0; i < n; i++ {
			k := fkey(S, lv.off+i)
			m := x.get(st, k, ArrS(BV32, comps(S)[lv.off+i].s))
			x.setHeap(st, k, Store(m, lv.ref, val.C[i]))
		}
	case "E":
		S := x.V.typeByKey[lv.key]
		for i := 0; i < n; i++ {
			k := ekey(S, lv.off+i)
			m := x.get(st, k, ArrS(BV32, ArrS(BV64, comps(S)[lv.off+i].s)))
			x.setHeap(st, k, Store(m, lv.ref, Store(Select(m, lv.ref), lv.idx, val.C[i])))
		}
	case "G":
		for i := range comps(lv.T) {
			st.heap[fmt.Sprintf("G:%s#%d", lv.key, i)] = val.C[i]
		}
	}
}

func (x *Exec) assume(pc, t *Term) {
	f := Implies(pc, t)
	if f != True {
		x.facts = append(x.facts, f)
	}
}

func (x *Exec) obligation(o *Obl) *Obl {
	if x.noObl > 0 {
		return nil
	}
	o.NFacts = len(x.facts)
	o.Cand = -1
	o.Meas = -1
	if o.Fn == "" {
		o.Fn = x.V.fnName(x.root)
	}
	if o.Pos == "" && x.curPos.IsValid() {
		p := x.V.fset.Position(x.curPos)
		o.Pos = fmt.Sprintf("%s:%d", shortFile(p.Filename), p.Line)
	}
	x.oblN++
	o.ID = fmt.Sprintf("%s/%s#%d", o.Fn, o.Kind, x.oblN)
	if Implies(o.PC, o.Cond) == True {
		o.Status = "trivial"
	}
	x.obls = append(x.obls, o)
	return o
}

func shortFile(f string) string {
	if i := strings.Index(f, "/vtdxml/"); i >= 0 {
		return f[i+1:]
	}
	return f
}

// require records an obligation and then assumes it
func (x *Exec) require(kind string, pc, cond *Term, desc string) {
	x.obligation(&Obl{Kind: kind, PC: pc, Cond: cond, Desc: desc})
	x.assume(pc, cond)
}

func (x *Exec) unsupported(pc *Term, what string) {
	x.obligation(&Obl{Kind: "unsupported", PC: pc, Cond: False, Desc: "outside the verified subset: " + what})
}

// ---------------------------------------------------------------- write permission

func (x *Exec) allowed(key string, ref *Term) *Term {
	c := Not(Ult(ref, x.next0))
	for _, p := range x.writable {
		if key == p.prefix {
			if p.cond != nil {
				c = Or(c, p.cond(ref))
			} else {
				c = Or(c, Eq(ref, p.ref))
			}
		}
	}
	return c
}

func (x *Exec) checkWrite(pc *Term, key string, ref *Term, what string) {
	c := x.allowed(key, ref)
	if c == True {
		return
	}
	x.obligation(&Obl{Kind: "frame", PC: pc, Cond: c, Desc: "writes only what the contract allows: " + what})
	x.assume(pc, c)
}

// ---------------------------------------------------------------- merging

func (x *Exec) mergeEdges(es []Edge) (*State, *Term) {
	if len(es) == 1 {
		return es[0].st.clone(), es[0].pc
	}
	var pcs []*Term
	for _, e := range es {
		pcs = append(pcs, e.pc)
	}
	pc := Or(pcs...)
	st := es[len(es)-1].st.clone()
	keys := map[string]*Sort{}
	for _, e := range es {
		for k, t := range e.st.heap {
			keys[k] = t.sort
		}
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		r := x.get(es[len(es)-1].st, k, keys[k])
		for i := len(es) - 2; i >= 0; i-- {
			t := x.get(es[i].st, k, keys[k])
			if t != r {
				r = Ite(es[i].pc, t, r)
			}
		}
		st.heap[k] = r
	}
	// env
	env := map[ssa.Value]*Val{}
	first := es[0].st.env
	for v, a := range first {
		ok := true
		r := a
		for i := 1; i < len(es); i++ {
			b, has := es[i].st.env[v]
			if !has {
				ok = false
				break
			}
			if b != r {
				r = x.mergeVal(es, v)
				break
			}
		}
		if !ok {
			continue
		}
		env[v] = r
	}
	st.env = env
	return st, pc
}

func (x *Exec) mergeVal(es []Edge, v ssa.Value) *Val {
	var vals []*Val
	var pcs []*Term
	for _, e := range es {
		b, has := e.st.env[v]
		if !has {
			return &Val{T: v.Type(), Bad: "value undefined on some path"}
		}
		vals = append(vals, b)
		pcs = append(pcs, e.pc)
	}
	return x.iteVals(pcs, vals)
}

func (x *Exec) iteVals(pcs []*Term, vals []*Val) *Val {
	n := len(vals)
	r := *vals[n-1]
	for i := n - 2; i >= 0; i-- {
		v := vals[i]
		if v == vals[n-1] {
			continue
		}
		if v.Bad != "" || r.Bad != "" {
			return &Val{T: r.T, Bad: "merge of unsupported values"}
		}
		if (v.LV != nil) != (r.LV != nil) || v.LV != nil && !sameLV(v.LV, r.LV) {
			return &Val{T: r.T, Bad: "merge of interior pointers"}
		}
		if len(v.C) != len(r.C) {
			return &Val{T: r.T, Bad: "merge of differently shaped values"}
		}
		nc := make([]*Term, len(r.C))
		for k := range r.C {
			nc[k] = Ite(pcs[i], v.C[k], r.C[k])
		}
		nr := Val{T: r.T, C: nc, LV: r.LV}
		if v.Fn != nil && r.Fn != nil && v.Fn.fn == r.Fn.fn && len(v.Fn.binds) == len(r.Fn.binds) {
			same := true
			for k := range v.Fn.binds {
				if v.Fn.binds[k] != r.Fn.binds[k] {
					same = false
				}
			}
			if same {
				nr.Fn = r.Fn
			}
		}
		if v.Str != nil && r.Str != nil && *v.Str == *r.Str {
			nr.Str = r.Str
		}
		r = nr
	}
	return &r
}

func sameLV(a, b *LV) bool {
	return a.kind == b.kind && a.key == b.key && a.ref == b.ref && a.idx == b.idx && a.off == b.off
}

// ---------------------------------------------------------------- constants

func (x *Exec) strVal(s string, T types.Type) *Val {
	id, ok := x.strIDs[s]
	if !ok {
		id = C(32, 0x80000000+uint64(len(x.strIDs)))
		x.strIDs[s] = id
		x.strBy[id] = s
	}
	cp := s
	return &Val{T: T, C: []*Term{id, C64(0), C64(int64(len(s)))}, Str: &cp}
}

// strContent is the byte array of a string reference
func (x *Exec) strContent(ref *Term) *Term {
	if ref.op == OConst {
		if s, ok := x.strBy[ref]; ok {
			a := ConstArr(ArrS(BV64, BV8), C(8, 0))
			for i := 0; i < len(s); i++ {
				a = Store(a, C64(int64(i)), C(8, uint64(s[i])))
			}
			return a
		}
	}
	if ref.op == OIte {
		return Ite(ref.args[0], x.strContent(ref.args[1]), x.strContent(ref.args[2]))
	}
	if t, ok := x.strAlias[ref]; ok {
		return t
	}
	m := Var("S:string", ArrS(BV32, ArrS(BV64, BV8)))
	return Select(m, ref)
}

func (x *Exec) constVal(c *ssa.Const) *Val {
	T := c.Type()
	if c.Value == nil {
		return zeroVal(T)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return &Val{T: T, C: []*Term{BoolC(constant.BoolVal(c.Value))}}
	case constant.String:
		return x.strVal(constant.StringVal(c.Value), T)
	case constant.Int:
		if isInt(T) {
			w := comps(T)[0].s.W
			if i, ok := constant.Int64Val(c.Value); ok {
				return &Val{T: T, C: []*Term{C(w, uint64(i))}}
			}
			u, _ := constant.Uint64Val(c.Value)
			return &Val{T: T, C: []*Term{C(w, u)}}
		}
	}
	return &Val{T: T, Bad: "constant " + c.String()}
}

func (x *Exec) fnID(f *ssa.Function) *Term {
	id, ok := x.fnIDs[f]
	if !ok {
		id = int64(len(x.fnIDs) + 1)
		x.fnIDs[f] = id
	}
	return C32(id)
}

func (x *Exec) val(st *State, v ssa.Value) *Val {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Function:
		return &Val{T: c.Type(), C: []*Term{x.fnID(c)}, Fn: &FnVal{fn: c}}
	case *ssa.Global:
		T := c.Type().(*types.Pointer).Elem()
		return &Val{T: c.Type(), LV: &LV{kind: "G", key: c.Pkg.Pkg.Name() + "." + c.Name(), T: T}, C: []*Term{C32(1)}}
	case *ssa.Builtin:
		return &Val{T: c.Type()}
	}
	if r, ok := st.env[v]; ok {
		return r
	}
	return &Val{T: v.Type(), Bad: "undefined value " + v.Name()}
}
