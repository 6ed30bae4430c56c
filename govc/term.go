package main

import (
	"encoding/binary"
	"fmt"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------- sorts

type SortKind int

const (
	SBool SortKind = iota
	SBV
	SArr
)

type Sort struct {
	K    SortKind
	W    int
	Idx  *Sort
	Elem *Sort
	str  string
}

var sortTab = map[string]*Sort{}

func internSort(s *Sort) *Sort {
	if o, ok := sortTab[s.str]; ok {
		return o
	}
	sortTab[s.str] = s
	return s
}

var BoolS = internSort(&Sort{K: SBool, str: "Bool"})

func BVS(w int) *Sort { return internSort(&Sort{K: SBV, W: w, str: fmt.Sprintf("(_ BitVec %d)", w)}) }
func ArrS(i, e *Sort) *Sort {
	return internSort(&Sort{K: SArr, Idx: i, Elem: e, str: "(Array " + i.str + " " + e.str + ")"})
}
func (s *Sort) String() string { return s.str }

var (
	BV8  = BVS(8)
	BV32 = BVS(32)
	BV64 = BVS(64)
)

// ---------------------------------------------------------------- terms

type Op int

const (
	OTrue Op = iota
	OFalse
	OConst
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLshr
	OAshr
	OUlt
	OUle
	OSlt
	OSle
	OConcat
	OExtract // val = hi<<8|lo
	OZext    // val = added bits
	OSext
	OSelect
	OStore
	OConstArr
	OApp    // uninterpreted function: name
	OForall // args[0]=bound var, args[1]=body
	OMix    // args: old map, new map, bound var, predicate (true: new map)
)

var opName = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor",
	OBNot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OUlt: "bvult", OUle: "bvule",
	OSlt: "bvslt", OSle: "bvsle", OConcat: "concat", OSelect: "select", OStore: "store",
}

type Term struct {
	id   int
	op   Op
	sort *Sort
	args []*Term
	name string
	val  uint64
	fv   bool // contains a quantifier or a bound variable
}

var termTab = map[string]*Term{}
var termCount int
var keyBuf []byte
var freshCtr int

func mk(op Op, s *Sort, name string, val uint64, args ...*Term) *Term {
	kb := keyBuf[:0]
	kb = append(kb, byte(op))
	kb = append(kb, s.str...)
	kb = append(kb, 0)
	kb = append(kb, name...)
	kb = append(kb, 0)
	kb = binary.LittleEndian.AppendUint64(kb, val)
	for _, a := range args {
		kb = binary.LittleEndian.AppendUint32(kb, uint32(a.id))
	}
	keyBuf = kb
	if t, ok := termTab[string(kb)]; ok {
		return t
	}
	k := string(kb)
	termCount++
	t := &Term{id: termCount, op: op, sort: s, args: args, name: name, val: val}
	for _, a := range args {
		if a.fv {
			t.fv = true
		}
	}
	if op == OForall {
		t.fv = true
	}
	if op == OVar && strings.HasPrefix(name, "?") {
		t.fv = true
	}
	if op == OMix {
		t.fv = args[0].fv || args[1].fv
	}
	termTab[k] = t
	return t
}

var True = mk(OTrue, BoolS, "", 0)
var False = mk(OFalse, BoolS, "", 0)

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}
func C(w int, v uint64) *Term          { return mk(OConst, BVS(w), "", v&mask(w)) }
func C64(v int64) *Term                { return C(64, uint64(v)) }
func C32(v int64) *Term                { return C(32, uint64(v)) }
func Var(name string, s *Sort) *Term   { return mk(OVar, s, name, 0) }
func Fresh(pfx string, s *Sort) *Term  { freshCtr++; return Var(fmt.Sprintf("%s!%d", pfx, freshCtr), s) }
func BoundVar(n string, s *Sort) *Term { freshCtr++; return Var(fmt.Sprintf("?%s!%d", n, freshCtr), s) }
func BoolC(b bool) *Term {
	if b {
		return True
	}
	return False
}
func (t *Term) IsC() bool { return t.op == OConst }
func (t *Term) sval() int64 {
	w := uint(t.sort.W)
	return int64(t.val<<(64-w)) >> (64 - w)
}

func Not(a *Term) *Term {
	switch a.op {
	case OTrue:
		return False
	case OFalse:
		return True
	case ONot:
		return a.args[0]
	}
	return mk(ONot, BoolS, "", 0, a)
}

func flat(op Op, as []*Term, out []*Term) []*Term {
	for _, a := range as {
		if a.op == op {
			out = flat(op, a.args, out)
		} else {
			out = append(out, a)
		}
	}
	return out
}

func And(as ...*Term) *Term { return nary(OAnd, True, False, as) }
func Or(as ...*Term) *Term  { return nary(OOr, False, True, as) }

func nary(op Op, unit, zero *Term, as []*Term) *Term {
	fl := flat(op, as, nil)
	seen := map[int]bool{}
	var out []*Term
	for _, a := range fl {
		if a == unit || seen[a.id] {
			continue
		}
		if a == zero {
			return zero
		}
		seen[a.id] = true
		out = append(out, a)
	}
	for _, a := range out {
		if a.op == ONot && seen[a.args[0].id] {
			return zero
		}
	}
	if op == OOr && len(out) == 2 {
		// (x & c) | (x & !c) = x
		if r := complementMerge(out[0], out[1]); r != nil {
			return r
		}
	}
	if op == OOr && len(out) > 2 && len(out) < 12 {
		for i := 0; i < len(out); i++ {
			for j := i + 1; j < len(out); j++ {
				if r := complementMerge(out[i], out[j]); r != nil {
					var rest []*Term
					rest = append(rest, r)
					for k, t := range out {
						if k != i && k != j {
							rest = append(rest, t)
						}
					}
					return nary(op, unit, zero, rest)
				}
			}
		}
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return mk(op, BoolS, "", 0, out...)
}

func conj(t *Term) []*Term {
	if t.op == OAnd {
		return t.args
	}
	return []*Term{t}
}

func complementMerge(a, b *Term) *Term {
	ca, cb := conj(a), conj(b)
	sa := map[*Term]bool{}
	for _, t := range ca {
		sa[t] = true
	}
	sb := map[*Term]bool{}
	for _, t := range cb {
		sb[t] = true
	}
	var da, db []*Term
	for _, t := range ca {
		if !sb[t] {
			da = append(da, t)
		}
	}
	for _, t := range cb {
		if !sa[t] {
			db = append(db, t)
		}
	}
	if len(da) == 0 {
		return a // a is weaker
	}
	if len(db) == 0 {
		return b
	}
	if len(da) == 1 && len(db) == 1 && Not(da[0]) == db[0] {
		var rest []*Term
		for _, t := range ca {
			if t != da[0] {
				rest = append(rest, t)
			}
		}
		return And(rest...)
	}
	// x & c  |  x & !c & d  =  x & (c | d)
	if len(da) == 1 && len(db) > 1 {
		n := Not(da[0])
		for i, t := range db {
			if t == n {
				var rest, rem []*Term
				for _, u := range ca {
					if u != da[0] {
						rest = append(rest, u)
					}
				}
				rem = append(rem, db[:i]...)
				rem = append(rem, db[i+1:]...)
				return And(append(rest, mk2or(da[0], And(rem...)))...)
			}
		}
	}
	if len(db) == 1 && len(da) > 1 {
		n := Not(db[0])
		for i, t := range da {
			if t == n {
				var rest, rem []*Term
				for _, u := range cb {
					if u != db[0] {
						rest = append(rest, u)
					}
				}
				rem = append(rem, da[:i]...)
				rem = append(rem, da[i+1:]...)
				return And(append(rest, mk2or(db[0], And(rem...)))...)
			}
		}
	}
	return nil
}

func mk2or(a, b *Term) *Term {
	if a == True || b == True {
		return True
	}
	if a == False {
		return b
	}
	if b == False || a == b {
		return a
	}
	l := flat(OOr, []*Term{a, b}, nil)
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	return mk(OOr, BoolS, "", 0, l...)
}

func Implies(a, b *Term) *Term { return Or(Not(a), b) }
func Iff(a, b *Term) *Term     { return Eq(a, b) }

func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if c.op == ONot {
		return Ite(c.args[0], b, a)
	}
	if a.sort == BoolS {
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
	}
	if a.op == OIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	if b.op == OIte && b.args[1] == a {
		return Ite(Or(c, b.args[0]), a, b.args[2])
	}
	if a.sort.K == SArr {
		// merge stores with a common base
		ba, ia := peel(a)
		bb, ib := peel(b)
		if ba == bb && ba != nil && (len(ia) > 0 || len(ib) > 0) && len(ia)+len(ib) <= 24 && sameIdxClass(ia, ib) {
			r := ba
			var order []*Term
			seen := map[*Term]bool{}
			for k := len(ia) - 1; k >= 0; k-- {
				if !seen[ia[k]] {
					seen[ia[k]] = true
					order = append(order, ia[k])
				}
			}
			for k := len(ib) - 1; k >= 0; k-- {
				if !seen[ib[k]] {
					seen[ib[k]] = true
					order = append(order, ib[k])
				}
			}
			for _, i := range order {
				r = Store(r, i, Ite(c, Select(a, i), Select(b, i)))
			}
			return r
		}
	}
	return mk(OIte, a.sort, "", 0, c, a, b)
}

// peel returns the base of a store chain and the indices (outermost first)
func peel(a *Term) (*Term, []*Term) {
	var idx []*Term
	for a.op == OStore {
		idx = append(idx, a.args[1])
		a = a.args[0]
	}
	return a, idx
}

// sameIdxClass reports whether all the indices are pairwise identical or
// syntactically distinct, so that merging the stores is order independent
func sameIdxClass(a, b []*Term) bool {
	all := append(append([]*Term{}, a...), b...)
	for i := range all {
		for j := i + 1; j < len(all); j++ {
			if all[i] != all[j] && !distinctT(all[i], all[j]) {
				return false
			}
		}
	}
	return true
}

// splitAdd returns (base, const) such that t = base + const; base nil if const
func splitAdd(t *Term) (*Term, uint64) {
	if t.op == OConst {
		return nil, t.val
	}
	if t.op == OAdd && t.args[1].op == OConst {
		return t.args[0], t.args[1].val
	}
	return t, 0
}

func distinctT(a, b *Term) bool {
	if a == b {
		return false
	}
	ba, ca := splitAdd(a)
	bb, cb := splitAdd(b)
	if ba == bb && ca != cb {
		return true
	}
	return false
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sort mismatch %s vs %s: %s / %s", a.sort, b.sort, a.Short(), b.Short()))
	}
	if a.op == OConst && b.op == OConst {
		return BoolC(a.val == b.val)
	}
	if a.sort == BoolS {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	if distinctT(a, b) {
		return False
	}
	if a.sort == BV32 && refDistinct(a, b) {
		return False
	}
	if a.sort == BV32 && a.op == OIte && (isRefLo(b) || b.op == OConst && b.val == 0) {
		return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
	}
	if a.sort == BV32 && b.op == OIte && (isRefLo(a) || a.op == OConst && a.val == 0) {
		return Ite(b.args[0], Eq(a, b.args[1]), Eq(a, b.args[2]))
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if a.op == OAdd && a.args[1].op == OConst {
			return Eq(a.args[0], C(a.sort.W, b.val-a.args[1].val))
		}
		if a.op == OIte {
			// push equality with a constant into an ite with constant leaves
			x, y := a.args[1], a.args[2]
			if x.op == OConst || y.op == OConst {
				return Ite(a.args[0], Eq(x, b), Eq(y, b))
			}
		}
		if a.op == OZext {
			in := a.args[0]
			if b.val > mask(in.sort.W) {
				return False
			}
			return Eq(in, C(in.sort.W, b.val))
		}
	}
	if a.op == OZext && b.op == OZext && a.args[0].sort == b.args[0].sort {
		return Eq(a.args[0], b.args[0])
	}
	if b.op != OConst && a.id > b.id {
		a, b = b, a
	}
	return mk(OEq, BoolS, "", 0, a, b)
}

func Neq(a, b *Term) *Term { return Not(Eq(a, b)) }

func Add(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return C(a.sort.W, a.val+b.val)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if b.val == 0 {
			return a
		}
		if a.op == OAdd && a.args[1].op == OConst {
			return Add(a.args[0], C(a.sort.W, a.args[1].val+b.val))
		}
		return mk(OAdd, a.sort, "", 0, a, b)
	}
	// hoist constants
	ba, ca := splitAdd(a)
	bb, cb := splitAdd(b)
	if ca != 0 || cb != 0 {
		return Add(Add(ba, bb), C(a.sort.W, ca+cb))
	}
	// x + (y - x)
	if b.op == OSub && b.args[1] == a {
		return b.args[0]
	}
	if a.op == OSub && a.args[1] == b {
		return a.args[0]
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OAdd, a.sort, "", 0, a, b)
}

func Sub(a, b *Term) *Term {
	if b.op == OConst {
		return Add(a, C(a.sort.W, -b.val))
	}
	if a == b {
		return C(a.sort.W, 0)
	}
	ba, ca := splitAdd(a)
	bb, cb := splitAdd(b)
	if ba != nil && bb != nil && (ca != 0 || cb != 0) {
		return Add(Sub(ba, bb), C(a.sort.W, ca-cb))
	}
	if a.op == OAdd && a.args[1].op != OConst {
		if a.args[0] == b {
			return a.args[1]
		}
		if a.args[1] == b {
			return a.args[0]
		}
	}
	return mk(OSub, a.sort, "", 0, a, b)
}

func sx(v uint64, w int) int64 { return int64(v<<(64-uint(w))) >> (64 - uint(w)) }

func Bin(op Op, a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("Bin sort mismatch %s vs %s", a.sort, b.sort))
	}
	switch op {
	case OAdd:
		return Add(a, b)
	case OSub:
		return Sub(a, b)
	}
	w := a.sort.W
	if a.op == OConst && b.op == OConst {
		x, y := a.val, b.val
		switch op {
		case OMul:
			return C(w, x*y)
		case OUDiv:
			if y != 0 {
				return C(w, x/y)
			}
		case OURem:
			if y != 0 {
				return C(w, x%y)
			}
		case OSDiv:
			if y != 0 && sx(y, w) != -1 {
				return C(w, uint64(sx(x, w)/sx(y, w)))
			}
		case OSRem:
			if y != 0 && sx(y, w) != -1 {
				return C(w, uint64(sx(x, w)%sx(y, w)))
			}
		case OBAnd:
			return C(w, x&y)
		case OBOr:
			return C(w, x|y)
		case OBXor:
			return C(w, x^y)
		case OShl:
			if y >= uint64(w) {
				return C(w, 0)
			}
			return C(w, x<<y)
		case OLshr:
			if y >= uint64(w) {
				return C(w, 0)
			}
			return C(w, x>>y)
		case OAshr:
			if y >= uint64(w) {
				y = uint64(w - 1)
			}
			return C(w, uint64(sx(x, w)>>y))
		}
	}
	switch op {
	case OBAnd:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
			if a.op == OZext && b.val == mask(a.args[0].sort.W) {
				return a
			}
		}
		if a == b {
			return a
		}
	case OBOr:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst && b.val == 0 {
			return a
		}
		if a == b {
			return a
		}
	case OMul:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.val == 1 {
				return a
			}
			if b.val == 0 {
				return b
			}
			if bits.OnesCount64(b.val) == 1 {
				return Bin(OShl, a, C(w, uint64(bits.TrailingZeros64(b.val))))
			}
		}
	case OShl, OLshr, OAshr:
		if b.op == OConst && b.val == 0 {
			return a
		}
		if b.op == OConst && op != OAshr && b.val >= uint64(w) {
			return C(w, 0)
		}
	case OUDiv:
		if b.op == OConst && bits.OnesCount64(b.val) == 1 {
			return Bin(OLshr, a, C(w, uint64(bits.TrailingZeros64(b.val))))
		}
	}
	switch op {
	case OBAnd, OBOr, OBXor, OMul:
		if b.op != OConst && a.id > b.id {
			a, b = b, a
		}
	}
	return mk(op, a.sort, "", 0, a, b)
}

func Cmp(op Op, a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("Cmp sort mismatch %s vs %s: %s | %s", a.sort, b.sort, a.Short(), b.Short()))
	}
	w := a.sort.W
	if a == b {
		return BoolC(op == OUle || op == OSle)
	}
	if a.op == OConst && b.op == OConst {
		switch op {
		case OUlt:
			return BoolC(a.val < b.val)
		case OUle:
			return BoolC(a.val <= b.val)
		case OSlt:
			return BoolC(sx(a.val, w) < sx(b.val, w))
		case OSle:
			return BoolC(sx(a.val, w) <= sx(b.val, w))
		}
	}
	if op == OUlt && w == 32 {
		if r := refUlt(a, b); r != nil {
			return r
		}
	}
	if op == OUle && a.op == OConst && a.val == 0 {
		return True
	}
	if op == OUlt && b.op == OConst && b.val == 0 {
		return False
	}
	if op == OUlt && b.op == OConst && b.val == 1 {
		return Eq(a, C(w, 0))
	}
	// signed comparisons of zero-extended values against constants
	if (op == OSlt || op == OSle) && a.op == OZext && b.op == OConst {
		iw := a.args[0].sort.W
		bv := sx(b.val, w)
		if bv < 0 {
			return False
		}
		if uint64(bv) > mask(iw) {
			return True
		}
	}
	if (op == OSlt || op == OSle) && b.op == OZext && a.op == OConst {
		iw := b.args[0].sort.W
		av := sx(a.val, w)
		if av < 0 {
			return True
		}
		if op == OSle && av == 0 {
			return True
		}
		if uint64(av) > mask(iw) {
			return False
		}
	}
	return mk(op, BoolS, "", 0, a, b)
}

func Ult(a, b *Term) *Term { return Cmp(OUlt, a, b) }
func Ule(a, b *Term) *Term { return Cmp(OUle, a, b) }
func Slt(a, b *Term) *Term { return Cmp(OSlt, a, b) }
func Sle(a, b *Term) *Term { return Cmp(OSle, a, b) }

func BNot(a *Term) *Term {
	if a.op == OConst {
		return C(a.sort.W, ^a.val)
	}
	if a.op == OBNot {
		return a.args[0]
	}
	return mk(OBNot, a.sort, "", 0, a)
}
func Neg(a *Term) *Term {
	if a.op == OConst {
		return C(a.sort.W, -a.val)
	}
	return mk(ONeg, a.sort, "", 0, a)
}

func Extract(hi, lo int, a *Term) *Term {
	w := hi - lo + 1
	if w == a.sort.W {
		return a
	}
	if a.op == OConst {
		return C(w, a.val>>uint(lo))
	}
	if (a.op == OZext || a.op == OSext) && lo == 0 {
		in := a.args[0]
		if w == in.sort.W {
			return in
		}
		if w < in.sort.W {
			return Extract(hi, 0, in)
		}
		if a.op == OZext {
			return Zext(in, w)
		}
		return Sext(in, w)
	}
	if a.op == OZext && lo >= a.args[0].sort.W {
		return C(w, 0)
	}
	if a.op == OIte && (a.args[1].op == OConst || a.args[2].op == OConst) {
		return Ite(a.args[0], Extract(hi, lo, a.args[1]), Extract(hi, lo, a.args[2]))
	}
	return mk(OExtract, BVS(w), "", uint64(hi)<<16|uint64(lo), a)
}
func Zext(a *Term, w int) *Term {
	if w == a.sort.W {
		return a
	}
	if a.op == OConst {
		return C(w, a.val)
	}
	if a.op == OZext {
		return Zext(a.args[0], w)
	}
	return mk(OZext, BVS(w), "", uint64(w-a.sort.W), a)
}
func Sext(a *Term, w int) *Term {
	if w == a.sort.W {
		return a
	}
	if a.op == OConst {
		return C(w, uint64(sx(a.val, a.sort.W)))
	}
	if a.op == OZext {
		return Zext(a.args[0], w)
	}
	if a.op == OSext {
		return Sext(a.args[0], w)
	}
	return mk(OSext, BVS(w), "", uint64(w-a.sort.W), a)
}

var selCache = map[[2]*Term]*Term{}

// reads of the entry state whose value the preconditions fix
var readAs = map[*Term]*Term{}

func knownRead(f *Term) {
	switch {
	case f.op == OSelect && f.sort == BoolS:
		readAs[f] = True
	case f.op == ONot && f.args[0].op == OSelect:
		readAs[f.args[0]] = False
	case f.op == OEq:
		for i := 0; i < 2; i++ {
			if f.args[i].op == OSelect && f.args[1-i].op == OConst {
				readAs[f.args[i]] = f.args[1-i]
			}
		}
	}
}

func Select(a, i *Term) *Term {
	r := select0(a, i)
	if c, ok := readAs[r]; ok {
		return c
	}
	return r
}

func select0(a, i *Term) *Term {
	if a.op == OIte || a.op == OStore {
		k := [2]*Term{a, i}
		if r, ok := selCache[k]; ok {
			return r
		}
		r := select1(a, i)
		selCache[k] = r
		return r
	}
	return select1(a, i)
}

// mixed reports whether a map term has a Mix below its stores
func mixed(a *Term) bool {
	for {
		switch a.op {
		case OStore:
			a = a.args[0]
			continue
		case OMix:
			return true
		case OIte:
			return mixed(a.args[1]) || mixed(a.args[2])
		}
		return false
	}
}

func select1(a, i *Term) *Term {
	if a.sort.K != SArr || a.sort.Idx != i.sort {
		panic(fmt.Sprintf("Select sort mismatch %s at %s", a.sort, i.sort))
	}
	base := a
	for {
		switch base.op {
		case OStore:
			if base.args[1] == i {
				return base.args[2]
			}
			if distinctT(base.args[1], i) || refDistinct(base.args[1], i) {
				base = base.args[0]
				continue
			}
			if mixed(base) || base.sort.Idx == BV32 {
				return Ite(Eq(base.args[1], i), base.args[2], Select(base.args[0], i))
			}
		case OMix:
			c := Subst(base.args[3], map[*Term]*Term{base.args[2]: i})
			if c == True {
				return Select(base.args[1], i)
			}
			if c == False {
				return Select(base.args[0], i)
			}
			return Ite(c, Select(base.args[1], i), Select(base.args[0], i))
		case OConstArr:
			return base.args[0]
		case OIte:
			x := Select(base.args[1], i)
			y := Select(base.args[2], i)
			if !(x.op == OSelect && y.op == OSelect) || x == y {
				return Ite(base.args[0], x, y)
			}
			// always push: keeps field accesses scalar
			return Ite(base.args[0], x, y)
		}
		break
	}
	return mk(OSelect, base.sort.Elem, "", 0, base, i)
}

// refDistinct: hook for the executor to tell that two references are distinct
// by construction (fresh allocation against a reference that existed before)
var refDistinct = func(a, b *Term) bool { return false }
var isRefLo = func(a *Term) bool { return false }
var refUlt = func(a, b *Term) *Term { return nil }

func Store(a, i, v *Term) *Term {
	if a.sort.K != SArr || a.sort.Idx != i.sort || a.sort.Elem != v.sort {
		panic(fmt.Sprintf("Store sort mismatch %s [%s] := %s", a.sort, i.sort, v.sort))
	}
	if a.op == OStore && a.args[1] == i {
		return Store(a.args[0], i, v)
	}
	// drop an older store to the same index when everything in between is distinct
	if a.op == OStore {
		chain := []*Term{}
		b := a
		for b.op == OStore && len(chain) < 40 {
			if b.args[1] == i {
				// rebuild without b
				r := b.args[0]
				for k := len(chain) - 1; k >= 0; k-- {
					r = mk(OStore, r.sort, "", 0, r, chain[k].args[1], chain[k].args[2])
				}
				return Store(r, i, v)
			}
			if !(distinctT(b.args[1], i) || refDistinct(b.args[1], i)) {
				break
			}
			chain = append(chain, b)
			b = b.args[0]
		}
	}
	if v.op == OSelect && v.args[0] == a && v.args[1] == i {
		return a
	}
	if v == Select(a, i) {
		return a
	}
	return mk(OStore, a.sort, "", 0, a, i, v)
}

func Mix(old, nw, v, pred *Term) *Term {
	if pred == False {
		return old
	}
	if pred == True {
		return nw
	}
	return mk(OMix, old.sort, "", 0, old, nw, v, pred)
}

func ConstArr(s *Sort, v *Term) *Term { return mk(OConstArr, s, "", 0, v) }

func App(name string, s *Sort, args ...*Term) *Term { return mk(OApp, s, name, 0, args...) }

func Forall(v, body *Term) *Term {
	if body == True || body == False {
		return body
	}
	return mk(OForall, BoolS, "", 0, v, body)
}

// ---------------------------------------------------------------- substitution

func Subst(t *Term, m map[*Term]*Term) *Term {
	cache := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := cache[t]; ok {
			return r
		}
		ch := false
		na := make([]*Term, len(t.args))
		for i, a := range t.args {
			na[i] = rec(a)
			if na[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, na)
		}
		cache[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case ONot:
		return Not(a[0])
	case OAnd:
		return And(a...)
	case OOr:
		return Or(a...)
	case OIte:
		return Ite(a[0], a[1], a[2])
	case OEq:
		return Eq(a[0], a[1])
	case OAdd, OSub, OMul, OUDiv, OURem, OSDiv, OSRem, OBAnd, OBOr, OBXor, OShl, OLshr, OAshr:
		return Bin(t.op, a[0], a[1])
	case OBNot:
		return BNot(a[0])
	case ONeg:
		return Neg(a[0])
	case OUlt, OUle, OSlt, OSle:
		return Cmp(t.op, a[0], a[1])
	case OExtract:
		return Extract(int(t.val>>16), int(t.val&0xffff), a[0])
	case OZext:
		return Zext(a[0], t.sort.W)
	case OSext:
		return Sext(a[0], t.sort.W)
	case OSelect:
		return Select(a[0], a[1])
	case OStore:
		return Store(a[0], a[1], a[2])
	case OConstArr:
		return ConstArr(t.sort, a[0])
	case OApp:
		return App(t.name, t.sort, a...)
	case OForall:
		return Forall(a[0], a[1])
	case OMix:
		return Mix(a[0], a[1], a[2], a[3])
	}
	return mk(t.op, t.sort, t.name, t.val, a...)
}

// ---------------------------------------------------------------- printing

func (t *Term) Short() string {
	s := t.str(6)
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

func (t *Term) str(d int) string {
	switch t.op {
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OConst:
		return fmt.Sprintf("%d", sx(t.val, t.sort.W))
	case OVar:
		return t.name
	}
	if d == 0 {
		return "…"
	}
	var p []string
	for _, a := range t.args {
		p = append(p, a.str(d-1))
	}
	n := opName[t.op]
	switch t.op {
	case OApp:
		n = t.name
	case OForall:
		n = "forall"
	case OZext:
		n = "zext"
	case OSext:
		n = "sext"
	case OExtract:
		n = fmt.Sprintf("extract[%d:%d]", t.val>>16, t.val&0xffff)
	case OConstArr:
		n = "K"
	}
	return "(" + n + " " + strings.Join(p, " ") + ")"
}

func smtName(n string) string { return "|" + n + "|" }

// smtPrinter prints a set of terms sharing sub-terms as define-fun
type smtPrinter struct {
	b     strings.Builder
	names map[*Term]string
	decl  map[string]bool
	n     int
}

func newSmtPrinter() *smtPrinter {
	return &smtPrinter{names: map[*Term]string{}, decl: map[string]bool{}}
}

func (p *smtPrinter) ref(t *Term) string {
	if s, ok := p.names[t]; ok {
		return s
	}
	var s string
	switch t.op {
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OConst:
		if t.sort.W%4 == 0 {
			return fmt.Sprintf("#x%0*x", t.sort.W/4, t.val)
		}
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.sort.W)
	case OVar:
		if !p.decl[t.name] {
			p.decl[t.name] = true
			if !strings.HasPrefix(t.name, "?") {
				fmt.Fprintf(&p.b, "(declare-fun %s () %s)\n", smtName(t.name), t.sort)
			}
		}
		return smtName(t.name)
	case OForall:
		// printed inline (only used in quantified mode)
		q := &smtPrinter{names: map[*Term]string{}, decl: p.decl}
		body := p.inline(t.args[1], q)
		s = fmt.Sprintf("(forall ((%s %s)) %s)", smtName(t.args[0].name), t.args[0].sort, body)
		return s
	}
	var as []string
	for _, a := range t.args {
		as = append(as, p.ref(a))
	}
	switch t.op {
	case OExtract:
		s = fmt.Sprintf("((_ extract %d %d) %s)", t.val>>16, t.val&0xffff, as[0])
	case OZext:
		s = fmt.Sprintf("((_ zero_extend %d) %s)", t.val, as[0])
	case OSext:
		s = fmt.Sprintf("((_ sign_extend %d) %s)", t.val, as[0])
	case OConstArr:
		s = fmt.Sprintf("((as const %s) %s)", t.sort, as[0])
	case OApp:
		if !p.decl["app:"+t.name] {
			p.decl["app:"+t.name] = true
			var ss []string
			for _, a := range t.args {
				ss = append(ss, a.sort.String())
			}
			fmt.Fprintf(&p.b, "(declare-fun %s (%s) %s)\n", smtName(t.name), strings.Join(ss, " "), t.sort)
		}
		s = fmt.Sprintf("(%s %s)", smtName(t.name), strings.Join(as, " "))
	default:
		s = "(" + opName[t.op] + " " + strings.Join(as, " ") + ")"
	}
	p.n++
	nm := "t" + strconv.Itoa(p.n)
	p.b.WriteString("(define-fun ")
	p.b.WriteString(nm)
	p.b.WriteString(" () ")
	p.b.WriteString(t.sort.String())
	p.b.WriteString(" ")
	p.b.WriteString(s)
	p.b.WriteString(")\n")
	p.names[t] = nm
	return nm
}

// inline prints a term without hoisting sub-terms that contain bound variables
func (p *smtPrinter) inline(t *Term, _ *smtPrinter) string {
	if !t.fv {
		return p.ref(t)
	}
	if t.op == OVar {
		return smtName(t.name)
	}
	if t.op == OForall {
		return p.ref(t)
	}
	var as []string
	for _, a := range t.args {
		as = append(as, p.inline(a, nil))
	}
	switch t.op {
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.val>>16, t.val&0xffff, as[0])
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.val, as[0])
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.val, as[0])
	case OConstArr:
		return fmt.Sprintf("((as const %s) %s)", t.sort, as[0])
	case OApp:
		if !p.decl["app:"+t.name] {
			p.decl["app:"+t.name] = true
			var ss []string
			for _, a := range t.args {
				ss = append(ss, a.sort.String())
			}
			fmt.Fprintf(&p.b, "(declare-fun %s (%s) %s)\n", smtName(t.name), strings.Join(ss, " "), t.sort)
		}
		return fmt.Sprintf("(%s %s)", smtName(t.name), strings.Join(as, " "))
	}
	return fmt.Sprintf("(%s %s)", opName[t.op], strings.Join(as, " "))
}
