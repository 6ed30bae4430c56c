package main

import (
	"context"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type OblRes struct {
	ID, Kind, Desc, Pos, Status, Solver string
	Labels                              []string
	Ms                                  int64
	Model                               string `json:",omitempty"`
	Callee                              string `json:",omitempty"`
	Frame                               string `json:",omitempty"`
}

type FnRes struct {
	Fn       string
	Contract string
	Obls     []OblRes
	Loops    int
	Invs     int
	Trivial  int
	Used     []string
	Inlined  []string
	Covers   int
	CoverBad int
	Vacuous  bool
	Err      string
	Ms       int64
	Solver   map[string]int64
	Queries  map[string]int
	Returns  int
	Trusted  string
	Bounded  string
}

// jobsFor lists the verification jobs for a function: its own contract and the
// interface contracts it has to respect
type job struct {
	key  string // function name
	con  *Contract
	ck   string // contract key
	size int    // instructions
}

func (v *Verifier) ifaceKeysOf(f *ssa.Function) []string {
	r := f.Signature.Recv()
	if r == nil || f.Parent() != nil {
		return nil
	}
	var out []string
	for k, c := range v.spec.Contracts {
		if c.Kind != "iface" {
			continue
		}
		p := strings.Split(k, ".")
		if len(p) != 3 || p[2] != f.Name() || v.pkgs[p[0]] == nil {
			continue
		}
		o := v.pkgs[p[0]].Pkg.Scope().Lookup(p[1])
		if o == nil {
			continue
		}
		it, ok := o.Type().Underlying().(*types.Interface)
		if ok && types.Implements(r.Type(), it) {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

func (v *Verifier) jobs(fn string) []job {
	f := v.funcs[fn]
	var out []job
	if f == nil {
		if c, ok := v.spec.Contracts[fn]; ok {
			out = append(out, job{fn, c, fn, 0})
		}
		return out
	}
	size := 0
	for _, b := range f.Blocks {
		size += len(b.Instrs)
	}
	if c, k := v.contractOf(f); c != nil {
		out = append(out, job{fn, c, k, size})
	}
	for _, k := range v.ifaceKeysOf(f) {
		if len(out) > 0 && out[0].ck == k {
			continue
		}
		out = append(out, job{fn, v.spec.Contracts[k], k, size})
	}
	if len(out) == 0 {
		// no contract: run-time safety of the body with an empty contract
		c := &Contract{Pkg: f.Pkg.Pkg.Name(), Kind: "func", Name: fn, Pos: "none"}
		for _, p := range f.Params {
			c.Params = append(c.Params, p.Name())
		}
		out = append(out, job{fn, c, "", size})
	}
	return out
}

// onlyCase: one case of a case distinction at entry, counted from 1; 0: all
var onlyCase int

func (v *Verifier) verify(j job) (res *FnRes) {
	t0 := time.Now()
	res = &FnRes{Fn: j.key, Contract: j.ck}
	defer func() {
		if r := recover(); r != nil {
			if os.Getenv("GOVC_DEBUG") != "" {
				panic(r)
			}
			res.Err = fmt.Sprint(r)
		}
		res.Ms = time.Since(t0).Milliseconds()
	}()
	solverTime = map[string]time.Duration{}
	solverCount = map[string]int{}
	resetTerms()
	fn := v.funcs[j.key]
	if fn == nil {
		res.Err = "no such function in the code"
		return
	}
	con := j.con
	res.Trusted, res.Bounded = con.Trusted, con.Bounded
	if con.Trusted != "" {
		return
	}
	nsplit := len(con.clauses("split"))
	used, inlined := map[string]bool{}, map[string]bool{}
	for m := 0; m < 1<<nsplit; m++ {
		if onlyCase > 0 && m != onlyCase-1 {
			continue
		}
		if m > 0 {
			resetTerms()
		}
		r := &FnRes{}
		x := NewExec(v, fn, con)
		x.split = m
		x.run(fn, con)
		x.decide(r)
		res.Returns += x.nret
		res.Trivial += x.trivial
		res.Loops += len(x.loops)
		res.Invs += r.Invs
		res.Covers += r.Covers
		res.CoverBad += r.CoverBad
		res.Vacuous = res.Vacuous || r.Vacuous
		for _, o := range r.Obls {
			if nsplit > 0 {
				o.ID += fmt.Sprintf("/case%d", m)
			}
			res.Obls = append(res.Obls, o)
		}
		for k := range x.used {
			used[k] = true
		}
		for k := range x.inlined {
			inlined[k] = true
		}
	}
	for k := range used {
		res.Used = append(res.Used, k)
	}
	sort.Strings(res.Used)
	for k := range inlined {
		res.Inlined = append(res.Inlined, k)
	}
	sort.Strings(res.Inlined)
	res.Solver = map[string]int64{}
	for k, d := range solverTime {
		res.Solver[k] = d.Milliseconds()
	}
	res.Queries = solverCount
	return
}

func (x *Exec) run(fn *ssa.Function, con *Contract) {
	v := x.V
	st := &State{heap: map[string]*Term{}, env: map[ssa.Value]*Val{}}
	names := map[string]*Val{}
	var args []*Val
	x.rootNames = names
	x.specPkg = con.Pkg
	if fn.Pkg != nil {
		x.specPkg = fn.Pkg.Pkg.Name()
	}
	for i, p := range fn.Params {
		a := x.freshVal(p.Name(), p.Type())
		if _, ok := p.Type().Underlying().(*types.Pointer); ok {
			v.noteType(derefT(p.Type()))
			if i == 0 && fn.Signature.Recv() != nil {
				x.facts = append(x.facts, Neq(a.C[0], C32(0)))
			}
		}
		if isInt(p.Type()) && a.C[0].sort == BV64 {
			x.trig(a.C[0])
		}
		args = append(args, a)
		if i < len(con.Params) {
			names[con.Params[i]] = a
		}
	}
	if len(con.Params) != len(fn.Params) {
		x.unsupported(True, fmt.Sprintf("the contract has %d parameters, the code has %d", len(con.Params), len(fn.Params)))
	}
	var binds []*Val
	for _, f := range fn.FreeVars {
		a := x.freshVal(f.Name(), f.Type())
		if _, ok := f.Type().Underlying().(*types.Pointer); ok {
			v.noteType(derefT(f.Type()))
			x.facts = append(x.facts, Neq(a.C[0], C32(0)))
		}
		binds = append(binds, a)
	}
	// preconditions
	ev := &Ev{x: x, cur: st, names: names, pkg: x.specPkg}
	for _, c := range con.clauses("requires") {
		t, err := ev.try(c.E)
		if err != "" {
			x.specError(True, "requires "+c.Text, err)
			continue
		}
		x.assume(True, t)
	}
	for _, c := range con.clauses("assumes") {
		if t, err := ev.try(c.E); err == "" {
			x.assume(True, t)
		} else {
			x.specError(True, "assumes "+c.Text, err)
		}
	}
	for i, c := range con.clauses("split") {
		t, err := ev.try(c.E)
		if err != "" {
			x.specError(True, "split "+c.Text, err)
			continue
		}
		if x.split>>i&1 == 1 {
			t = Not(t)
		}
		x.assume(True, t)
	}
	// what the preconditions fix is read as the value they fix
	for _, f := range x.facts {
		for _, c := range conjuncts(f) {
			knownRead(c)
		}
	}
	x.entry = &State{heap: map[string]*Term{}, env: map[ssa.Value]*Val{}}
	// permissions
	var ents []modEntry
	unmod := map[string]bool{}
	var selfImpl *Impl
	var selfV *Val
	if fn.Signature.Recv() != nil {
		selfImpl = v.implOf(fn.Signature.Recv().Type())
		selfV = args[0]
		if selfImpl != nil && selfImpl.Pkg == x.world {
			if m := v.spec.Models[selfImpl.Pkg+"."+selfImpl.Iface]; m != nil {
				for f := range m.Fns {
					unmod[f] = true
				}
			}
		}
	}
	for _, c := range con.clauses("modifies") {
		m, err := ev.trySet(c.E)
		if err != "" {
			x.specError(True, "modifies "+c.Text, err)
			continue
		}
		ents = append(ents, m...)
	}
	var perms []modEntry
	implDone := map[*Term]bool{}
	for _, m := range ents {
		if m.kind == "implmodel" {
			if selfV != nil && m.ref == modelRef(selfV) {
				delete(unmod, m.fn)
			}
			if implDone[m.ref] {
				continue
			}
			implDone[m.ref] = true
			for _, a := range args {
				if im := v.implOf(a.T); im != nil && modelRef(a) == m.ref {
					perms = append(perms, x.implMods(im, a, st)...)
				}
			}
			continue
		}
		perms = append(perms, m)
	}
	for _, m := range perms {
		for _, k := range m.keys {
			p := permEntry{prefix: k.key, ref: m.ref, cond: m.pred}
			x.writable = append(x.writable, p)
		}
	}
	if con.Owns != nil {
		if con.Owns.K == "ident" && con.Owns.Name == "result" {
			x.owner = Fresh("owner_of_result", BV32)
		} else if o, err := ev.tryVal(con.Owns); err == "" {
			x.owner = o.C[0]
		}
	}
	x.coverAt = append(x.coverAt, len(x.facts))
	x.covers = append(x.covers, True)
	x.curPos = fn.Pos()
	rets := x.execFn(fn, args, binds, True, st, nil)
	x.nret = len(rets)
	x.curPos = token.NoPos
	for ri, r := range rets {
		rn := map[string]*Val{}
		for k, q := range names {
			rn[k] = q
		}
		vals := r.vals
		for i, n := range con.Results {
			if i < len(vals) {
				rn[n] = vals[i]
			}
		}
		pos := ""
		if r.pos.IsValid() {
			p := v.fset.Position(r.pos)
			pos = fmt.Sprintf("%s:%d", shortFile(p.Filename), p.Line)
		}
		if con.Owns != nil && con.Owns.Name == "result" && len(vals) > 0 {
			x.assume(r.pc, Eq(x.owner, modelRef(vals[0])))
		}
		pe := &Ev{x: x, cur: r.st, old: x.entry, names: rn, oldNames: rn, pkg: x.specPkg, oldNext: x.next0}
		for _, c := range con.clauses("define") {
			if t, err := pe.try(c.E); err == "" {
				x.assume(True, t)
			}
		}
		for _, c := range con.clauses("ensures") {
			t, err := pe.try(c.E)
			if err != "" {
				x.obligation(&Obl{Kind: "spec", PC: r.pc, Cond: False, Labels: c.Labels, Desc: "contract cannot be read against this code: ensures " + c.Text + ": " + err, Pos: pos})
				continue
			}
			for _, part := range conjuncts(t) {
				x.obligation(&Obl{Kind: "ensures", PC: r.pc, Cond: part, Labels: c.Labels, Desc: fmt.Sprintf("postcondition (return %d): %s", ri+1, c.Text), Pos: pos})
			}
		}
		// model functions the contract does not list are unchanged
		if selfImpl != nil {
			m := v.spec.Models[selfImpl.Pkg+"."+selfImpl.Iface]
			var fs []string
			for f := range unmod {
				fs = append(fs, f)
			}
			sort.Strings(fs)
			for _, f := range fs {
				if selfImpl.Defs[f] == nil {
					continue
				}
				args := []*Val{selfV}
				var bvs []*Term
				for range m.Fns[f].Params {
					b := BoundVar("i", BV64)
					bvs = append(bvs, b)
					args = append(args, &Val{T: intT, C: []*Term{b}})
				}
				n1 := &Ev{x: x, cur: r.st, names: rn, pkg: x.specPkg}
				n0 := &Ev{x: x, cur: x.entry, names: rn, pkg: x.specPkg}
				func() {
					defer func() {
						if q := recover(); q != nil {
							if s, ok := q.(specErr); ok {
								x.specError(r.pc, "model function "+f, s.msg)
								return
							}
							panic(q)
						}
					}()
					a, b := n1.concrete(n1.modelApp(m, selfImpl, f, args), intT), n0.concrete(n0.modelApp(m, selfImpl, f, args), intT)
					var cs []*Term
					for i := range a.C {
						cs = append(cs, Eq(a.C[i], b.C[i]))
					}
					if len(bvs) == 0 && len(cs) == 1 && a.C[0].sort == BoolS {
						nw, od := a.C[0], b.C[0]
						if nw == od {
							x.obligation(&Obl{Kind: "ensures", PC: r.pc, Cond: True, Desc: fmt.Sprintf("%s(self) is preserved (return %d)", f, ri+1), Pos: pos})
							return
						}
						for _, part := range conjuncts(nw) {
							x.obligation(&Obl{Kind: "ensures", PC: r.pc, Cond: Or(Not(od), part), Desc: fmt.Sprintf("%s(self) is preserved (return %d)", f, ri+1), Pos: pos})
						}
						x.obligation(&Obl{Kind: "ensures", PC: r.pc, Cond: Or(Not(nw), od), Desc: fmt.Sprintf("%s(self) is unchanged (return %d)", f, ri+1), Pos: pos})
						return
					}
					t := And(cs...)
					for _, b := range bvs {
						t = Forall(b, t)
					}
					x.obligation(&Obl{Kind: "ensures", PC: r.pc, Cond: t, Desc: fmt.Sprintf("%s(self) is unchanged (return %d)", f, ri+1), Pos: pos})
				}()
			}
		}
	}
}

// decide discharges the obligations of an executed function
func (x *Exec) decide(res *FnRes) {
	t0 := time.Now()
	to := time.Duration(queryTimeout) * time.Second
	factsUpTo := func(n int) []*Term {
		var fs []*Term
		for i := 0; i < n; i++ {
			if c := x.factCand[i]; c != nil && !c.alive {
				continue
			}
			fs = append(fs, x.facts[i])
		}
		// selectors of live candidates hold
		for _, l := range x.loops {
			for _, c := range l.cands {
				if c.alive {
					fs = append(fs, c.sel)
				}
			}
		}
		return fs
	}
	// --- Houdini
	phase = "inv"
	if verbose {
		defer func() {
			for k, d := range phaseTime {
				fmt.Fprintf(os2, "  -- %s: %d queries, %v\n", k, phaseCount[k], d)
			}
		}()
	}
	// what is wanted may need no invariant at all
	early := map[*Obl]solverRes{}
	allEarly := false
	if curSel != nil && strings.HasPrefix(res.Fn, "parser.") && !(curSel.Term && len(x.loops) > 0) {
		var want []*Obl
		for _, o := range x.obls {
			if o.Cand < 0 && o.Status == "" && o.Kind != "term" && curSel.counts(o.Kind, o.frameOf(), o.Labels) {
				want = append(want, o)
			}
		}
		ok := len(want) <= 16
		for _, l := range x.loops {
			for _, c := range l.cands {
				ok = ok && !(c.user && hasLabel(c.labels, curSel.ID))
			}
		}
		if ok {
			var mu sync.Mutex
			var wg sync.WaitGroup
			for _, o := range want {
				o := o
				u := newUnder(o.PC)
				var fs []*Term
				for i := 0; i < o.NFacts; i++ {
					if x.factCand[i] == nil {
						fs = append(fs, x.facts[i])
					}
				}
				fs = u.facts(fs)
				goal := u.term(o.Cond)
				qs := x.slicedQueries(fs, o.PC, goal)
				q, _ := x.query(append(fs[:len(fs):len(fs)], o.PC, Not(goal)))
				qs = append(qs, q)
				wg.Add(1)
				go func() {
					defer wg.Done()
					if r := anyUnsat(qs, 3*time.Second); r.res == "unsat" {
						mu.Lock()
						early[o] = r
						mu.Unlock()
					}
				}()
			}
			wg.Wait()
			for o := range early {
				o.Status = "unsat"
			}
			if len(early) == len(want) {
				allEarly = true
				for _, o := range x.obls {
					if o.Status == "" {
						o.Status = "skipped"
						if o.Cand >= 0 {
							o.Status = "dropped"
						}
					}
				}
				for _, l := range x.loops {
					for _, c := range l.cands {
						c.alive = false
					}
				}
			}
		}
	}
	type grp struct {
		pc  *Term
		nf  int
		obs []*Obl
	}
	group := func(f func(o *Obl) bool) []*grp {
		var gs []*grp
		idx := map[[2]int]*grp{}
		for _, o := range x.obls {
			if o.Status != "" || !f(o) {
				continue
			}
			k := [2]int{o.PC.id, o.NFacts}
			if idx[k] == nil {
				idx[k] = &grp{pc: o.PC, nf: o.NFacts}
				gs = append(gs, idx[k])
			}
			idx[k].obs = append(idx[k].obs, o)
		}
		return gs
	}
	isInv := func(o *Obl) bool { return o.Cand >= 0 }
	aliveObl := func(o *Obl) bool { return isInv(o) && o.Loop.cands[o.Cand].alive }
	kill := func(o *Obl, why string) {
		if verbose {
			fmt.Fprintf(os2, "    kill %s (%s, %s)\n", o.Desc, o.Kind, why)
		}
		o.Loop.cands[o.Cand].alive = false
	}
	type pcCtx struct {
		u     *underPC // branch conditions
		g     *underPC // and the ground facts under them
		facts []*Term
		known map[*Term]bool // quantified facts
	}
	ctxs := map[[2]int]*pcCtx{}
	under := func(pc *Term, n int) *pcCtx {
		k := [2]int{pc.id, n}
		c := ctxs[k]
		if c == nil {
			c = &pcCtx{u: newUnder(pc), known: map[*Term]bool{}}
			c.facts = c.u.facts(factsUpTo(n))
			c.g = newUnder(pc)
			for _, f := range c.facts {
				for _, l := range conj(f) {
					if !l.fv {
						c.g.lit(l)
					} else {
						c.known[l] = true
					}
				}
			}
			ctxs[k] = c
		}
		return c
	}
	// assumed: the goal is among the facts, once they are simplified
	assumed := func(c *pcCtx, cond *Term) bool {
		for _, g := range conj(cond) {
			if g.fv && c.known[c.u.term(g)] {
				continue
			}
			if c.g.term(g) != True {
				return false
			}
		}
		return true
	}
	// quick pass: candidates refuted by models, in groups
	quickPass := func(quant bool) (killed bool, rest []*Obl) {
		var mu sync.Mutex
		var wg sync.WaitGroup
		ctxs = map[[2]int]*pcCtx{}
		for _, g := range group(func(o *Obl) bool { return aliveObl(o) && o.Cond.fv == quant }) {
			c := under(g.pc, g.nf)
			var open []*Obl
			for _, o := range g.obs {
				if !assumed(c, o.Cond) {
					open = append(open, o)
				}
			}
			if len(open) == 0 {
				continue
			}
			q, names, os := x.groupQuery(factsUpTo(g.nf), g.pc, open)
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := solveQuick(q, "(get-value ("+strings.Join(names, " ")+"))\n", 4*time.Second)
				mu.Lock()
				defer mu.Unlock()
				switch r.res {
				case "unsat":
				case "sat":
					m := parseValues(r.out)
					n := 0
					for i, o := range os {
						if m[names[i]] == "false" {
							kill(o, "sat")
							killed = true
							n++
						}
					}
					if n == 0 {
						if verbose {
							fmt.Fprintf(os2, "    sat without a victim (quantified %v, %d goals): %s\n", quant, len(os), firstLines(r.out, 3))
						}
						rest = append(rest, os...)
					}
				default:
					rest = append(rest, os...)
				}
			}()
		}
		wg.Wait()
		return
	}
	type hardObl struct {
		o *Obl
		q string
	}
	// functions outside the parser have few facts and small queries
	small := !strings.HasPrefix(res.Fn, "parser.")
	slowPass := func(l []*Obl) (killed bool) {
		var mu sync.Mutex
		var wg sync.WaitGroup
		var hard []hardObl
		if small {
			for _, o := range l {
				o := o
				if !o.Loop.cands[o.Cand].alive {
					continue
				}
				q, _, _ := x.groupQuery(factsUpTo(o.NFacts), o.PC, []*Obl{o})
				pre := x.slicedQueries(factsUpTo(o.NFacts), o.PC, o.Cond)
				wg.Add(1)
				go func() {
					defer wg.Done()
					for _, pq := range pre {
						if solveQuick(pq, "", 4*time.Second).res == "unsat" {
							return
						}
					}
					if r := solve(q, "", to); r.res != "unsat" {
						mu.Lock()
						kill(o, r.res)
						killed = true
						mu.Unlock()
					}
				}()
			}
			wg.Wait()
			return
		}
		// some at a time first
		var chunks [][]*Obl
		at := map[[2]int]int{}
		for _, o := range l {
			k := [2]int{o.PC.id, o.NFacts}
			i, ok := at[k]
			if !ok || len(chunks[i]) == 8 {
				i = len(chunks)
				at[k] = i
				chunks = append(chunks, nil)
			}
			chunks[i] = append(chunks[i], o)
		}
		l = nil
		for _, os := range chunks {
			os := os
			if len(os) == 1 {
				mu.Lock()
				l = append(l, os...)
				mu.Unlock()
				continue
			}
			c := under(os[0].PC, os[0].NFacts)
			var cs []*Term
			for _, o := range os {
				cs = append(cs, c.u.term(o.Cond))
			}
			goal := And(cs...)
			qs := x.slicedQueries(c.facts, os[0].PC, goal)
			q, _ := x.query(append(c.facts[:len(c.facts):len(c.facts)], os[0].PC, Not(goal)))
			qs = append(qs, q)
			wg.Add(1)
			go func() {
				defer wg.Done()
				if anyUnsat(qs, 4*time.Second).res == "unsat" {
					return
				}
				mu.Lock()
				l = append(l, os...)
				if verbose {
					for _, o := range os {
						fmt.Fprintf(os2, "    hard chunk %s %s %d\n", o.ID, o.Desc, o.NFacts)
					}
				}
				mu.Unlock()
			}()
		}
		wg.Wait()
		sort.Slice(l, func(i, j int) bool { return l[i].ID < l[j].ID })
		for _, o := range l {
			o := o
			if !o.Loop.cands[o.Cand].alive {
				continue
			}
			u := newUnder(o.PC)
			fs := u.facts(factsUpTo(o.NFacts))
			goal := u.term(o.Cond)
			if goal == True {
				continue
			}
			q, _ := x.query(append(fs[:len(fs):len(fs)], o.PC, Not(goal)))
			pre := x.slicedQueries(fs, o.PC, goal)
			if d := os.Getenv("GOVC_DUMPINV"); d != "" && strings.Contains(o.Desc, d) {
				os.WriteFile("/tmp/govc_inv.smt2", []byte(q+"(check-sat)\n"), 0o644)
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				if anyUnsat(pre, 4*time.Second).res == "unsat" {
					return
				}
				r := solveQuick(q, "", 4*time.Second)
				if r.res == "unsat" {
					return
				}
				mu.Lock()
				defer mu.Unlock()
				if r.res == "sat" {
					kill(o, r.res)
					killed = true
					return
				}
				hard = append(hard, hardObl{o, q})
			}()
		}
		wg.Wait()
		for _, h := range hard {
			h := h
			ps := x.pathQueries(factsUpTo(h.o.NFacts), h.o.PC, h.o.Cond)
			wg.Add(1)
			go func() {
				defer wg.Done()
				if solvePaths(ps) {
					return
				}
				if r := solve(h.q, "", to); r.res != "unsat" {
					mu.Lock()
					kill(h.o, r.res)
					killed = true
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		return
	}
	for iter := 0; iter < 60; iter++ {
		if verbose {
			fmt.Fprintf(os2, "  -- round %d at %v\n", iter, time.Since(t0))
		}
		k, rest := quickPass(false)
		if k {
			continue
		}
		if slowPass(rest) {
			continue
		}
		k, rest = quickPass(true)
		if k {
			continue
		}
		if slowPass(rest) {
			continue
		}
		for _, o := range x.obls {
			if o.Status == "" && aliveObl(o) {
				o.Status = "unsat"
			}
		}
		break
	}
	for _, o := range x.obls {
		if o.Cand >= 0 && o.Status == "" || o.Cand >= 0 && !o.Loop.cands[o.Cand].alive {
			o.Status = "dropped"
		}
	}
	for _, l := range x.loops {
		for _, c := range l.cands {
			if c.alive {
				res.Invs++
			}
			if verbose {
				fmt.Fprintf(os2, "    loop %s: %v %s\n", l.pos, c.alive, c.desc)
			}
		}
	}
	if verbose {
		fmt.Fprintf(os2, "  -- invariants settled at %v\n", time.Since(t0))
	}
	// --- the rest
	phase = "rest"
	if curSel != nil {
		for _, o := range x.obls {
			if o.Cand < 0 && !curSel.counts(o.Kind, o.frameOf(), o.Labels) {
				o.Status = "skipped"
			}
		}
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	type rr struct {
		solver string
		ms     int64
		model  string
	}
	rs := map[*Obl]rr{}
	ctxs = map[[2]int]*pcCtx{}
	type lateObl struct {
		o       *Obl
		q, tail string
	}
	var late []lateObl
	single := func(o *Obl) {
		c := under(o.PC, o.NFacts)
		goal := c.u.term(o.Cond)
		fs := c.facts
		q, p := x.query(append(fs, o.PC, Not(goal)))
		tail := x.modelTail(p)
		pre := x.slicedQueries(fs, o.PC, goal)
		if d := os.Getenv("GOVC_DUMP"); d != "" && strings.Contains(o.ID, d) {
			os.WriteFile("/tmp/govc_dump.smt2", []byte(q+"(check-sat)\n"), 0o644)
			fmt.Fprintf(os2, "GOAL %s %s\nPC %s\n", o.ID, goal.str(7), o.PC.str(5))
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			var r solverRes
			for _, pq := range pre {
				if r = solveQuick(pq, "", 4*time.Second); r.res == "unsat" {
					break
				}
			}
			if r.res != "unsat" {
				r = solveQuick(q, tail, 4*time.Second)
			}
			mu.Lock()
			defer mu.Unlock()
			if r.res != "unsat" && r.res != "sat" {
				late = append(late, lateObl{o, q, tail})
				return
			}
			o.Status = r.res
			m := ""
			if r.res == "sat" {
				m = modelText(parseValues(r.out))
			}
			rs[o] = rr{r.solver, r.dur.Milliseconds(), m}
		}()
	}
	// wait for the solvers; what they could not settle is tried path by path,
	// then with every solver and the full time
	settle := func() {
		wg.Wait()
		ls := late
		late = nil
		for _, l := range ls {
			l := l
			ps := x.pathQueries(factsUpTo(l.o.NFacts), l.o.PC, l.o.Cond)
			wg.Add(1)
			go func() {
				defer wg.Done()
				t0 := time.Now()
				var r solverRes
				if solvePaths(ps) {
					r = solverRes{res: "unsat", solver: "z3-new/paths", dur: time.Since(t0)}
				} else {
					r = solve(l.q, l.tail, to)
				}
				mu.Lock()
				defer mu.Unlock()
				l.o.Status = r.res
				m := ""
				if r.res == "sat" {
					m = modelText(parseValues(r.out))
				}
				rs[l.o] = rr{r.solver, r.dur.Milliseconds(), m}
			}()
		}
		wg.Wait()
	}
	// goals that are literally among the assumptions
	known := map[int]map[*Term]bool{}
	for _, o := range x.obls {
		if o.Status != "" || o.Kind == "term" || o.Cand >= 0 {
			continue
		}
		k := known[o.NFacts]
		if k == nil {
			k = map[*Term]bool{}
			for _, f := range factsUpTo(o.NFacts) {
				for _, c := range conj(f) {
					k[c] = true
				}
			}
			known[o.NFacts] = k
		}
		ok := true
		for _, c := range conj(o.Cond) {
			if !k[c] {
				ok = false
				break
			}
		}
		if ok {
			o.Status = "unsat"
			rs[o] = rr{"assumption", 0, ""}
		}
	}
	// quantified goals in small groups
	var gs []*grp
	for _, g := range group(func(o *Obl) bool { return o.Kind != "term" && o.Cand < 0 }) {
		cur := &grp{pc: g.pc, nf: g.nf}
		n := 0
		for _, o := range g.obs {
			if o.Cond.fv {
				n++
			}
			if n > 1 {
				gs = append(gs, cur)
				cur, n = &grp{pc: g.pc, nf: g.nf}, 1
			}
			cur.obs = append(cur.obs, o)
		}
		if len(cur.obs) > 0 {
			gs = append(gs, cur)
		}
	}
	for _, g := range gs {
		g := g
		c := under(g.pc, g.nf)
		var left []*Obl
		for _, o := range g.obs {
			if assumed(c, o.Cond) {
				mu.Lock()
				o.Status = "unsat"
				rs[o] = rr{"assumption", 0, ""}
				mu.Unlock()
				continue
			}
			left = append(left, o)
		}
		g.obs = left
		if len(g.obs) == 0 {
			continue
		}
		if len(g.obs) == 1 {
			single(g.obs[0])
			continue
		}
		var cs []*Term
		for _, o := range g.obs {
			cs = append(cs, o.Cond)
		}
		q, _ := x.query(append(c.facts, g.pc, Not(c.u.term(And(cs...)))))
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := solveQuick(q, "", 5*time.Second)
			mu.Lock()
			defer mu.Unlock()
			if r.res == "unsat" {
				for _, o := range g.obs {
					o.Status = "unsat"
					rs[o] = rr{r.solver, r.dur.Milliseconds() / int64(len(g.obs)), ""}
				}
			}
		}()
	}
	settle()
	for _, o := range x.obls {
		if o.Status == "" && o.Kind != "term" {
			single(o)
		}
	}
	settle()
	phase = "term"
	// --- termination: one measure per loop has to decrease on every back edge
	if curSel != nil && !curSel.Term {
		// decided under another property
	} else if x.con != nil && x.con.NoTerm {
		for _, o := range x.obls {
			if o.Kind == "term" {
				o.Status = "dropped"
			}
		}
	} else {
		for _, l := range x.loops {
			if l.back == 0 {
				continue
			}
			ok := false
			n := len(l.meas)
			if n == 0 {
				n = 1
			}
			for mi := 0; mi < n && !ok; mi++ {
				good := true
				var mine []*Obl
				for _, o := range x.obls {
					if o.Kind == "term" && o.Loop == l && o.Meas == mi {
						mine = append(mine, o)
					}
				}
				for _, o := range mine {
					if o.Status == "trivial" {
						continue
					}
					single(o)
				}
				settle()
				for _, o := range mine {
					if o.Status != "unsat" && o.Status != "trivial" {
						good = false
					}
				}
				if good && len(mine) > 0 {
					ok = true
					for _, o := range x.obls {
						if o.Kind == "term" && o.Loop == l && o.Meas != mi {
							o.Status = "dropped"
						}
					}
				}
			}
			if !ok {
				first := true
				for _, o := range x.obls {
					if o.Kind == "term" && o.Loop == l {
						if first {
							o.Desc = "the loop terminates: no measure decreases on every iteration"
							o.Status = "sat"
							first = false
						} else {
							o.Status = "dropped"
						}
					}
				}
			}
		}
		for _, o := range x.obls {
			if o.Kind == "term" && o.Loop == nil && o.Status == "" {
				single(o)
			}
		}
		settle()
	}
	// --- vacuity
	for i, c := range x.covers {
		if i > 6 || i > 0 && allEarly {
			break
		}
		n := len(x.facts)
		if i < len(x.coverAt) {
			n = x.coverAt[i]
		}
		q, _ := x.query(append(factsUpTo(n), c))
		wg.Add(1)
		i := i
		go func() {
			defer wg.Done()
			r, _ := "", ""
			r, _ = runSolver(context.Background(), "z3-new", []string{"-in", "-T:5"}, q+"(check-sat)\n", 5*time.Second)
			mu.Lock()
			defer mu.Unlock()
			res.Covers++
			if r == "unsat" {
				res.CoverBad++
				if i == 0 {
					res.Vacuous = true
				}
			}
		}()
	}
	wg.Wait()
	for _, o := range x.obls {
		if o.Status == "skipped" {
			continue
		}
		if o.Status == "dropped" {
			// a user invariant that does not hold is an obligation of its own
			if o.Cand >= 0 && o.Loop.cands[o.Cand].user && len(o.Loop.cands[o.Cand].labels) > 0 {
				res.Obls = append(res.Obls, OblRes{ID: o.ID, Kind: o.Kind, Desc: o.Desc, Pos: o.Pos, Status: "sat", Labels: o.Loop.cands[o.Cand].labels})
			}
			continue
		}
		r := rs[o]
		if e, ok := early[o]; ok {
			r = rr{e.solver, e.dur.Milliseconds(), ""}
		}
		fr := o.frameOf()
		res.Obls = append(res.Obls, OblRes{ID: o.ID, Kind: o.Kind, Desc: o.Desc, Pos: o.Pos, Status: o.Status, Solver: r.solver, Labels: o.Labels, Ms: r.ms, Model: r.model, Callee: o.Callee, Frame: fr})
	}
}

func (o *Obl) frameOf() string {
	if o.Kind == "frame" && (strings.Contains(o.Desc, "package variable") || strings.Contains(o.Desc, "standard output")) {
		return "global"
	}
	return ""
}

var os2 = os.Stderr // progress

// groupQuery asks whether any of the candidates of a group fails
func (x *Exec) groupQuery(fs []*Term, pc *Term, obs []*Obl) (string, []string, []*Obl) {
	var live []*Obl
	for _, o := range obs {
		if o.Loop.cands[o.Cand].alive {
			live = append(live, o)
		}
	}
	var names []string
	as := append(fs, pc)
	var cs []*Term
	for i, o := range live {
		b := Var(fmt.Sprintf("C%d", i), BoolS)
		names = append(names, fmt.Sprintf("C%d", i))
		as = append(as, Eq(b, o.Cond))
		cs = append(cs, b)
	}
	as = append(as, Not(And(cs...)))
	q, p := x.query(as)
	_ = p
	return q, names, live
}

func (x *Exec) modelTail(p *smtPrinter) string {
	var ns []string
	for n := range p.decl {
		if strings.HasPrefix(n, "app:") || strings.HasPrefix(n, "?") {
			continue
		}
		ns = append(ns, n)
	}
	sort.Strings(ns)
	var out []string
	for _, n := range ns {
		if strings.HasPrefix(n, "inv!") || strings.HasPrefix(n, "Q!") || strings.ContainsAny(n, "@:") {
			continue
		}
		out = append(out, smtName(n))
		if len(out) > 60 {
			break
		}
	}
	if len(out) == 0 {
		return ""
	}
	return "(get-value (" + strings.Join(out, " ") + "))\n"
}

func modelText(m map[string]string) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for i, k := range ks {
		if i > 60 {
			break
		}
		fmt.Fprintf(&b, "%s=%s ", k, m[k])
	}
	return strings.TrimSpace(b.String())
}
