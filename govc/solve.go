package main

import (
	"bytes"
	"context"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// ---------------------------------------------------------------- quantifiers

type qState struct {
	x     *Exec
	b     map[*Term]*Term // Forall term -> boolean
	order []*Term
	pol   map[*Term]int // 1 positive (assumed), 2 negative (to prove), 3 both
	sk    map[*Term]*Term
	done  map[[2]*Term]bool
	trigs []*Term
	out   []*Term
	named int
}

func heads(t *Term, out map[string]bool, d int) {
	if d > 40 {
		return
	}
	switch t.op {
	case OVar:
		n := t.name
		if i := strings.LastIndex(n, "@"); i >= 0 {
			n = n[:i]
		} else if i := strings.LastIndex(n, "!"); i >= 0 {
			n = n[:i]
		}
		out[n] = true
	case OSelect:
		heads(t.args[0], out, d+1)
	case OStore:
		heads(t.args[0], out, d+1)
	case OIte:
		heads(t.args[1], out, d+1)
		heads(t.args[2], out, d+1)
	case OMix:
		heads(t.args[0], out, d+1)
		heads(t.args[1], out, d+1)
	case OConstArr:
		out["K"] = true
	}
}

// polarity walk: p=1 the formula is asserted, 2 its negation is
func (q *qState) walk(t *Term, p int, seen map[[2]interface{}]bool) {
	if !t.fv {
		return
	}
	k := [2]interface{}{t, p}
	if seen[k] {
		return
	}
	seen[k] = true
	flip := func(p int) int {
		switch p {
		case 1:
			return 2
		case 2:
			return 1
		}
		return 3
	}
	switch t.op {
	case OForall:
		if _, ok := q.pol[t]; !ok {
			q.order = append(q.order, t)
		}
		q.pol[t] |= p
	case ONot:
		q.walk(t.args[0], flip(p), seen)
	case OAnd, OOr:
		for _, a := range t.args {
			q.walk(a, p, seen)
		}
	case OIte:
		q.walk(t.args[0], 3, seen)
		q.walk(t.args[1], p, seen)
		q.walk(t.args[2], p, seen)
	default:
		for _, a := range t.args {
			q.walk(a, 3, seen)
		}
	}
}

func (q *qState) abstract(t *Term) *Term {
	if !t.fv {
		return t
	}
	q.walk(t, 1, map[[2]interface{}]bool{})
	return substFV(t, q.bmap())
}

func (q *qState) bmap() map[*Term]*Term {
	for ; q.named < len(q.order); q.named++ {
		f := q.order[q.named]
		if q.b[f] == nil {
			q.b[f] = Fresh("Q", BoolS)
		}
	}
	return q.b
}

// substFV substitutes in terms with quantifiers or bound variables only
func substFV(t *Term, m map[*Term]*Term) *Term {
	cache := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if !t.fv && t.op != OMix {
			return t
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := cache[t]; ok {
			return r
		}
		ch := false
		na := make([]*Term, len(t.args))
		for i, a := range t.args {
			na[i] = rec(a)
			if na[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, na)
		}
		cache[t] = r
		return r
	}
	return rec(t)
}

type pat struct {
	heads []string
	row   *Term // the array that is indexed, when its reference is ground
	off   *Term // index = v + off
}

func patterns(v, body *Term) []pat {
	var out []pat
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || !t.fv {
			return
		}
		seen[t] = true
		if t.op == OSelect && t.args[1].sort == v.sort {
			idx := t.args[1]
			var off *Term
			ok := true
			if idx == v {
				off = C(v.sort.W, 0)
			} else {
				off, ok = linear(idx, v)
			}
			if ok && off != nil {
				h := map[string]bool{}
				heads(t.args[0], h, 0)
				var hs []string
				for k := range h {
					hs = append(hs, k)
				}
				sort.Strings(hs)
				out = append(out, pat{hs, rowOf(t), off})
			}
		}
		if t.op == OApp {
			for i, a := range t.args {
				if a.sort == v.sort && a.sort == BV64 && a.fv {
					if off, ok := linear(a, v); ok {
						out = append(out, pat{[]string{appHead(t, i)}, nil, off})
					}
				}
			}
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(body)
	return out
}

// appHead: applications of specification functions are matched per argument place
func appHead(t *Term, i int) string { return "app:" + t.name + ":" + strconv.Itoa(i) }

// rowOf: the reference in select(select(E, ref), i)
func rowOf(t *Term) *Term {
	if r := t.args[0]; r.op == OSelect && !r.args[1].fv {
		return r.args[1]
	}
	return nil
}

// linear: t = v + off with off free of bound variables
func linear(t, v *Term) (*Term, bool) {
	if t == v {
		return C(v.sort.W, 0), true
	}
	if t.op == OAdd {
		if o, ok := linear(t.args[0], v); ok && !t.args[1].fv {
			return Add(o, t.args[1]), true
		}
		if o, ok := linear(t.args[1], v); ok && !t.args[0].fv {
			return Add(o, t.args[0]), true
		}
	}
	if t.op == OSub {
		if o, ok := linear(t.args[0], v); ok && !t.args[1].fv {
			return Sub(o, t.args[1]), true
		}
	}
	return nil, false
}

type sel struct {
	head string
	idx  *Term
}

func groundSelects(ts []*Term, seen map[*Term]bool, out map[string]map[*Term]bool, rows map[*Term]map[*Term]bool) {
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OForall {
			return
		}
		if t.op == OSelect && !t.fv && t.args[1].sort == BV64 {
			h := map[string]bool{}
			heads(t.args[0], h, 0)
			if r := rowOf(t); r != nil {
				if rows[r] == nil {
					rows[r] = map[*Term]bool{}
				}
				rows[r][t.args[1]] = true
			}
			for k := range h {
				if out[k] == nil {
					out[k] = map[*Term]bool{}
				}
				out[k][t.args[1]] = true
			}
		}
		if t.op == OApp {
			for i, a := range t.args {
				if a.sort == BV64 && !a.fv {
					k := appHead(t, i)
					if out[k] == nil {
						out[k] = map[*Term]bool{}
					}
					out[k][a] = true
				}
			}
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	for _, t := range ts {
		rec(t)
	}
}

// quantifierFree turns a set of asserted formulas into a quantifier-free
// weakening: universally quantified facts are instantiated, negated ones are
// skolemised (both sound for refutation)
func (x *Exec) quantifierFree(fs []*Term) []*Term {
	any := false
	for _, f := range fs {
		if f.fv {
			any = true
			break
		}
	}
	if !any {
		return fs
	}
	q := &qState{x: x, b: map[*Term]*Term{}, pol: map[*Term]int{}, sk: map[*Term]*Term{}, done: map[[2]*Term]bool{}}
	seenPol := map[[2]interface{}]bool{}
	for _, f := range fs {
		if f.fv {
			q.walk(f, 1, seenPol)
		}
	}
	q.bmap()
	var out []*Term
	for _, f := range fs {
		if f.fv {
			f = substFV(f, q.b)
		}
		out = append(out, f)
	}
	var sks []*Term
	gs := map[string]map[*Term]bool{}
	gseen := map[*Term]bool{}
	rows := map[*Term]map[*Term]bool{}
	scanned := 0
	var addFormula func(f *Term)
	addFormula = func(f *Term) {
		if f == True {
			return
		}
		if f.fv {
			q.walk(f, 1, seenPol)
			q.bmap()
			f = substFV(f, q.b)
		}
		out = append(out, f)
	}
	for round := 0; round < 3; round++ {
		// skolemise
		for i := 0; i < len(q.order); i++ {
			f := q.order[i]
			if q.pol[f]&2 != 0 && q.sk[f] == nil {
				s := Fresh("sk", f.args[0].sort)
				q.sk[f] = s
				sks = append(sks, s)
				addFormula(Or(q.b[f], Not(substFV(f.args[1], map[*Term]*Term{f.args[0]: s}))))
			}
		}
		groundSelects(out[scanned:], gseen, gs, rows)
		scanned = len(out)
		n0 := len(q.order)
		for i := 0; i < n0; i++ {
			f := q.order[i]
			if q.pol[f]&1 == 0 {
				continue
			}
			v, body := f.args[0], f.args[1]
			var cands []*Term
			cs := map[*Term]bool{}
			addc := func(t *Term) {
				if t.sort == v.sort && !cs[t] && !t.fv {
					cs[t] = true
					cands = append(cands, t)
				}
			}
			for _, s := range sks {
				addc(s)
			}
			if v.sort == BV64 {
				for _, t := range x.trigs {
					addc(t)
				}
			}
			ps := patterns(v, body)
			same := 0
			for _, p := range ps {
				if p.row == nil {
					continue
				}
				var l []*Term
				for t := range rows[p.row] {
					l = append(l, t)
				}
				sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
				for _, t := range l {
					addc(Sub(t, p.off))
					same++
				}
			}
			for _, p := range ps {
				if p.row != nil && same >= 16 {
					continue
				}
				for _, h := range p.heads {
					var l []*Term
					for t := range gs[h] {
						l = append(l, t)
					}
					sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
					for _, t := range l {
						addc(Sub(t, p.off))
					}
				}
			}
			if len(cands) > 80 {
				cands = cands[:80]
			}
			for _, c := range cands {
				k := [2]*Term{f, c}
				if q.done[k] {
					continue
				}
				q.done[k] = true
				addFormula(Or(Not(q.b[f]), substFV(body, map[*Term]*Term{v: c})))
			}
		}
	}
	if os.Getenv("GOVC_STAT") != "" {
		fmt.Fprintln(os.Stderr, "quantifiers", len(q.order), "skolems", len(sks), "instances", len(out))
	}
	// foralls that remain un-skolemised after the last round
	for i := 0; i < len(q.order); i++ {
		f := q.order[i]
		if q.pol[f]&2 != 0 && q.sk[f] == nil {
			s := Fresh("sk", f.args[0].sort)
			q.sk[f] = s
			addFormula(Or(q.b[f], Not(substFV(f.args[1], map[*Term]*Term{f.args[0]: s}))))
		}
	}
	return out
}

// ---------------------------------------------------------------- queries

// refFacts: the ordering facts about reference terms that occur in raw comparisons

func (x *Exec) refFacts(fs []*Term) []*Term {
	var out []*Term
	nexts := map[int]*Term{}
	for t, s := range nextSeqOf {
		nexts[s] = t
	}
	seen := map[*Term]bool{}
	cand := map[*Term]bool{}
	lens := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.sort == BV32 && t.op != OConst && t.op != OIte {
			if x.refTerms[t] {
				cand[t] = true
			} else if t.op == OSelect && !t.fv {
				h := map[string]bool{}
				heads(t, h, 0)
				for k := range h {
					if refKeys[k] {
						cand[t] = true
					}
				}
			}
		}
		if t.sort == BV64 && t.op == OSelect && !t.fv {
			h := map[string]bool{}
			heads(t, h, 0)
			ok := len(h) > 0
			for k := range h {
				if !lenKeys[k] {
					ok = false
				}
			}
			if ok {
				lens[t] = true
			}
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	for _, f := range fs {
		rec(f)
	}
	var l []*Term
	for t := range lens {
		l = append(l, t)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	for _, t := range l {
		out = append(out, Sle(C64(0), t), Sle(t, C64(maxLen)))
	}
	l = nil
	for t := range cand {
		l = append(l, t)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	for _, t := range l {
		h := refHi(t)
		if h == inf || t.fv {
			continue
		}
		// smallest next with sequence >= h
		best := -1
		for s := range nexts {
			if s >= h && (best < 0 || s < best) {
				best = s
			}
		}
		if best >= 0 {
			out = append(out, mk(OUlt, BoolS, "", 0, t, nexts[best]))
		}
	}
	return out
}

// query prints the refutation problem for the given assertions
func (x *Exec) query(asserts []*Term) (string, *smtPrinter) {
	fs := x.quantifierFree(asserts)
	fs = slice(fs, len(asserts))
	fs = append(fs, x.refFacts(fs)...)
	p := newSmtPrinter()
	p.b.WriteString("(set-logic QF_AUFBV)\n")
	for _, f := range fs {
		if f == True {
			continue
		}
		s := p.ref(f)
		fmt.Fprintf(&p.b, "(assert %s)\n", s)
	}
	return p.b.String(), p
}

func slice(fs []*Term, n int) []*Term { return fs }

// signature: the arrays (and rows of them) that the quantifiers of a formula
// range over; for ground formulas, the arrays they read
func signature(f *Term) map[string]bool {
	out := map[string]bool{}
	seen := map[*Term]bool{}
	add := func(hs map[string]bool, row *Term) {
		r := "-"
		if row != nil {
			r = strconv.Itoa(row.id)
		}
		for h := range hs {
			out[h+"|"+r] = true
		}
	}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OSelect && t.args[1].sort == BV64 {
			h := map[string]bool{}
			heads(t.args[0], h, 0)
			add(h, rowOf(t))
		}
		if t.op == OApp {
			out["app:"+t.name] = true
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(f)
	return out
}

// slicedQueries are refutation problems with fewer assumptions: without any
// quantified one, and with those that speak of the arrays of the goal
func (x *Exec) slicedQueries(fs []*Term, pc, goal *Term) []string {
	var ground, rel []*Term
	gs := signature(goal)
	nfv := 0
	split := append(append([]*Term{}, fs...), pc)
	for _, f := range split {
		for _, c := range conj(f) {
			if !c.fv {
				ground = append(ground, c)
				rel = append(rel, c)
				continue
			}
			nfv++
			for k := range signature(c) {
				if gs[k] {
					rel = append(rel, c)
					break
				}
			}
		}
	}
	if nfv < 4 {
		return nil
	}
	var out []string
	if !goal.fv {
		q, _ := x.query(append(ground, Not(goal)))
		out = append(out, q)
	}
	if len(rel) > len(ground) || goal.fv {
		q, _ := x.query(append(rel, Not(goal)))
		out = append(out, q)
	}
	return out
}

// ---------------------------------------------------------------- solvers

type solverRes struct {
	res    string // unsat sat unknown
	out    string
	solver string
	dur    time.Duration
}

// slots bound the solvers that run at the same time, over all the workers
var slotFiles []*os.File
var slotMu sync.Mutex
var slotBusy []bool

const numSlots = 8

// slot waits for a free slot; the function it returns gives it back
func slot(ctx context.Context) func() {
	slotMu.Lock()
	if slotBusy == nil {
		slotBusy = make([]bool, numSlots)
		if d := os.Getenv("GOVC_SLOTS"); d != "" {
			for i := 0; i < numSlots; i++ {
				f, err := os.OpenFile(filepath.Join(d, strconv.Itoa(i)), os.O_CREATE|os.O_RDWR, 0o600)
				if err != nil {
					slotFiles = nil
					break
				}
				slotFiles = append(slotFiles, f)
			}
		}
	}
	slotMu.Unlock()
	for ctx.Err() == nil {
		slotMu.Lock()
		for i := range slotBusy {
			if slotBusy[i] {
				continue
			}
			if slotFiles != nil && syscall.Flock(int(slotFiles[i].Fd()), syscall.LOCK_EX|syscall.LOCK_NB) != nil {
				continue
			}
			slotBusy[i] = true
			slotMu.Unlock()
			return func() {
				slotMu.Lock()
				slotBusy[i] = false
				if slotFiles != nil {
					syscall.Flock(int(slotFiles[i].Fd()), syscall.LOCK_UN)
				}
				slotMu.Unlock()
			}
		}
		slotMu.Unlock()
		time.Sleep(2 * time.Millisecond)
	}
	return func() {}
}

func runSolver(ctx0 context.Context, name string, args []string, input string, to time.Duration) (string, string) {
	defer slot(ctx0)()
	ctx, cancel := context.WithTimeout(ctx0, to+2*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.Stdin = strings.NewReader(input)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	_ = cmd.Run()
	s := out.String()
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if l == "unsat" || l == "sat" || l == "unknown" {
			return l, s
		}
		if strings.HasPrefix(l, "(error") && !strings.Contains(l, "model is not available") {
			return "error", s
		}
	}
	return "unknown", s
}

var statMu sync.Mutex
var phase string
var phaseTime = map[string]time.Duration{}
var phaseCount = map[string]int{}
var solverTime = map[string]time.Duration{}
var solverCount = map[string]int{}

// solve decides a query; tail is appended after (check-sat).  A first short
// attempt with one solver, then the three of them side by side.
func solve(q, tail string, to time.Duration) solverRes {
	t0 := time.Now()
	first := to / 3
	if first > 4*time.Second {
		first = 4 * time.Second
	}
	if r := solveWith(context.Background(), "z3-new", q, tail, first); r.res == "unsat" || r.res == "sat" {
		return r
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan solverRes, 4)
	for _, n := range []string{"z3-new", "z3-new/seed", "cvc5", "z3"} {
		n := n
		go func() { ch <- solveWith(ctx, n, q, tail, to) }()
	}
	var last solverRes
	for i := 0; i < 4; i++ {
		r := <-ch
		last = r
		if r.res == "unsat" || r.res == "sat" {
			break
		}
	}
	last.dur = time.Since(t0)
	if last.res != "unsat" && last.res != "sat" {
		last.res = "unknown"
	}
	return last
}

// solveQuick is one attempt with one solver
func solveQuick(q, tail string, to time.Duration) solverRes {
	return solveWith(context.Background(), "z3-new", q, tail, to)
}

// anyUnsat asks the queries in turn until one is unsatisfiable
func anyUnsat(qs []string, to time.Duration) solverRes {
	r := solverRes{res: "unknown"}
	for _, q := range qs {
		if r = solveQuick(q, "", to); r.res == "unsat" {
			break
		}
	}
	return r
}

func solveWith(ctx context.Context, name, q, tail string, to time.Duration) solverRes {
	ms := to.Milliseconds()
	if ms < 500 {
		ms = 500
	}
	var args []string
	exe := name
	switch name {
	case "cvc5":
		q = strings.Replace(q, "QF_AUFBV", "ALL", 1)
		args = []string{"--lang=smt2", "--produce-models", fmt.Sprintf("--tlimit=%d", ms)}
	case "z3-new/seed":
		exe = "z3-new"
		args = []string{"-in", "smt.random_seed=7", "smt.case_split=3", fmt.Sprintf("-T:%d", (ms+999)/1000)}
	default:
		args = []string{"-in", fmt.Sprintf("-T:%d", (ms+999)/1000)}
	}
	t1 := time.Now()
	r, out := runSolver(ctx, exe, args, q+"(check-sat)\n"+tail, to)
	d := time.Since(t1)
	if ctx.Err() != nil {
		return solverRes{"unknown", "", name, d}
	}
	if dir := os.Getenv("GOVC_QDIR"); dir != "" && d > 700*time.Millisecond {
		h := fnv.New64a()
		h.Write([]byte(q))
		os.WriteFile(filepath.Join(dir, fmt.Sprintf("%s-%05d-%x.smt2", r, d.Milliseconds(), h.Sum64())), []byte(q+"(check-sat)\n"), 0o644)
	}
	statMu.Lock()
	if verbose {
		k := phase + " " + r
		phaseTime[k] += d
		phaseCount[k]++
	}
	solverTime[name] += d
	solverCount[name]++
	statMu.Unlock()
	if r == "error" && os.Getenv("GOVC_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "solver error:", name, firstLines(out, 3))
		os.WriteFile("/tmp/govc_error.smt2", []byte(q+"(check-sat)\n"+tail), 0o644)
	}
	return solverRes{r, out, name, d}
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

var valueRe = regexp.MustCompile(`\(\s*(\|[^|]*\||[^\s()]+)\s+(#x[0-9a-f]+|#b[01]+|true|false|\(_ bv\d+ \d+\))\s*\)`)

func parseValues(out string) map[string]string {
	m := map[string]string{}
	for _, g := range valueRe.FindAllStringSubmatch(out, -1) {
		m[strings.Trim(g[1], "|")] = g[2]
	}
	return m
}

// underPC rewrites assumptions with the branch conditions of a path: facts
// about other paths vanish, and what branches merged is what this path did
type underPC struct {
	lits map[*Term]*Term
	memo map[*Term]*Term
}

func newUnder(pc *Term) *underPC {
	u := &underPC{map[*Term]*Term{}, map[*Term]*Term{}}
	for _, c := range conj(pc) {
		u.lit(c)
	}
	return u
}

func (u *underPC) lit(c *Term) {
	if c.op == ONot {
		u.lits[c.args[0]] = False
	} else if c != True {
		u.lits[c] = True
	}
}

func (u *underPC) term(t *Term) *Term {
	if r, ok := u.lits[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := u.memo[t]; ok {
		return r
	}
	ch := false
	na := make([]*Term, len(t.args))
	for i, a := range t.args {
		na[i] = u.term(a)
		if na[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = rebuild(t, na)
	}
	u.memo[t] = r
	return r
}

func (u *underPC) facts(fs []*Term) []*Term {
	if len(u.lits) == 0 {
		return fs
	}
	var out []*Term
	for _, f := range fs {
		if u.lits[f] != nil {
			continue
		}
		if g := u.term(f); g != True {
			out = append(out, g)
		}
	}
	return out
}

// paths splits a condition into cases that together cover it
func paths(pc *Term, max int) [][]*Term {
	out := [][]*Term{conj(pc)}
	for {
		at, which := -1, -1
	find:
		for i, p := range out {
			for j, c := range p {
				if c.op == OOr && len(out)+len(c.args)-1 <= max {
					at, which = i, j
					break find
				}
			}
		}
		if at < 0 {
			return out
		}
		p := out[at]
		rest := append(append([]*Term{}, p[:which]...), p[which+1:]...)
		var n [][]*Term
		for _, d := range p[which].args {
			u := &underPC{map[*Term]*Term{}, map[*Term]*Term{}}
			dead := false
			var q []*Term
			for _, c := range conj(d) {
				q = append(q, c)
				u.lit(c)
			}
			for _, c := range rest {
				c = u.term(c)
				if c == False {
					dead = true
				}
				if c != True {
					q = append(q, conj(c)...)
				}
			}
			// the disjunct under what is already known
			v := &underPC{map[*Term]*Term{}, map[*Term]*Term{}}
			for _, c := range rest {
				if c.op != OOr {
					v.lit(c)
				}
			}
			if v.term(d) == False {
				dead = true
			}
			if !dead {
				n = append(n, q)
			}
		}
		out = append(append(append([][]*Term{}, out[:at]...), n...), out[at+1:]...)
	}
}

type pathQuery struct {
	full string
	pre  []string
}

// pathQueries are queries, one per path to the obligation, that are all
// unsatisfiable when it holds
func (x *Exec) pathQueries(all []*Term, pc, cond *Term) []pathQuery {
	ps := paths(pc, 24)
	if len(ps) < 2 {
		return nil
	}
	var out []pathQuery
	for _, p := range ps {
		ppc := And(p...)
		if ppc == False {
			continue
		}
		u := newUnder(ppc)
		fs := u.facts(all)
		// what is literally among the facts of the path
		g := newUnder(ppc)
		for _, f := range fs {
			for _, l := range conj(f) {
				if !l.fv {
					g.lit(l)
				}
			}
		}
		if g.term(cond) == True {
			continue
		}
		goal := u.term(cond)
		if goal == True {
			continue
		}
		q, _ := x.query(append(fs[:len(fs):len(fs)], ppc, Not(goal)))
		out = append(out, pathQuery{q, x.slicedQueries(fs, ppc, goal)})
	}
	if len(out) == 0 {
		return []pathQuery{{"(assert false)\n", nil}}
	}
	return out
}

func solvePaths(ps []pathQuery) bool {
	if len(ps) == 0 {
		return false
	}
	ok := make(chan bool, len(ps))
	var bad atomic.Bool
	for _, p := range ps {
		p := p
		go func() {
			for _, q := range append(p.pre[:len(p.pre):len(p.pre)], "") {
				if bad.Load() {
					break
				}
				to := 4 * time.Second
				if q == "" {
					q, to = p.full, 8*time.Second
				}
				if solveQuick(q, "", to).res == "unsat" {
					ok <- true
					return
				}
			}
			bad.Store(true)
			ok <- false
		}()
	}
	r := true
	for range ps {
		if !<-ok {
			r = false
		}
	}
	return r
}
