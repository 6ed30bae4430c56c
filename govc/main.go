package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"golang.org/x/tools/go/ssa"
)

var (
	repoDir      = "/repo"
	verifDir     = "/verif"
	queryTimeout = 20
	verbose      bool
)

func main() {
	debug.SetGCPercent(400)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: govc fn NAME... | all | check ID | worker")
		os.Exit(2)
	}
	cmd := os.Args[1]
	fl := flag.NewFlagSet("govc", flag.ExitOnError)
	fl.StringVar(&repoDir, "repo", "/repo", "")
	fl.StringVar(&verifDir, "verif", "/verif", "")
	fl.IntVar(&queryTimeout, "timeout", 20, "")
	fl.BoolVar(&verbose, "v", false, "")
	tier := fl.String("tier", "quick", "")
	fl.Parse(os.Args[2:])
	switch cmd {
	case "fn":
		v := mustLoad()
		bad := 0
		for _, n := range fl.Args() {
			bad += debugFn(v, n)
		}
		if bad > 0 {
			os.Exit(1)
		}
	case "all":
		cmdAll(fl.Args())
	case "list":
		v := mustLoad()
		var ns []string
		for n := range v.funcs {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			_, k := v.contractOf(v.funcs[n])
			fmt.Println(n, k, v.ifaceKeysOf(v.funcs[n]))
		}
	case "ssa":
		v := mustLoad()
		for _, n := range fl.Args() {
			if f := v.funcs[n]; f != nil {
				f.WriteTo(os.Stdout)
			}
		}
	case "worker":
		worker()
	case "check":
		os.Exit(cmdCheck(fl.Arg(0), *tier))
	default:
		os.Exit(2)
	}
}

func mustLoad() *Verifier {
	sp := loadSpecs(filepath.Join(verifDir, "contracts"))
	v, err := loadVerifier(repoDir, sp)
	if err != nil {
		fmt.Fprintln(os.Stderr, "govc: cannot load", repoDir, ":", err)
		os.Exit(4)
	}
	return v
}

func debugFn(v *Verifier, n string) int {
	bad := 0
	for _, j := range v.expand(n) {
		r := v.verifyJob(j)
		ok, tot := 0, 0
		fmt.Printf("== %s under %s: %d ms, loops %d, invariants %d, trivial %d, returns %d, covers %d/%d vacuous=%v %s\n", r.Fn, r.Contract, r.Ms, r.Loops, r.Invs, r.Trivial, r.Returns, r.Covers-r.CoverBad, r.Covers, r.Vacuous, r.Err)
		for _, o := range r.Obls {
			tot++
			if o.Status == "unsat" || o.Status == "trivial" {
				ok++
				if verbose || o.Ms > 3000 && o.Status == "unsat" {
					fmt.Printf("   ok   %s %s %s %s %v (%d ms)\n", o.Kind, o.ID, o.Pos, o.Desc, o.Labels, o.Ms)
				}
				continue
			}
			bad++
			fmt.Printf("   FAIL[%s] %s %s %s %v (%d ms)\n", o.Status, o.ID, o.Pos, o.Desc, o.Labels, o.Ms)
			if verbose && o.Model != "" {
				fmt.Printf("        %s\n", o.Model)
			}
		}
		fmt.Printf("   %d/%d\n", ok, tot)
		if r.Err != "" {
			bad++
		}
	}
	return bad
}

// expand turns a pattern (pkg.* allowed) into jobs
func (v *Verifier) expand(n string) []job {
	if strings.HasPrefix(n, "impl:") {
		return []job{{key: n}}
	}
	if strings.HasSuffix(n, "*") {
		pre := strings.TrimSuffix(n, "*")
		var ns []string
		for k := range v.funcs {
			if strings.HasPrefix(k, pre) {
				ns = append(ns, k)
			}
		}
		sort.Strings(ns)
		var out []job
		for _, k := range ns {
			if len(v.funcs[k].Blocks) > 0 {
				out = append(out, v.jobs(k)...)
			}
		}
		return out
	}
	return v.jobs(n)
}

func (v *Verifier) verifyJob(j job) *FnRes {
	if strings.HasPrefix(j.key, "impl:") {
		return v.verifyImpl(strings.TrimPrefix(j.key, "impl:"))
	}
	return v.verify(j)
}

// ---------------------------------------------------------------- workers

type wreq struct {
	Key, CK string
	Case    int
	Sel     *fnSel
}

// fnSel says which obligations of a function belong to the property at hand
type fnSel struct {
	ID                               string
	Listed, Safety, Term, Frame, Lab bool
	Base                             bool // the rest of the contract is decided under another property
}

func (s *fnSel) counts(kind, frame string, labels []string) bool {
	has := hasLabel(labels, s.ID)
	own := s.Listed || s.Lab && !s.Base
	switch kind {
	case "safety":
		return s.Safety
	case "term":
		return s.Term
	case "frame":
		if frame == "global" {
			return s.Frame
		}
		return s.Frame || own
	case "unsupported", "spec":
		return len(labels) == 0 || has
	case "ensures", "pre":
		if len(labels) > 0 {
			return has
		}
		return own
	}
	return len(labels) == 0 && own || has
}

// curSel: nil when every obligation is wanted
var curSel *fnSel

func worker() {
	v := mustLoad()
	dec := json.NewDecoder(bufio.NewReader(os.Stdin))
	enc := json.NewEncoder(os.Stdout)
	for {
		var r wreq
		if err := dec.Decode(&r); err != nil {
			return
		}
		var res *FnRes
		curSel = r.Sel
		onlyCase = r.Case
		for _, j := range v.expand(r.Key) {
			if j.ck == r.CK {
				res = v.verifyJob(j)
			}
		}
		if res == nil {
			res = &FnRes{Fn: r.Key, Contract: r.CK, Err: "no such function in the code"}
		}
		enc.Encode(res)
	}
}

// when a check has to give its answer; zero: no limit
var jobsDeadline time.Time

// runJobs verifies the jobs; the cases of a case distinction run side by side
func runJobs(js []job, sel func(job) *fnSel) []*FnRes {
	var units []job
	var cases, of []int
	for i, j := range js {
		n := 0
		if j.con != nil && j.con.Trusted == "" {
			n = len(j.con.clauses("split"))
		}
		if n == 0 {
			units, cases, of = append(units, j), append(cases, 0), append(of, i)
			continue
		}
		for m := 1; m <= 1<<n; m++ {
			units, cases, of = append(units, j), append(cases, m), append(of, i)
		}
	}
	rs := runUnits(units, cases, sel)
	out := make([]*FnRes, len(js))
	for k, r := range rs {
		o := out[of[k]]
		if o == nil {
			out[of[k]] = r
			continue
		}
		if r.Ms > o.Ms {
			o.Ms = r.Ms
		}
		if o.Err == "" {
			o.Err = r.Err
		}
		o.Returns += r.Returns
		o.Trivial += r.Trivial
		o.Loops += r.Loops
		o.Invs += r.Invs
		o.Covers += r.Covers
		o.CoverBad += r.CoverBad
		o.Vacuous = o.Vacuous || r.Vacuous
		o.Obls = append(o.Obls, r.Obls...)
		o.Used = append(o.Used, r.Used...)
		o.Inlined = append(o.Inlined, r.Inlined...)
		for s, ms := range r.Solver {
			if o.Solver == nil {
				o.Solver = map[string]int64{}
			}
			o.Solver[s] += ms
		}
		for s, n := range r.Queries {
			if o.Queries == nil {
				o.Queries = map[string]int{}
			}
			o.Queries[s] += n
		}
	}
	return out
}

func runUnits(js []job, cases []int, sel func(job) *fnSel) []*FnRes {
	slots, err := os.MkdirTemp("", "govc-slots")
	if err == nil {
		os.Setenv("GOVC_SLOTS", slots)
		defer os.RemoveAll(slots)
	}
	out := make([]*FnRes, len(js))
	var wmu sync.Mutex
	late := false
	procs := map[*exec.Cmd]bool{}
	if !jobsDeadline.IsZero() {
		t := time.AfterFunc(time.Until(jobsDeadline), func() {
			wmu.Lock()
			late = true
			for c := range procs {
				c.Process.Kill()
			}
			wmu.Unlock()
		})
		defer t.Stop()
	}
	isLate := func() bool {
		wmu.Lock()
		defer wmu.Unlock()
		return late
	}
	nw := 8
	if len(js) < nw {
		nw = len(js)
	}
	ch := make(chan int)
	go func() {
		// the largest first
		ord := make([]int, len(js))
		for i := range ord {
			ord[i] = i
		}
		sort.SliceStable(ord, func(a, b int) bool { return js[ord[a]].size > js[ord[b]].size })
		for _, i := range ord {
			ch <- i
		}
		close(ch)
	}()
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var cmd *exec.Cmd
			var enc *json.Encoder
			var dec *json.Decoder
			var in io.WriteCloser
			start := func() {
				exe, _ := os.Executable()
				cmd = exec.Command(exe, "worker", "-repo", repoDir, "-verif", verifDir, "-timeout", fmt.Sprint(queryTimeout))
				cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
				in, _ = cmd.StdinPipe()
				o, _ := cmd.StdoutPipe()
				cmd.Stderr = os.Stderr
				cmd.Start()
				wmu.Lock()
				procs[cmd] = true
				wmu.Unlock()
				enc = json.NewEncoder(in)
				dec = json.NewDecoder(bufio.NewReaderSize(o, 1<<20))
			}
			for i := range ch {
				if isLate() {
					out[i] = &FnRes{Fn: js[i].key, Contract: js[i].ck, Err: "not decided within the time limit"}
					continue
				}
				if cmd == nil {
					start()
				}
				enc.Encode(wreq{js[i].key, js[i].ck, cases[i], sel(js[i])})
				var r FnRes
				if err := dec.Decode(&r); err != nil {
					why := "verifier failure: " + err.Error()
					if isLate() {
						why = "not decided within the time limit"
					}
					r = FnRes{Fn: js[i].key, Contract: js[i].ck, Err: why}
					wmu.Lock()
					delete(procs, cmd)
					wmu.Unlock()
					cmd.Process.Kill()
					cmd.Wait()
					cmd = nil
				}
				out[i] = &r
			}
			if cmd != nil {
				in.Close()
				wmu.Lock()
				delete(procs, cmd)
				wmu.Unlock()
				cmd.Wait()
			}
		}()
	}
	wg.Wait()
	return out
}

func cmdAll(pats []string) {
	t0 := time.Now()
	v := mustLoad()
	if len(pats) == 0 {
		for p := range v.pkgs {
			if pk := v.pkgs[p]; strings.HasPrefix(pk.Pkg.Path(), modPath) {
				pats = append(pats, p+".*")
			}
		}
		for k := range v.spec.Impls {
			if v.pkgs[v.spec.Impls[k].Pkg] != nil && strings.HasPrefix(v.pkgs[v.spec.Impls[k].Pkg].Pkg.Path(), modPath) {
				pats = append(pats, "impl:"+k)
			}
		}
		sort.Strings(pats)
	}
	var js []job
	for _, p := range pats {
		js = append(js, v.expand(p)...)
	}
	ok, bad := 0, 0
	for _, r := range runJobs(js, func(job) *fnSel { return nil }) {
		o, n := 0, 0
		var fails []OblRes
		for _, q := range r.Obls {
			n++
			if q.Status == "unsat" || q.Status == "trivial" {
				o++
			} else {
				fails = append(fails, q)
			}
		}
		ok += o
		bad += n - o
		flag := "ok  "
		if len(fails) > 0 || r.Err != "" || r.Vacuous {
			flag = "FAIL"
		}
		fmt.Printf("%s %-50s %-40s %4d/%-4d %6d ms loops=%d inv=%d cov=%d/%d %s vac=%v\n", flag, r.Fn, r.Contract, o, n, r.Ms, r.Loops, r.Invs, r.Covers-r.CoverBad, r.Covers, r.Err, r.Vacuous)
		for i, q := range fails {
			if i > 12 {
				fmt.Printf("       ... %d more\n", len(fails)-i)
				break
			}
			fmt.Printf("       [%s] %s %s %s %v\n", q.Status, q.Kind, q.Pos, q.Desc, q.Labels)
		}
	}
	fmt.Printf("total ok %d bad %d in %v\n", ok, bad, time.Since(t0).Round(time.Millisecond))
}

// ---------------------------------------------------------------- separation lemma of a modelled type

// verifyImpl: any change confined to the footprint of one object leaves the
// model functions of every other valid object unchanged
func (v *Verifier) verifyImpl(name string) (res *FnRes) {
	t0 := time.Now()
	res = &FnRes{Fn: "impl:" + name, Contract: "separation"}
	defer func() {
		if r := recover(); r != nil {
			if os.Getenv("GOVC_DEBUG") != "" {
				panic(r)
			}
			if s, ok := r.(specErr); ok {
				res.Err = s.msg
			} else {
				res.Err = fmt.Sprint(r)
			}
		}
		res.Ms = time.Since(t0).Milliseconds()
	}()
	solverTime = map[string]time.Duration{}
	solverCount = map[string]int{}
	resetTerms()
	im := v.spec.Impls[name]
	if im == nil {
		res.Err = "no such impl"
		return
	}
	m := v.spec.Models[im.Pkg+"."+im.Iface]
	x := NewExec(v, nil, &Contract{Pkg: im.Pkg})
	x.world = im.Pkg
	st := &State{heap: map[string]*Term{}, env: map[ssa.Value]*Val{}}
	e := &Ev{x: x, cur: st, names: map[string]*Val{}, pkg: im.Pkg}
	T := e.typ("*" + im.Type)
	v.noteType(derefT(T))
	self, o := x.freshVal("self", T), x.freshVal("other", T)
	x.facts = append(x.facts, Neq(self.C[0], C32(0)), Neq(o.C[0], C32(0)), Neq(self.C[0], o.C[0]))
	for _, q := range []*Val{o} {
		if m.Fns["valid"] != nil {
			x.facts = append(x.facts, e.modelApp(m, im, "valid", []*Val{q}).C[0])
		}
	}
	if m.Known != nil {
		q := e.with(map[string]*Val{m.Self: o})
		q.pkg = m.Pkg
		for _, part := range conjuncts(q.boolOf(m.Known)) {
			x.obligation(&Obl{Fn: "impl:" + name, Kind: "sep", PC: True, Cond: part, Desc: "what is known of a valid object: " + m.Known.String()})
		}
	}
	post := &State{heap: map[string]*Term{}, env: map[ssa.Value]*Val{}}
	x.bump()
	keys := map[string]keyInfo{}
	preds := map[string]*Term{}
	r := BoundVar("r", BV32)
	for _, en := range x.implMods(im, self, st) {
		for _, k := range en.keys {
			keys[k.key] = k
			p := preds[k.key]
			if p == nil {
				p = Not(Ult(r, x.next0))
			}
			if en.pred != nil {
				p = Or(p, en.pred(r))
			} else {
				p = Or(p, Eq(r, en.ref))
			}
			preds[k.key] = p
		}
	}
	for k, ki := range keys {
		post.heap[k] = Mix(x.get(st, k, ki.sort), x.newMap(k, ki.sort), r, preds[k])
	}
	e1 := &Ev{x: x, cur: post, names: map[string]*Val{}, pkg: im.Pkg}
	for _, f := range m.Order {
		if im.Defs[f] == nil {
			continue
		}
		args := []*Val{o}
		var bvs []*Term
		for range m.Fns[f].Params {
			b := BoundVar("i", BV64)
			bvs = append(bvs, b)
			args = append(args, &Val{T: intT, C: []*Term{b}})
		}
		a, b := e1.concrete(e1.modelApp(m, im, f, args), intT), e.concrete(e.modelApp(m, im, f, args), intT)
		var cs []*Term
		for i := range a.C {
			cs = append(cs, Eq(a.C[i], b.C[i]))
		}
		t := And(cs...)
		if im.Pkg != "" && len(bvs) > 0 && m.Fns["size"] != nil {
			sz := e.concrete(e.modelApp(m, im, "size", []*Val{o}), intT)
			t = Implies(And(Sle(C64(0), bvs[0]), Slt(bvs[0], sz.C[0])), t)
		}
		for _, b := range bvs {
			t = Forall(b, t)
		}
		x.obligation(&Obl{Fn: "impl:" + name, Kind: "sep", PC: True, Cond: t, Desc: "separation: changing one object leaves " + f + " of another unchanged"})
	}
	x.decide(res)
	res.Solver = map[string]int64{}
	for k, d := range solverTime {
		res.Solver[k] = d.Milliseconds()
	}
	res.Queries = solverCount
	return
}
