package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// propJobs lists the verification jobs a property needs and, per function, why.
type propSel struct {
	id      string
	jobs    []job
	listed  map[string]bool // core obligations count
	safety  map[string]bool
	term    map[string]bool
	frame   map[string]bool
	lab     map[string]bool // its contract carries the property's label
	missing []string
	base    bool
}

func (v *Verifier) matchNames(pats []string, pkgHint string) ([]string, []string) {
	var out, miss []string
	for _, p := range pats {
		if strings.HasSuffix(p, "*") {
			pre := strings.TrimSuffix(p, "*")
			n := 0
			for k, f := range v.funcs {
				if strings.HasPrefix(k, pre) && len(f.Blocks) > 0 {
					n++
					// helpers without a contract are inlined and judged in their callers
					if js := v.jobs(k); len(js) > 0 && js[0].ck != "" {
						out = append(out, k)
					}
				}
			}
			if n == 0 {
				miss = append(miss, p)
			}
			continue
		}
		if f := v.funcs[p]; f != nil {
			if len(f.Blocks) > 0 {
				out = append(out, p)
			}
			continue
		}
		miss = append(miss, p)
	}
	sort.Strings(out)
	return out, miss
}

func hasLabel(ls []string, id string) bool {
	for _, l := range ls {
		if l == id {
			return true
		}
	}
	return false
}

func (v *Verifier) selectProp(id string) *propSel {
	ps := &propSel{id: id, listed: map[string]bool{}, safety: map[string]bool{}, term: map[string]bool{}, frame: map[string]bool{}, lab: map[string]bool{}}
	sp := v.spec.Props[id]
	if sp == nil {
		sp = &PropSpec{ID: id}
	}
	take := func(pats []string, m map[string]bool) (all bool) {
		if len(pats) == 1 && pats[0] == "labelled" {
			return true // every function that carries the property's label
		}
		names, miss := v.matchNames(pats, "")
		for _, n := range names {
			m[n] = true
		}
		ps.missing = append(ps.missing, miss...)
		return false
	}
	ps.base = sp.Base != ""
	take(sp.Roots, ps.listed)
	allSafety := take(sp.Safety, ps.safety)
	allTerm := take(sp.Term, ps.term)
	allFrame := take(sp.Frame, ps.frame)
	// functions whose contracts carry the property's label
	labelled := func(c *Contract) bool {
		for _, k := range c.Clauses {
			if hasLabel(k.Labels, id) {
				return true
			}
		}
		return false
	}
	seen := map[string]bool{}
	impls := map[string]bool{}
	var names []string
	for n := range v.funcs {
		names = append(names, n)
	}
	sort.Strings(names)
	usedContract := map[string]bool{}
	for _, n := range names {
		f := v.funcs[n]
		if len(f.Blocks) == 0 || f.Pkg == nil || !strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) {
			continue
		}
		for _, j := range v.jobs(n) {
			want := ps.listed[n] || ps.safety[n] || ps.term[n] || ps.frame[n]
			if j.con != nil && labelled(j.con) {
				want = true
				usedContract[j.ck] = true
				ps.lab[n] = true
				ps.safety[n] = ps.safety[n] || allSafety
				ps.term[n] = ps.term[n] || allTerm
				ps.frame[n] = ps.frame[n] || allFrame
			}
			if !want || seen[j.key+"|"+j.ck] {
				continue
			}
			if j.con != nil && j.con.Trusted != "" {
				continue
			}
			seen[j.key+"|"+j.ck] = true
			ps.jobs = append(ps.jobs, j)
			if r := f.Signature.Recv(); r != nil {
				if im := v.implOf(r.Type()); im != nil && im.Pkg == f.Pkg.Pkg.Name() {
					impls[im.Pkg+"."+im.Type] = true
				}
			}
		}
	}
	for _, k := range sortedKeys(impls) {
		ps.jobs = append(ps.jobs, job{key: "impl:" + k})
	}
	// lemmas that carry the label
	for _, k := range v.spec.Order {
		c := v.spec.Contracts[k]
		if labelled(c) && !usedContract[k] && c.Kind == "func" && v.funcs[k] == nil {
			ps.missing = append(ps.missing, k)
		}
	}
	return ps
}

// sel: what counts of a job
func (ps *propSel) sel(fn string) *fnSel {
	return &fnSel{ps.id, ps.listed[fn], ps.safety[fn], ps.term[fn], ps.frame[fn], ps.lab[fn], ps.base}
}

type replayFile struct {
	Property     string
	Obligations  []OblRes
	FailingInput string
	Harness      string
	Output       string
	Rerun        string
}

type known struct{ fixed, finding []string }

func knownFindings(id string) known {
	var k known
	b, _ := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "finding: property="+id+" ") {
			k.finding = append(k.finding, strings.TrimPrefix(l, "finding: property="+id+" "))
		}
		if strings.HasPrefix(l, "fixed: property="+id+" ") {
			k.fixed = append(k.fixed, l)
		}
	}
	return k
}

// harness runs the API-level search for a failing input of the property
type harnessRes struct {
	ran    bool
	input  string
	out    string
	evals  int
	note   string
	pkgs   []string
	wallMs int64
}

var failRe = regexp.MustCompile(`(?m)^FAILING-INPUT (.*)$`)
var evalRe = regexp.MustCompile(`(?m)^EVALUATIONS (\d+)$`)

func runHarness(id string, seed int64, budget int) harnessRes {
	var h harnessRes
	t0 := time.Now()
	dirs, _ := filepath.Glob(filepath.Join(verifDir, "harness", "*", "*.go"))
	byPkg := map[string][]string{}
	want := map[string]bool{}
	fn := "func TestVerif" + id + "("
	for _, f := range dirs {
		pkg := filepath.Base(filepath.Dir(f))
		byPkg[pkg] = append(byPkg[pkg], f)
		b, _ := os.ReadFile(f)
		if strings.Contains(string(b), fn) {
			want[pkg] = true
		}
	}
	tmp, err := os.MkdirTemp("", "govc-h")
	if err != nil {
		h.note = err.Error()
		return h
	}
	defer os.RemoveAll(tmp)
	for _, pkg := range sortedKeys(want) {
		h.pkgs = append(h.pkgs, pkg)
		ov := map[string]map[string]string{"Replace": {}}
		for _, f := range byPkg[pkg] {
			ov["Replace"][filepath.Join(repoDir, "vtdxml", pkg, "zz_"+strings.TrimSuffix(filepath.Base(f), ".go")+"_verif_test.go")] = f
		}
		ob, _ := json.Marshal(ov)
		of := filepath.Join(tmp, pkg+".json")
		os.WriteFile(of, ob, 0o644)
		cmd := exec.Command("go", "test", "-overlay", of, "-vet=off", "-v", "-count=1", "-run", "^TestVerif"+id+"$", "-timeout", fmt.Sprintf("%ds", budget+60), "./vtdxml/"+pkg)
		cmd.Dir = repoDir
		cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_SEED=%d", seed), fmt.Sprintf("VERIF_BUDGET=%d", budget), "VERIF_SCRATCH="+tmp)
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		var b bytes.Buffer
		cmd.Stdout, cmd.Stderr = &b, &b
		err := cmd.Run()
		out := b.String()
		h.out += out
		for _, m := range evalRe.FindAllStringSubmatch(out, -1) {
			n, _ := strconv.Atoi(m[1])
			h.evals += n
			h.ran = true
		}
		if m := failRe.FindStringSubmatch(out); m != nil {
			h.ran = true
			if h.input == "" {
				h.input = m[1]
			}
		} else if err != nil {
			h.note += "harness for package " + pkg + " did not finish: " + err.Error() + "; "
		}
	}
	if len(h.out) > 6000 {
		h.out = h.out[len(h.out)-6000:]
	}
	h.wallMs = time.Since(t0).Milliseconds()
	return h
}

func cmdCheck(id, tier string) int {
	t0 := time.Now()
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = n
		}
	}
	budget := 8
	if tier == "thorough" {
		budget = 120
	}
	v := mustLoad()
	ps := v.selectProp(id)
	if len(ps.jobs) == 0 {
		fmt.Printf("no verification job for %s\n", id)
		return 2
	}
	kf := knownFindings(id)
	h := runHarness(id, seed, budget)
	if tier != "thorough" {
		jobsDeadline = t0.Add(800 * time.Second)
		if h.input != "" {
			// the violation is already shown on the real code
			if l := time.Now().Add(60 * time.Second); l.Before(jobsDeadline) {
				jobsDeadline = l
			}
		}
	}
	results := runJobs(ps.jobs, func(j job) *fnSel {
		if strings.HasPrefix(j.key, "impl:") {
			return nil
		}
		return ps.sel(j.key)
	})
	var bad []OblRes
	total, done := 0, 0
	byKind := map[string]int{}
	bySolver := map[string]int{}
	solverMs := map[string]int64{}
	loops, invs, queries, covers := 0, 0, 0, 0
	var fns []string
	used := map[string]bool{}
	inl := map[string]bool{}
	for _, r := range results {
		fns = append(fns, fmt.Sprintf("%s (contract %s)", r.Fn, or(r.Contract, "none: run-time safety of the body")))
		loops += r.Loops
		invs += r.Invs
		covers += r.Covers
		for _, u := range r.Used {
			used[u] = true
		}
		for _, u := range r.Inlined {
			inl[u] = true
		}
		for s, ms := range r.Solver {
			solverMs[s] += ms
		}
		for _, n := range r.Queries {
			queries += n
		}
		if r.Err != "" {
			bad = append(bad, OblRes{ID: r.Fn + "/verifier", Kind: "spec", Desc: "cannot be verified: " + r.Err, Status: "error"})
			total++
			continue
		}
		if r.Vacuous {
			bad = append(bad, OblRes{ID: r.Fn + "/vacuous", Kind: "spec", Desc: "the contract's preconditions contradict each other", Status: "error"})
			total++
		}
		for i := range r.Obls {
			o := r.Obls[i]
			if !strings.HasPrefix(r.Fn, "impl:") && !ps.sel(r.Fn).counts(o.Kind, o.Frame, o.Labels) {
				continue
			}
			total++
			byKind[o.Kind]++
			if o.Status == "unsat" || o.Status == "trivial" {
				done++
				if o.Status == "trivial" {
					bySolver["simplifier"]++
				} else {
					bySolver[or(o.Solver, "z3-new")]++
				}
				continue
			}
			bad = append(bad, o)
		}
	}
	for _, m := range ps.missing {
		fmt.Printf("note: %s: the code has no function %s\n", id, m)
	}
	var evaluated []string
	for _, key := range sortedKeys(v.spec.Contracts) {
		con := v.spec.Contracts[key]
		lab := false
		for _, c := range con.Clauses {
			lab = lab || hasLabel(c.Labels, id)
		}
		if strings.HasPrefix(con.Trusted, "evaluated") && lab {
			evaluated = append(evaluated, key)
			total++
			if h.ran && h.note == "" {
				done++
				byKind["evaluated"]++
				bySolver["ground evaluation"]++
			} else {
				bad = append(bad, OblRes{ID: key + "/evaluated", Kind: "evaluated", Desc: "postcondition of a function without inputs, decided by running it: " + or(h.note, "the run gave no answer"), Status: "unknown"})
			}
		}
	}
	var trusted []string
	trusted = append(trusted,
		"govc (/verif/govc): the translation of go/ssa to first-order conditions",
		"golang.org/x/tools go/ssa and go/types",
		"z3, cvc5: an 'unsat' answer",
		"no data race: the code under contract runs on one goroutine",
		"lengths, capacities and buffer sizes stay below 2^46 (address space)")
	for _, k := range sortedKeys(used) {
		if c := v.spec.Contracts[k]; c != nil && (c.Trusted != "" || c.Kind == "extern") {
			trusted = append(trusted, "assumed contract "+k+": "+or(c.Trusted, "library function"))
		}
	}
	var relied []string
	for _, k := range sortedKeys(used) {
		if c := v.spec.Contracts[k]; c != nil && c.Trusted == "" && c.Kind != "extern" {
			relied = append(relied, k)
		}
	}
	viol := 0
	if len(bad) > 0 || h.input != "" {
		viol = 1
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "proof",
		"coverage": map[string]interface{}{
			"obligations": total, "discharged": done,
			"checker_cmd":              fmt.Sprintf("/verif/check %s %s", id, tier),
			"trusted_base":             trusted,
			"functions_under_contract": fns,
			"functions_inlined":        sortedKeys(inl),
			"contracts_relied_on":      relied,
			"obligations_by_kind":      byKind,
			"discharged_by":            bySolver,
			"solver_ms":                solverMs,
			"solver_queries":           queries,
			"loops":                    loops,
			"decided_by_running":       evaluated,
			"loop_invariants_proved":   invs,
			"reachability_covers":      covers,
			"concrete_cross_check": map[string]interface{}{"note": "bounded, not counted as proved: API-level search for a failing input", "packages": h.pkgs, "evaluations": h.evals,
				"ran": h.ran, "wall_ms": h.wallMs, "problem": h.note},
		},
		"assumptions": assumptionsFor(v, ps, used),
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  viol,
	}
	eb, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verifDir, "evidence", id+".json"), append(eb, '\n'), 0o644)
	for _, f := range kf.finding {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f)
	}
	fmt.Printf("%s: %d/%d obligations discharged in %d jobs, %d concrete evaluations, %.1f s\n", id, done, total, len(results), h.evals, time.Since(t0).Seconds())
	if viol == 0 {
		return 0
	}
	for i, o := range bad {
		if i >= 25 {
			fmt.Printf("  ... %d more\n", len(bad)-i)
			break
		}
		fmt.Printf("  FAILED %s [%s] %s %s: %s\n", o.ID, o.Status, o.Kind, o.Pos, o.Desc)
	}
	rp := filepath.Join(verifDir, "evidence", "replay-"+id+".json")
	rf := replayFile{Property: id, Obligations: bad, FailingInput: h.input, Output: h.out,
		Rerun: fmt.Sprintf("VERIF_SEED=%d /verif/check %s %s", seed, id, tier)}
	if len(h.pkgs) > 0 {
		rf.Harness = "harness/" + strings.Join(h.pkgs, ", harness/") + ": TestVerif" + id
	}
	rb, _ := json.MarshalIndent(rf, "", " ")
	os.WriteFile(rp, append(rb, '\n'), 0o644)
	if h.input != "" {
		fmt.Printf("  failing input: %s\n", h.input)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", id, rp)
	}
	return 1
}

func or(a, b string) string {
	if a == "" {
		return b
	}
	return a
}

func assumptionsFor(v *Verifier, ps *propSel, used map[string]bool) []string {
	var out []string
	seen := map[string]bool{}
	for _, j := range ps.jobs {
		if j.con == nil {
			continue
		}
		for _, c := range j.con.clauses("assumes") {
			s := fmt.Sprintf("%s assumes %s at entry (not checked at callers)", or(j.ck, j.key), c.Text)
			if !seen[s] {
				seen[s] = true
				out = append(out, s)
			}
		}
		for _, c := range j.con.clauses("requires") {
			s := fmt.Sprintf("%s requires %s", or(j.ck, j.key), c.Text)
			if !seen[s] && len(out) < 60 {
				seen[s] = true
				out = append(out, s)
			}
		}
	}
	out = append(out, "callers outside the module only reach an object's private fields through its methods")
	return out
}
