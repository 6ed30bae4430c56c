package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------- spec AST

type Expr struct {
	K    string // ident int str char call field index slice un bin old forall ite typeis
	Op   string
	Name string
	Val  uint64
	Neg  bool
	A    []*Expr
	Pos  string
}

func (e *Expr) String() string {
	var as []string
	for _, a := range e.A {
		as = append(as, a.String())
	}
	switch e.K {
	case "ident":
		return e.Name
	case "int":
		return fmt.Sprint(e.Val)
	case "char":
		return fmt.Sprintf("'%c'", rune(e.Val))
	case "str":
		return strconv.Quote(e.Name)
	case "call":
		return as[0] + "(" + strings.Join(as[1:], ", ") + ")"
	case "field":
		return as[0] + "." + e.Name
	case "index":
		return as[0] + "[" + as[1] + "]"
	case "un":
		return e.Op + as[0]
	case "bin":
		return "(" + as[0] + " " + e.Op + " " + as[1] + ")"
	case "old":
		return "old(" + as[0] + ")"
	case "forall", "exists":
		if len(as) == 3 {
			return "(" + e.K + " " + e.Name + " in " + as[0] + ".." + as[1] + " :: " + as[2] + ")"
		}
		return "(" + e.K + " " + e.Name + " " + e.Op + " :: " + as[0] + ")"
	case "typeis":
		return "typeis(" + as[0] + ", " + e.Name + ")"
	case "type":
		return e.Name
	}
	return e.K + "(" + strings.Join(as, ",") + ")"
}

type Clause struct {
	Kind   string // requires ensures invariant decreases modifies
	Labels []string
	E      *Expr
	Text   string
	Pos    string
}

type Contract struct {
	Pkg      string // package name
	Kind     string // func iface functype extern
	Name     string // Type.Method or Func
	Params   []string
	Results  []string
	Clauses  []*Clause
	Trusted  string // reason, body not verified
	Bounded  string
	Owns     *Expr
	NoTerm   bool
	NoAuto   bool // only the written invariants
	Pos      string
	Used     bool
	Unroll   int
	Inline   bool
	Pure     bool
	Nullable bool
}

func (c *Contract) clauses(kind string) []*Clause {
	var out []*Clause
	for _, k := range c.Clauses {
		if k.Kind == kind {
			out = append(out, k)
		}
	}
	return out
}

type Def struct {
	Pkg    string
	Name   string
	Params []string
	Body   *Expr
	Rec    bool
	Opaque bool
}

type ModelFn struct {
	Name   string
	Params []string // parameter names after self
	Type   string   // Go type text of the result
	When   *Expr
}

type Model struct {
	Pkg   string
	Iface string
	Fns   map[string]*ModelFn
	Order []string
	Self  string
	Zero  *Expr
	Known *Expr // what valid implies, proved with the implementations
}

type Impl struct {
	Pkg     string
	Type    string // concrete type name (without *)
	Iface   string
	Defs    map[string]*Def
	Mods    []*Clause
	Methods []string
}

type Property struct {
	ID    string
	Roots []string
	Kinds map[string]bool
}

type Spec struct {
	Contracts map[string]*Contract // key pkg.Type.Method | pkg.Func
	Defs      map[string]*Def      // key pkg.name or name
	Models    map[string]*Model    // key pkg.Iface
	Impls     map[string]*Impl     // key pkg.Type
	Cands     []*Contract          // kind "candidates"
	ModSets   map[string]*Def
	Props     map[string]*PropSpec
	Order     []string
	Lemmas    []*Contract
	Ufs       map[string]string
}

type PropSpec struct {
	ID     string
	Roots  []string // functions whose verification the property needs
	Safety []string // functions for which run-time safety belongs to the property
	Term   []string // termination
	Frame  []string
	Base   string // the unlabelled clauses are decided under that property
}

// ---------------------------------------------------------------- lexer

type tok struct {
	k string // id int str char op eof
	s string
	v uint64
	l int
}

type lexer struct {
	file string
	toks []tok
	p    int
}

func lex(file, src string) *lexer {
	L := &lexer{file: file}
	line := 1
	i := 0
	ops := []string{"<==>", "==>", ":=", "::", "&&", "||", "==", "!=", "<=", ">=", "<<", ">>", "&^", "..",
		"+", "-", "*", "/", "%", "<", ">", "!", "(", ")", "[", "]", "{", "}", ",", ".", ":", ";", "&", "|", "^", "="}
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case c == '#' || (c == '/' && i+1 < len(src) && src[i+1] == '/'):
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c == '_' || c == '$' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
			j := i
			for j < len(src) && (src[j] == '$' || src[j] == '_' || src[j] >= 'a' && src[j] <= 'z' || src[j] >= 'A' && src[j] <= 'Z' || src[j] >= '0' && src[j] <= '9') {
				j++
			}
			L.toks = append(L.toks, tok{"id", src[i:j], 0, line})
			i = j
		case c >= '0' && c <= '9':
			j := i
			for j < len(src) && (src[j] >= '0' && src[j] <= '9' || src[j] >= 'a' && src[j] <= 'f' || src[j] >= 'A' && src[j] <= 'F' || src[j] == 'x' || src[j] == 'X' || src[j] == '_') {
				j++
			}
			v, err := strconv.ParseUint(strings.ReplaceAll(src[i:j], "_", ""), 0, 64)
			if err != nil {
				fatal("%s:%d: bad number %q", file, line, src[i:j])
			}
			L.toks = append(L.toks, tok{"int", src[i:j], v, line})
			i = j
		case c == '\'':
			j := i + 1
			for src[j] != '\'' || src[j-1] == '\\' && src[j-2] != '\\' {
				j++
			}
			r, _, _, err := strconv.UnquoteChar(src[i+1:j], '\'')
			if err != nil {
				fatal("%s:%d: bad char %s", file, line, src[i:j+1])
			}
			L.toks = append(L.toks, tok{"char", src[i : j+1], uint64(r), line})
			i = j + 1
		case c == '"':
			j := i + 1
			for src[j] != '"' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			s, err := strconv.Unquote(src[i : j+1])
			if err != nil {
				fatal("%s:%d: bad string", file, line)
			}
			L.toks = append(L.toks, tok{"str", s, 0, line})
			i = j + 1
		default:
			ok := false
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					L.toks = append(L.toks, tok{"op", o, 0, line})
					i += len(o)
					ok = true
					break
				}
			}
			if !ok {
				fatal("%s:%d: unexpected %q", file, line, string(c))
			}
		}
	}
	L.toks = append(L.toks, tok{"eof", "", 0, line})
	return L
}

func (L *lexer) peek() tok { return L.toks[L.p] }
func (L *lexer) next() tok { t := L.toks[L.p]; L.p++; return t }
func (L *lexer) is(s string) bool {
	t := L.peek()
	return (t.k == "op" || t.k == "id") && t.s == s
}
func (L *lexer) accept(s string) bool {
	if L.is(s) {
		L.p++
		return true
	}
	return false
}
func (L *lexer) expect(s string) {
	if !L.accept(s) {
		t := L.peek()
		fatal("%s:%d: expected %q, found %q", L.file, t.l, s, t.s)
	}
}
func (L *lexer) ident() string {
	t := L.next()
	if t.k != "id" {
		fatal("%s:%d: expected identifier, found %q", L.file, t.l, t.s)
	}
	return t.s
}
func (L *lexer) pos() string { return fmt.Sprintf("%s:%d", filepath.Base(L.file), L.peek().l) }

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "govc: "+f+"\n", a...)
	os.Exit(3)
}

// ---------------------------------------------------------------- expressions

var binPrec = map[string]int{
	"<==>": 1, "==>": 2, "||": 3, "&&": 4,
	"==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5,
	"+": 6, "-": 6, "|": 6, "^": 6,
	"*": 7, "/": 7, "%": 7, "<<": 7, ">>": 7, "&": 7, "&^": 7,
}

func (L *lexer) expr() *Expr { return L.binary(1) }

func (L *lexer) binary(min int) *Expr {
	l := L.unary()
	for {
		t := L.peek()
		if t.k != "op" {
			return l
		}
		p, ok := binPrec[t.s]
		if !ok || p < min {
			return l
		}
		L.next()
		var r *Expr
		if t.s == "==>" {
			r = L.binary(p)
		} else {
			r = L.binary(p + 1)
		}
		l = &Expr{K: "bin", Op: t.s, A: []*Expr{l, r}}
	}
}

func (L *lexer) unary() *Expr {
	t := L.peek()
	if t.k == "op" && (t.s == "!" || t.s == "-" || t.s == "^" || t.s == "*") {
		L.next()
		return &Expr{K: "un", Op: t.s, A: []*Expr{L.unary()}}
	}
	if t.k == "id" && (t.s == "forall" || t.s == "exists") {
		L.next()
		name := L.ident()
		e := &Expr{K: t.s, Name: name, Op: "int"}
		if L.accept("in") {
			lo := L.binary(6)
			L.expect("..")
			hi := L.binary(6)
			L.expect("::")
			e.A = []*Expr{lo, hi, L.expr()}
			return e
		}
		if !L.is("::") {
			e.Op = L.ident()
		}
		L.expect("::")
		e.A = []*Expr{L.expr()}
		return e
	}
	return L.postfix()
}

func (L *lexer) typeText() string {
	s := ""
	for L.is("*") || L.is("[") {
		if L.accept("[") {
			L.expect("]")
			s += "[]"
		} else {
			L.next()
			s += "*"
		}
	}
	s += L.ident()
	if L.accept(".") {
		s += "." + L.ident()
	}
	return s
}

func (L *lexer) postfix() *Expr {
	t := L.next()
	var e *Expr
	switch {
	case t.k == "int":
		e = &Expr{K: "int", Val: t.v}
	case t.k == "char":
		e = &Expr{K: "char", Val: t.v}
	case t.k == "str":
		e = &Expr{K: "str", Name: t.s}
	case t.k == "op" && t.s == "(":
		e = L.expr()
		L.expect(")")
	case t.k == "id" && t.s == "old":
		L.expect("(")
		e = &Expr{K: "old", A: []*Expr{L.expr()}}
		L.expect(")")
	case t.k == "id" && t.s == "typeis":
		L.expect("(")
		x := L.expr()
		L.expect(",")
		e = &Expr{K: "typeis", A: []*Expr{x}, Name: L.typeText()}
		L.expect(")")
	case t.k == "id" && t.s == "tobj":
		// tobj(e, *T): the pointer held in interface e viewed as *T
		L.expect("(")
		x := L.expr()
		L.expect(",")
		e = &Expr{K: "tobj", A: []*Expr{x}, Name: L.typeText()}
		L.expect(")")
	case t.k == "id":
		e = &Expr{K: "ident", Name: t.s}
	default:
		fatal("%s:%d: unexpected %q in expression", L.file, t.l, t.s)
	}
	e.Pos = fmt.Sprintf("%s:%d", filepath.Base(L.file), t.l)
	for {
		switch {
		case L.is(".") && L.toks[L.p+1].k == "id":
			L.next()
			e = &Expr{K: "field", Name: L.ident(), A: []*Expr{e}, Pos: e.Pos}
		case L.is("["):
			L.next()
			i := L.expr()
			L.expect("]")
			e = &Expr{K: "index", A: []*Expr{e, i}, Pos: e.Pos}
		case L.is("("):
			L.next()
			c := &Expr{K: "call", A: []*Expr{e}, Pos: e.Pos}
			for !L.is(")") {
				c.A = append(c.A, L.expr())
				if !L.accept(",") {
					break
				}
			}
			L.expect(")")
			e = c
		default:
			return e
		}
	}
}

// ---------------------------------------------------------------- declarations

func NewSpec() *Spec {
	return &Spec{Contracts: map[string]*Contract{}, Defs: map[string]*Def{}, Models: map[string]*Model{},
		Impls: map[string]*Impl{}, ModSets: map[string]*Def{}, Props: map[string]*PropSpec{}, Ufs: map[string]string{}}
}

func (L *lexer) params() []string {
	var out []string
	L.expect("(")
	for !L.is(")") {
		out = append(out, L.ident())
		if !L.accept(",") {
			break
		}
	}
	L.expect(")")
	return out
}

var clauseKw = map[string]bool{"requires": true, "ensures": true, "invariant": true, "decreases": true, "modifies": true,
	"owns": true, "trusted": true, "bounded": true, "noauto": true, "noterm": true, "split": true, "unroll": true, "inline": true, "pure": true, "hint": true, "assert": true, "cond": true, "assumes": true, "define": true}

func (L *lexer) body(c *Contract) {
	L.expect("{")
	for !L.accept("}") {
		t := L.next()
		if !clauseKw[t.s] {
			fatal("%s:%d: expected a clause keyword, found %q", L.file, t.l, t.s)
		}
		switch t.s {
		case "owns":
			c.Owns = L.expr()
			continue
		case "trusted":
			c.Trusted = L.next().s
			continue
		case "bounded":
			c.Bounded = L.next().s
			continue
		case "noterm":
			c.NoTerm = true
			continue
		case "noauto":
			c.NoAuto = true
			continue
		case "inline":
			c.Inline = true
			continue
		case "pure":
			c.Pure = true
			continue
		case "unroll":
			c.Unroll = int(L.next().v)
			continue
		}
		cl := &Clause{Kind: t.s, Pos: fmt.Sprintf("%s:%d", filepath.Base(L.file), t.l)}
		if L.accept("[") {
			for !L.accept("]") {
				cl.Labels = append(cl.Labels, L.next().s)
				L.accept(",")
			}
		}
		for {
			e := L.expr()
			c2 := *cl
			c2.E = e
			c2.Text = e.String()
			c.Clauses = append(c.Clauses, &c2)
			if t.s == "modifies" && L.accept(",") {
				continue
			}
			break
		}
		L.accept(";")
	}
}

func (sp *Spec) parseFile(file string) {
	src, err := os.ReadFile(file)
	if err != nil {
		fatal("%v", err)
	}
	L := lex(file, string(src))
	pkg := ""
	for {
		t := L.next()
		if t.k == "eof" {
			return
		}
		switch t.s {
		case "package":
			pkg = L.ident()
		case "def":
			d := &Def{Pkg: pkg, Name: L.ident(), Params: L.params()}
			L.expect(":=")
			d.Body = L.expr()
			sp.addDef(d)
		case "uf":
			n := L.ident()
			L.params()
			sp.Ufs[n] = L.typeText()
		case "opaque":
			d := &Def{Pkg: pkg, Name: L.ident(), Params: L.params(), Opaque: true}
			L.expect(":=")
			d.Body = L.expr()
			sp.addDef(d)
		case "modset":
			d := &Def{Pkg: pkg, Name: L.ident(), Params: L.params()}
			L.expect(":=")
			e := L.expr()
			list := &Expr{K: "list", A: []*Expr{e}}
			for L.accept(",") {
				list.A = append(list.A, L.expr())
			}
			d.Body = list
			sp.ModSets[pkg+"."+d.Name] = d
		case "model":
			m := &Model{Pkg: pkg, Iface: L.ident(), Fns: map[string]*ModelFn{}}
			L.expect("(")
			m.Self = L.ident()
			L.expect(")")
			L.expect("{")
			for !L.accept("}") {
				if L.accept("known") {
					m.Known = L.expr()
					continue
				}
				if L.accept("zero") {
					m.Zero = L.expr()
					continue
				}
				f := &ModelFn{Name: L.ident(), Params: L.params()}
				f.Type = L.typeText()
				if L.accept("when") {
					f.When = L.expr()
				}
				L.accept(";")
				m.Fns[f.Name] = f
				m.Order = append(m.Order, f.Name)
			}
			sp.Models[pkg+"."+m.Iface] = m
		case "impl":
			im := &Impl{Pkg: pkg, Type: L.ident(), Defs: map[string]*Def{}}
			L.expect("as")
			im.Iface = L.ident()
			L.expect("{")
			for !L.accept("}") {
				if L.accept("modifies") {
					for {
						e := L.expr()
						im.Mods = append(im.Mods, &Clause{Kind: "modifies", E: e, Text: e.String(), Pos: L.pos()})
						if !L.accept(",") {
							break
						}
					}
					continue
				}
				d := &Def{Pkg: pkg, Name: L.ident(), Params: L.params()}
				L.expect(":=")
				d.Body = L.expr()
				L.accept(";")
				im.Defs[d.Name] = d
			}
			sp.Impls[pkg+"."+im.Type] = im
		case "func", "iface", "functype", "extern", "candidates", "lemma":
			c := &Contract{Pkg: pkg, Kind: t.s, Pos: fmt.Sprintf("%s:%d", filepath.Base(file), t.l)}
			c.Name = L.ident()
			for L.accept(".") {
				c.Name += "." + L.ident()
			}
			c.Params = L.params()
			if L.is("(") {
				c.Results = L.params()
			}
			L.body(c)
			key := pkg + "." + c.Name
			if t.s == "extern" {
				key = c.Name
			}
			if t.s == "candidates" {
				sp.Cands = append(sp.Cands, c)
				continue
			}
			if t.s == "lemma" {
				sp.Lemmas = append(sp.Lemmas, c)
				continue
			}
			if _, dup := sp.Contracts[key]; dup {
				fatal("%s:%d: duplicate contract %s", file, t.l, key)
			}
			sp.Contracts[key] = c
			sp.Order = append(sp.Order, key)
		case "property":
			p := &PropSpec{ID: L.ident()}
			L.expect("{")
			for !L.accept("}") {
				k := L.ident()
				L.expect(":")
				var names []string
				for {
					n := L.ident()
					for L.accept(".") {
						if L.accept("*") {
							n += ".*"
							break
						}
						n += "." + L.ident()
					}
					names = append(names, n)
					if !L.accept(",") {
						break
					}
				}
				switch k {
				case "functions":
					p.Roots = names
				case "safety":
					p.Safety = names
				case "termination":
					p.Term = names
				case "base":
					p.Base = names[0]
				case "frame":
					p.Frame = names
				default:
					fatal("%s: property key %s", file, k)
				}
			}
			sp.Props[p.ID] = p
		default:
			fatal("%s:%d: unexpected %q", file, t.l, t.s)
		}
	}
}

func (sp *Spec) addDef(d *Def) { sp.Defs[d.Pkg+"."+d.Name] = d }

func loadSpecs(dir string) *Spec {
	sp := NewSpec()
	fs, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(fs)
	if len(fs) == 0 {
		fatal("no contracts in %s", dir)
	}
	for _, f := range fs {
		sp.parseFile(f)
	}
	return sp
}
