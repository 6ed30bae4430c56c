package parser

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

// API-level search for failing inputs; it decides nothing by itself.

type vh struct {
	t    *testing.T
	seed int64
	end  time.Time
	mu   sync.Mutex
	n    int
	msg  string
}

func vstart(t *testing.T) *vh {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	b, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	if b == 0 {
		b = 5
	}
	return &vh{t: t, seed: seed, end: time.Now().Add(time.Duration(b) * time.Second)}
}

func (h *vh) fail(f string, a ...interface{}) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.msg == "" {
		h.msg = fmt.Sprintf(f, a...)
	}
}

func (h *vh) stop() bool {
	h.mu.Lock()
	defer h.mu.Unlock()
	return h.msg != "" || time.Now().After(h.end)
}

func (h *vh) count() {
	h.mu.Lock()
	h.n++
	h.mu.Unlock()
}

// run calls f on several goroutines with their own random sources until the
// time is over or something failed
func (h *vh) run(f func(r *rand.Rand, i int)) {
	var wg sync.WaitGroup
	for w := 0; w < runtime.NumCPU(); w++ {
		r := rand.New(rand.NewSource(h.seed*1000 + int64(w)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; !h.stop(); i++ {
				f(r, i)
				h.count()
			}
		}()
	}
	wg.Wait()
	if h.msg != "" {
		fmt.Printf("\nFAILING-INPUT %s\nEVALUATIONS %d\n", h.msg, h.n)
		h.t.FailNow()
	}
	fmt.Printf("\nEVALUATIONS %d\n", h.n)
}

// ---------------------------------------------------------------- one parse

type cfg struct {
	ns    bool
	depth int // location cache depth, 0: not given
	pre   int // bytes before and after the window, -1: the whole slice is the document
}

func (c cfg) String() string {
	s := fmt.Sprintf("namespace aware %v", c.ns)
	if c.depth != 0 {
		s += fmt.Sprintf(", location cache depth %d", c.depth)
	}
	if c.pre >= 0 {
		s += fmt.Sprintf(", in a window with %d bytes around it", c.pre)
	}
	return s
}

func pick(r *rand.Rand) cfg {
	c := cfg{ns: r.Intn(2) == 0, pre: -1}
	switch r.Intn(3) {
	case 0:
		c.depth = 3
	case 1:
		c.depth = 5
	}
	if r.Intn(3) == 0 {
		c.pre = r.Intn(4)
	}
	return c
}

type outcome struct {
	p     *VtdParser
	err   error
	panic interface{}
	hung  bool
	doc   []byte
	off   int
}

// show quotes a document, with long runs abbreviated
func show(d string) string {
	if len(d) > 1500 {
		d = d[:700] + fmt.Sprintf("...(%d bytes)...", len(d)-1400) + d[len(d)-700:]
	}
	return strconv.Quote(d)
}

func (o *outcome) toks() []uint64 {
	n := o.p.vtdBuffer.GetSize()
	out := make([]uint64, 0, n)
	for i := 0; i < n; i++ {
		v, err := o.p.vtdBuffer.LongAt(i)
		if err != nil {
			return out
		}
		out = append(out, uint64(v))
	}
	return out
}

func parse(d string, c cfg) (o *outcome) {
	o = &outcome{doc: []byte(d)}
	opts := []Option{WithNameSpaceAware(c.ns)}
	if c.depth != 0 {
		opts = append(opts, WithLcDepth(c.depth))
	}
	if c.pre < 0 {
		opts = append(opts, WithXmlDoc(o.doc))
	} else {
		o.off = c.pre
		pad := strings.Repeat("<", c.pre)
		o.doc = []byte(pad + d + strings.Repeat(">", c.pre))
		opts = append(opts, WithXmlDocCustomOffset(o.doc, c.pre, len(d)))
	}
	done := make(chan bool)
	go func() {
		defer close(done)
		defer func() {
			if r := recover(); r != nil {
				o.panic = r
			}
		}()
		p, err := NewVtdParser(opts...)
		if err != nil {
			o.err = err
			return
		}
		o.p = p
		o.err = p.Parse()
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		return &outcome{hung: true}
	}
	return o
}

// ---------------------------------------------------------------- tokens

type tok struct {
	typ, off, n, depth int
}

func unpack(v uint64) tok {
	t := tok{int(v >> 60), int(v & 0xFFFFFFFF), int(v>>32) & 0xFFFFF, int(v>>52) & 0xFF}
	return t
}

func (t tok) String() string {
	names := []string{"start tag", "end tag", "attribute name", "namespace declaration", "attribute value", "text", "comment", "PI name", "PI value", "declaration name", "declaration value", "CDATA", "DTD", "document", "14", "15"}
	return fmt.Sprintf("%s at %d length %#x depth %d", names[t.typ], t.off, t.n, t.depth)
}

// ---------------------------------------------------------------- documents

type gen struct {
	r     *rand.Rand
	b     bytes.Buffer
	toks  []tok
	ns    bool // namespace aware
	small bool
	decls []map[string]string // prefixes in scope
	max   int
	elems int
}

func (g *gen) s(s string)     { g.b.WriteString(s) }
func (g *gen) n(k int) int    { return g.r.Intn(k) }
func (g *gen) yes(k int) bool { return g.r.Intn(k) == 0 }
func (g *gen) tok(typ, off, n, depth int) {
	g.toks = append(g.toks, tok{typ, off, n, depth & 0xFF})
}
func (g *gen) ws(min int) {
	for k := g.n(3); k > 0 || min > 0; k, min = k-1, min-1 {
		g.s(string(" \t\n\r"[g.n(4)]))
	}
}

var firsts = "abcxXmMnZ_"
var rests = "abcxmlns019-._"

func (g *gen) ncname() string {
	n := string(firsts[g.n(len(firsts))])
	for k := g.n(4); k > 0; k-- {
		n += string(rests[g.n(len(rests))])
	}
	if g.yes(200) {
		n += strings.Repeat("q", 200+g.n(300))
	}
	if strings.HasPrefix(strings.ToLower(n), "xml") {
		n = "y" + n
	}
	return n
}

// prefixes that are declared here
func (g *gen) prefixes() []string {
	seen := map[string]bool{}
	var out []string
	for i := len(g.decls) - 1; i >= 0; i-- {
		for _, k := range keys(g.decls[i]) {
			if !seen[k] {
				seen[k] = true
				out = append(out, k)
			}
		}
	}
	return out
}

func keys(m map[string]string) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	for i := range out {
		for j := i + 1; j < len(out); j++ {
			if out[j] < out[i] {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}

func (g *gen) url(p string) string {
	for i := len(g.decls) - 1; i >= 0; i-- {
		if u, ok := g.decls[i][p]; ok {
			return u
		}
	}
	return ""
}

// value writes what stands between quotes; it returns it resolved
func (g *gen) value(q byte) string {
	var out strings.Builder
	for k := g.n(5); k > 0; k-- {
		switch g.n(6) {
		case 0:
			g.s("&amp;")
			out.WriteByte('&')
		case 1:
			out.WriteString(g.ref())
		case 2:
			if q == '"' {
				g.s("'")
				out.WriteByte('\'')
			} else {
				g.s("\"")
				out.WriteByte('"')
			}
		case 3:
			g.s("]]>-->?>")
			out.WriteString("]]>-->?>")
		default:
			w := []string{"a", "b1", " ", ">", "uri:x"}[g.n(5)]
			g.s(w)
			out.WriteString(w)
		}
	}
	return out.String()
}

// ref writes a reference
func (g *gen) ref() string {
	named := []string{"amp", "&", "apos", "'", "quot", "\"", "lt", "<", "gt", ">"}
	switch g.n(3) {
	case 0:
		k := g.n(5)
		g.s("&" + named[2*k] + ";")
		return named[2*k+1]
	case 1:
		c := []int{'a', 'b', 9, 10, 13, 0x20, 0x7F, 0xD7FF, 0xE000, 0xFFFD, 0x10000, 0x10FFFF}[g.n(12)]
		g.s("&#" + strings.Repeat("0", g.n(3)) + strconv.Itoa(c) + ";")
		return string(rune(c))
	default:
		c := []int{'a', 'b', 0xE9, 0x10FFFF, 0xABCD}[g.n(5)]
		f := "&#x%x;"
		if g.yes(2) {
			f = "&#x%X;"
		}
		g.s(fmt.Sprintf(f, c))
		return string(rune(c))
	}
}

func (g *gen) comment(depth int) {
	g.s("<!--")
	o := g.b.Len()
	for k := g.n(4); k > 0; k-- {
		g.s([]string{"a", " ", "-x", "<&", "]]>", "?>", ">"}[g.n(7)])
	}
	g.tok(6, o, g.b.Len()-o, depth)
	g.s("-->")
}

func (g *gen) pi(depth int) {
	g.s("<?")
	o := g.b.Len()
	g.s([]string{"a", "xm", "xmlx", "XML-a", "t1:b", "_", "x", "xn"}[g.n(8)])
	g.tok(7, o, g.b.Len()-o, depth)
	if g.yes(3) {
		g.tok(8, -1, 0, depth)
	} else {
		g.s(string(" \n\t\r"[g.n(4)]))
		o = g.b.Len()
		for k := g.n(4); k > 0; k-- {
			g.s([]string{"a", " ", "?x", "<&", "]]>", "-->", ">"}[g.n(7)])
		}
		g.tok(8, o, g.b.Len()-o, depth)
	}
	g.s("?>")
}

func (g *gen) text() {
	for k := 1 + g.n(3); k > 0; k-- {
		switch g.n(7) {
		case 0:
			g.ref()
		case 1:
			if strings.HasSuffix(g.b.String(), "]") {
				g.s("x")
			}
			g.s([]string{"]]", "]", "]>", "]] >", "]]a>"}[g.n(5)] + "x")
		case 2:
			g.s(" \n")
		case 3:
			g.s([]string{">", "-->", "?>", "\"'"}[g.n(4)])
		default:
			g.s([]string{"a", "text", "1.5", "t\tu"}[g.n(4)])
		}
	}
}

func (g *gen) element(depth int) {
	g.elems++
	g.s("<")
	o := g.b.Len()
	// declarations come first, they may be used by the name
	type attr struct{ name, val string }
	mine := map[string]string{}
	var attrs []func()
	names := map[string]bool{}
	quals := map[string]bool{}
	attribute := func(name string, isns bool, fixed string, set func(string)) func() {
		return func() {
			g.ws(1)
			at := g.b.Len()
			g.s(name)
			l2 := strings.Index(name, ":")
			if l2 < 0 {
				l2 = 0
			}
			t := 2
			if isns {
				t = 3
			}
			g.tok(t, at, l2<<11|len(name), depth)
			if g.yes(4) {
				g.ws(0)
			}
			g.s("=")
			if g.yes(4) {
				g.ws(0)
			}
			q := "\"'"[g.n(2)]
			g.s(string(q))
			v := g.b.Len()
			var val string
			if fixed != "" {
				g.s(fixed)
				val = fixed
			} else {
				val = g.value(q)
			}
			_ = val
			g.tok(4, v, g.b.Len()-v, depth)
			g.s(string(q))
		}
	}
	if g.yes(3) {
		for k := 1 + g.n(3); k > 0; k-- {
			p := g.ncname()
			if mine[p] != "" {
				continue
			}
			u := []string{"u", "uri:a", "http://www.w3.org/2000/xmlns", "http://www.w3.org/XML/1998/name", "uu", "http://www.w3.org/2000/xmlns/x/abcdefgh"}[g.n(6)]
			w := u
			if g.yes(3) {
				w = strings.Replace(u, "u", "&#117;", 1)
			}
			mine[p] = u
			attrs = append(attrs, attribute("xmlns:"+p, true, w, nil))
		}
	}
	if g.yes(6) {
		attrs = append(attrs, attribute("xmlns", true, []string{"d", "uri:d"}[g.n(2)], nil))
	}
	if g.yes(20) {
		attrs = append(attrs, attribute("xmlns:xml", true, "http://www.w3.org/XML/1998/namespace", nil))
	}
	g.decls = append(g.decls, mine)
	ps := g.prefixes()
	name := g.ncname()
	if len(ps) > 0 && g.yes(2) {
		name = ps[g.n(len(ps))] + ":" + name
	} else if g.yes(15) {
		name = "xml:" + name
	}
	for k := g.n(4); k > 0 && g.yes(2); k-- {
		a := g.ncname()
		q := a
		if len(ps) > 0 && g.yes(2) {
			p := ps[g.n(len(ps))]
			q = g.url(p) + " " + a
			a = p + ":" + a
		} else if g.yes(10) {
			q = "xml " + a
			a = "xml:" + a
		}
		if names[a] || quals[q] {
			continue
		}
		names[a], quals[q] = true, true
		attrs = append(attrs, attribute(a, false, "", nil))
	}
	if g.yes(300) {
		for i := 0; i < 300; i++ {
			attrs = append(attrs, attribute(fmt.Sprintf("k%d", i), false, "v", nil))
		}
	}
	g.r.Shuffle(len(attrs), func(i, j int) { attrs[i], attrs[j] = attrs[j], attrs[i] })
	g.s(name)
	l2 := strings.Index(name, ":")
	if l2 < 0 {
		l2 = 0
	}
	g.tok(0, o, l2<<11|len(name), depth)
	for _, a := range attrs {
		a()
	}
	g.ws(0)
	if g.yes(4) {
		g.s("/>")
		g.decls = g.decls[:len(g.decls)-1]
		return
	}
	g.s(">")
	g.content(depth)
	g.s("</" + name)
	g.ws(0)
	g.s(">")
	g.decls = g.decls[:len(g.decls)-1]
}

// content writes what an element holds.  Characters up to the next piece of
// markup make one text token, unless they are white space; an element that
// holds nothing else has its white space (or nothing) as a text token.
func (g *gen) content(depth int) {
	k := g.n(4)
	if depth > 6 || g.elems > g.max {
		k = g.n(2)
	}
	start := g.b.Len()
	marks := 0
	for ; k > 0; k-- {
		g.chars(depth)
		switch g.n(6) {
		case 0:
			g.comment(depth)
		case 1:
			g.pi(depth)
		case 2:
			g.s("<![CDATA[")
			o := g.b.Len()
			for k := g.n(4); k > 0; k-- {
				g.s([]string{"a", " ", "]x", "<&", "a]>", "-->", "]]x", "]"}[g.n(8)])
			}
			g.s("y")
			if g.yes(3) {
				g.s("]")
			}
			g.tok(11, o, g.b.Len()-o, depth)
			g.s("]]>")
		default:
			g.element(depth + 1)
		}
		marks++
	}
	if g.chars(depth) == 0 && marks == 0 {
		// <a></a> and <a> </a>
		g.tok(5, start, g.b.Len()-start, depth)
	}
}

// chars writes text or white space or nothing; it returns 1 when there is a token
func (g *gen) chars(depth int) int {
	o := g.b.Len()
	switch g.n(3) {
	case 0:
		return 0
	case 1:
		g.ws(0)
		return 0
	}
	g.ws(0)
	g.s([]string{"t", "&lt;", "]", "&#x41;", "0"}[g.n(5)])
	g.text()
	g.tok(5, o, g.b.Len()-o, depth)
	return 1
}

func (g *gen) declaration() {
	q := func(s string) string {
		if g.yes(2) {
			return "\"" + s + "\""
		}
		return "'" + s + "'"
	}
	attr := func(n, v string) {
		g.tok(9, g.b.Len(), len(n), -1)
		g.s(n)
		g.ws(0)
		g.s("=")
		g.ws(0)
		g.tok(10, g.b.Len()+1, len(v), -1)
		g.s(q(v))
	}
	g.s("<?xml")
	g.ws(1)
	attr("version", []string{"1.0", "1.1"}[g.n(2)])
	if g.yes(2) {
		g.ws(1)
		attr("encoding", []string{"UTF-8", "utf-8", "Utf-8", "ascii", "ASCII", "us-ascii", "US-ASCII"}[g.n(7)])
	}
	if g.yes(3) {
		g.ws(1)
		attr("standalone", []string{"yes", "no"}[g.n(2)])
	}
	g.ws(0)
	g.s("?>")
}

func newGen(r *rand.Rand) *gen { return &gen{r: r, max: 6} }

// document writes a well-formed document and the tokens it stands for
func (g *gen) document() string {
	g.tok(13, 0, 0, -1)
	if g.yes(3) {
		g.declaration()
	}
	misc := func(doctype bool) {
		g.ws(0)
		for k := g.n(3); k > 0 && g.yes(2); k-- {
			if g.yes(2) {
				g.comment(-1)
			} else {
				g.pi(-1)
			}
			g.ws(0)
		}
	}
	misc(true)
	if g.yes(4) {
		g.s("<!DOCTYPE")
		o := g.b.Len()
		g.s([]string{" a", " a [<!ELEMENT a ANY>]", " a SYSTEM 'x'", " a [<!ENTITY b \"c\"><!ATTLIST a b CDATA #IMPLIED>] "}[g.n(4)])
		g.tok(12, o, g.b.Len()-o, -1)
		g.s(">")
		misc(false)
	}
	g.element(0)
	g.ws(0)
	for k := g.n(3); k > 0 && g.yes(2); k-- {
		if g.yes(2) {
			g.comment(-1)
		} else {
			g.pi(-1)
		}
		g.ws(0)
	}
	return g.b.String()
}

// shift moves the expected tokens into the window of a larger array
func shift(ts []tok, off int) []tok {
	out := append([]tok{}, ts...)
	for i := range out {
		if out[i].off >= 0 && out[i].typ != 13 {
			out[i].off += off
		}
	}
	return out
}

// differ compares the records of a parse with the expected tokens
func differ(got []uint64, want []tok) string {
	for i, w := range want {
		if i >= len(got) {
			return fmt.Sprintf("record %d is missing: %v", i, w)
		}
		g := unpack(got[i])
		if w.off < 0 {
			w.off = g.off
		}
		if g != w {
			return fmt.Sprintf("record %d is %v instead of %v", i, g, w)
		}
	}
	if len(got) > len(want) {
		return fmt.Sprintf("record %d was not expected: %v", len(want), unpack(got[len(want)]))
	}
	return ""
}

// expect parses a document and tells whether it was accepted; panics and
// documents that do not end count as failures of C10 and C11 only
func (h *vh) expect(d string, c cfg, ok bool, why string) *outcome {
	o := parse(d, c)
	if o.panic != nil || o.hung || o.p == nil {
		return nil
	}
	if (o.err == nil) != ok {
		if ok {
			h.fail("Parse refuses %s (%v; %s): %v", show(d), c, why, o.err)
		} else {
			h.fail("Parse accepts %s (%v; %s)", show(d), c, why)
		}
		return nil
	}
	return o
}

func (h *vh) wellFormed(r *rand.Rand) (*gen, string, cfg, *outcome) {
	g := newGen(r)
	c := pick(r)
	g.ns = c.ns
	d := g.document()
	return g, d, c, h.expect(d, c, true, "a well-formed document")
}

// compare parses a well-formed document and compares the records
func (h *vh) compare(r *rand.Rand) {
	g, d, c, o := h.wellFormed(r)
	if o == nil {
		return
	}
	if s := differ(o.toks(), shift(g.toks, o.off)); s != "" {
		h.fail("Parse of %s (%v): %s", show(d), c, s)
	}
}

func mutate(r *rand.Rand, d string) string {
	b := []byte(d)
	pieces := []string{"<", ">", "&", ";", "\"", "'", "/", "?", "!", "-", "[", "]", "=", ":", " ", "</", "/>", "<!--", "-->", "<![CDATA[", "]]>", "<?", "?>", "xml", "xmlns", "&#x", "\x00", "\x80", "\xff", "\xc3\xa9", "\xe2\x82", "<!DOCTYPE", "a"}
	for k := 1 + r.Intn(3); k > 0; k-- {
		i := 0
		if len(b) > 0 {
			i = r.Intn(len(b))
		}
		switch r.Intn(5) {
		case 0:
			if len(b) > 0 {
				b[i] = byte(r.Intn(256))
			}
		case 1:
			b = b[:i]
		case 2:
			j := i + r.Intn(len(b)-i+1)
			b = append(append([]byte{}, b[:i]...), b[j:]...)
		case 3:
			b = append(append(append([]byte{}, b[:i]...), pieces[r.Intn(len(pieces))]...), b[i:]...)
		default:
			j := i + r.Intn(len(b)-i+1)
			l := r.Intn(len(b) + 1)
			b = append(append(append([]byte{}, b[:l]...), b[i:j]...), b[l:]...)
		}
	}
	return string(b)
}

var specials = []string{"<", "</", "</a", "</a>", "<a", "<a ", "<a b", "<a b=", "<a b='", "<a b='c'", "<a b='c'/", "<!", "<!-", "<!--", "<!---", "<!----", "<![", "<![CDATA[", "<!D", "<!DOCTYPE", "<?", "<?x", "<?xml", "<?xml ", "<?xml version", "<?xml version='1.0", "<?xml version='1.0'", "<?xml version='1.0' e", "<?xml version='1.0' encoding='a", "<?xml version='1.0' encoding='u", "<a/>", "<a/><", "<a/><?", "<a/><!", "<a/><!-", "<a/><?b", "<a>&", "<a>&#", "<a>&#x", "<a>&a", "<a>]", "<a>]]", "<a>]]>", "<a></", "<a></a", "<a>\n", "\xef", "\xef\xbb\xbf<a/>", "\xfe\xff\x00<", "\xff\xfe<\x00", "\x00<\x00?", "<\x00?\x00", "<\x00?\x00a", "<:a/>", "<a: b:='c'/>", "<a::b/>", "<a xmlns:='b'/>", "<a xmlns::b='c'/>", "<a xmlns:b='&#x;'/>", "<a xmlns:b='http://www.w3.org/&#x58;ML/1998/namespace'/>"}

func (h *vh) anything(r *rand.Rand, i int) (string, cfg) {
	c := pick(r)
	switch {
	case r.Intn(4) == 0:
		d := specials[r.Intn(len(specials))]
		if r.Intn(3) == 0 {
			d += specials[r.Intn(len(specials))]
		}
		return d, c
	case r.Intn(6) == 0:
		var b strings.Builder
		for k := r.Intn(300); k >= 0; k-- {
			b.WriteString("<a" + []string{"", " b='c'", " xmlns:x='y'"}[r.Intn(3)] + ">")
			if r.Intn(12) == 0 {
				b.WriteString("</a>")
			}
		}
		return b.String(), c
	}
	g := newGen(r)
	d := mutate(r, g.document())
	if d == "" {
		d = "<"
	}
	return d, c
}

func TestVerifC10(t *testing.T) {
	h := vstart(t)
	h.run(func(r *rand.Rand, i int) {
		d, c := h.anything(r, i)
		if o := parse(d, c); o.panic != nil {
			h.fail("Parse of %s (%v) panics: %v", show(d), c, o.panic)
		}
	})
}

func TestVerifC11(t *testing.T) {
	h := vstart(t)
	h.run(func(r *rand.Rand, i int) {
		d, c := h.anything(r, i)
		if o := parse(d, c); o.hung {
			h.fail("Parse of %s (%v) does not end", show(d), c)
		}
	})
}

func TestVerifC12(t *testing.T) {
	h := vstart(t)
	h.run(func(r *rand.Rand, i int) {
		if i%2 == 0 {
			h.compare(r)
			return
		}
		d, c := h.anything(r, i)
		o := parse(d, c)
		if o.panic != nil || o.hung || o.p == nil || o.err != nil {
			return
		}
		end := o.off + len(d)
		for k, v := range o.toks() {
			w := unpack(v)
			n := w.n
			if w.typ == 0 || w.typ == 2 || w.typ == 3 {
				n = w.n & 0x7FF
				if w.n>>11 > n {
					h.fail("Parse of %s (%v): record %d (%v) has a prefix longer than its name", show(d), c, k, w)
				}
			}
			if w.typ > 13 || w.off+n > end || w.typ != 13 && w.off < o.off {
				h.fail("Parse of %s (%v): record %d (%v) lies outside the document", show(d), c, k, w)
			}
		}
	})
}

// the extremes of the fields of a record
func TestVerifC13(t *testing.T) {
	h := vstart(t)
	var once sync.Once
	h.run(func(r *rand.Rand, i int) {
		once.Do(func() {
			for _, n := range []int{0xFFFFE, 0xFFFFF, 0x100000, 0x1FFFFE, 0x1FFFFF, 0x200000} {
				for form := 0; form < 3; form++ {
					text := strings.Repeat("t", n)
					typ, d, o := 5, "<a>"+text+"</a>", 3
					switch form {
					case 1:
						typ, d, o = 11, "<a><![CDATA["+text+"]]></a>", 12
					case 2:
						typ, d, o = 6, "<a><!--"+text+"--></a>", 7
					}
					want := []tok{{13, 0, 0, 255}, {0, 1, 1, 0}}
					for rest := n; ; rest, o = rest-0xFFFFF, o+0xFFFFF {
						if rest <= 0xFFFFF {
							want = append(want, tok{typ, o, rest, 0})
							break
						}
						want = append(want, tok{typ, o, 0xFFFFF, 0})
					}
					c := cfg{depth: 3, pre: -1}
					if q := h.expect(d, c, true, "a long text"); q != nil {
						if s := differ(q.toks(), want); s != "" {
							h.fail("Parse of %s: %s", show(d), s)
						}
					}
				}
			}
		})
		k := 1 + r.Intn(254)
		if r.Intn(3) == 0 {
			k = 250 + r.Intn(5)
		}
		q := 1 + r.Intn(2046)
		p := 1 + r.Intn(511)
		if r.Intn(2) == 0 {
			q, p = 2040+r.Intn(8), 505+r.Intn(7)
		}
		name := strings.Repeat("p", p) + ":" + strings.Repeat("n", q)
		if len(name) > 2047 {
			name = name[:2047]
		}
		c := pick(r)
		c.ns = false
		var b strings.Builder
		want := []tok{{13, 0, 0, 255}}
		for i := 0; i < k; i++ {
			want = append(want, tok{0, b.Len() + 1, 1, i})
			b.WriteString("<e>")
		}
		want = append(want, tok{0, b.Len() + 1, p<<11 | len(name), k})
		b.WriteString("<" + name + " ")
		want = append(want, tok{2, b.Len(), p<<11 | len(name), k})
		b.WriteString(name + "='")
		n := r.Intn(300)
		want = append(want, tok{4, b.Len(), n, k})
		b.WriteString(strings.Repeat("v", n) + "'/>" + strings.Repeat("</e>", k))
		o := h.expect(b.String(), c, true, "a deep document with long names")
		if o != nil {
			if s := differ(o.toks(), shift(want, o.off)); s != "" {
				h.fail("Parse of %s (%v): %s", show(b.String()), c, s)
			}
		}
	})
}

// wrap puts a piece of content somewhere into a well-formed document
func wrap(r *rand.Rand, piece string) string {
	pre := []string{"", "<?xml version='1.0'?>", "<!--c-->", "<!DOCTYPE a>", "\n "}[r.Intn(5)]
	d := pre
	k := r.Intn(4)
	names := []string{"a", "b", "longer", "x1"}
	var open []string
	for i := 0; i <= k; i++ {
		n := names[r.Intn(4)]
		d += "<" + n + []string{"", " k='v'", " xmlns='u'"}[r.Intn(3)] + ">" + []string{"", " ", "text", "<c/>", "<c></c>", "<c d='e'>f</c>"}[r.Intn(6)]
		open = append(open, n)
	}
	d += piece
	for i := len(open) - 1; i >= 0; i-- {
		d += "</" + open[i] + []string{">", " >"}[r.Intn(2)] + []string{"", " ", "t"}[r.Intn(3)]
		if i == 0 {
			d = strings.TrimRight(d, "t ")
		}
	}
	return d
}

func (h *vh) alternate(good, bad []string, nsOnly bool, doc bool) {
	h.run(func(r *rand.Rand, i int) {
		c := pick(r)
		if nsOnly {
			c.ns = true
		}
		l, ok, why := good, true, "nothing is wrong with it"
		if i%2 == 0 {
			l, ok, why = bad, false, "it is not well-formed"
		}
		k := i / 2
		if k >= len(l) || len(l) == 0 {
			if len(l) == 0 {
				return
			}
			k = r.Intn(len(l))
		}
		d := l[k]
		if !doc {
			d = wrap(r, d)
		}
		h.expect(d, c, ok, why)
	})
}

// start and end tags
func TestVerifC14(t *testing.T) {
	h := vstart(t)
	h.run(func(r *rand.Rand, i int) {
		c := pick(r)
		if i%3 == 0 {
			h.compare(r)
			return
		}
		names := []string{"a", "b", "ab", "ba", "abc", "abd", "xbc", "a1", "name", "namf", "Name", "na-me", "a.b"}
		var b strings.Builder
		var open []string
		broken := -1
		steps := 2 + r.Intn(14)
		if i%3 == 1 {
			broken = 1 + r.Intn(steps)
		}
		bad := false
		fill := func() {
			if len(open) > 0 && r.Intn(3) == 0 {
				b.WriteString([]string{" ", "t", "<!--</a>-->", "<![CDATA[</b>]]>", "<?p </a>?>", "&lt;/a>", "]", "]]"}[r.Intn(8)])
			}
		}
		openTag := func() {
			n := names[r.Intn(len(names))]
			b.WriteString("<" + n)
			if r.Intn(4) == 0 {
				b.WriteString([]string{" ", " k='/>'", " k='&lt;/a>'", "\n k=\"v\" "}[r.Intn(4)])
			}
			if r.Intn(4) == 0 && len(open) > 0 {
				b.WriteString("/>")
			} else {
				b.WriteString(">")
				open = append(open, n)
			}
		}
		closeTag := func(n string) {
			b.WriteString("</" + n + []string{">", " >", "\n>"}[r.Intn(3)])
			open = open[:len(open)-1]
		}
		openTag()
		for s := 0; s < steps && len(open) > 0; s++ {
			fill()
			if s == broken && !bad {
				bad = true
				n := open[len(open)-1]
				switch r.Intn(4) {
				case 0: // another name of the same length
					m := []byte(n)
					m[r.Intn(len(m))] ^= 1
					closeTag(string(m))
				case 1: // a longer name
					closeTag(n + "x")
				case 2: // a shorter one, or that of an outer element
					if len(n) > 1 {
						closeTag(n[:len(n)-1])
					} else if len(open) > 1 && open[len(open)-2] != n {
						b.WriteString("</" + open[len(open)-2] + ">")
						open = open[:len(open)-2]
					} else {
						bad = false
						openTag()
					}
				default: // an end tag is missing
					open = open[:len(open)-1]
				}
				continue
			}
			if r.Intn(2) == 0 {
				openTag()
			} else if len(open) > 1 {
				closeTag(open[len(open)-1])
			}
		}
		for len(open) > 0 {
			fill()
			closeTag(open[len(open)-1])
		}
		if i%3 == 1 && !bad {
			bad = true
			b.WriteString([]string{"<a/>", "</a>", "<b></b>", "text", "<![CDATA[x]]>", "&lt;"}[r.Intn(6)])
		}
		why := "every end tag carries the name of the start tag it closes"
		if bad {
			why = "its tags are not well nested"
		}
		h.expect(b.String(), c, !bad, why)
	})
}

func TestVerifC15(t *testing.T) {
	h := vstart(t)
	h.run(func(r *rand.Rand, i int) {
		c := pick(r)
		n := 1 + r.Intn(6)
		if r.Intn(30) == 0 {
			n = 250 + r.Intn(20)
		}
		var names []string
		seen := map[string]bool{}
		for len(names) < n {
			a := fmt.Sprintf("%c%d", "abAB_"[r.Intn(5)], r.Intn(300))
			if r.Intn(3) == 0 {
				a = strings.Repeat("n", 1+r.Intn(5)) + string("xyz"[r.Intn(3)])
			}
			if n > 100 {
				a = fmt.Sprintf("a%d", 1000+len(names))
			}
			if !seen[a] {
				seen[a] = true
				names = append(names, a)
			} else if n < 100 {
				n--
			}
		}
		if len(names) == 0 {
			return
		}
		dup := i%2 == 0
		if dup {
			at := r.Intn(len(names) + 1)
			names = append(names[:at:at], append([]string{names[r.Intn(len(names))]}, names[at:]...)...)
		}
		var b strings.Builder
		b.WriteString("<a>")
		if r.Intn(2) == 0 {
			b.WriteString("<c " + names[0] + "='1'/>")
		}
		b.WriteString("<b")
		for _, a := range names {
			b.WriteString(" " + a + []string{"='v'", " = \"\"", "='&amp;'"}[r.Intn(3)])
		}
		b.WriteString([]string{"/>", "></b>", " >t</b>"}[r.Intn(3)] + "</a>")
		why := "its attributes have different names"
		if dup {
			why = "a start tag has two attributes of one name"
		}
		h.expect(b.String(), c, !dup, why)
	})
}

func TestVerifC16(t *testing.T) {
	h := vstart(t)
	const x = "http://www.w3.org/XML/1998/namespace"
	const n = "http://www.w3.org/2000/xmlns/"
	good := []string{
		"<a xmlns:p='u'><p:b/></a>", "<a xmlns:p='u' p:c='d'/>", "<a p:c='d' xmlns:p='u'/>", "<p:a xmlns:p='u'/>", "<p:a xmlns:p='u'></p:a>",
		"<a xml:lang='e'/>", "<xml:a/>", "<a xmlns:xml='" + x + "'/>", "<a xmlns:p='u' xmlns:q='v' p:c='1' q:c='2'/>",
		"<a xmlns:p='u'><b xmlns:q='u'><q:c p:d='1' d='2'/></b></a>", "<a xmlns:p='u'><b/><p:c/></a>", "<a xmlns:p='u'><b></b><c p:d='1'/></a>",
		"<a xmlns:p='u'><b xmlns:p='v' p:c='1'/></a>", "<a xmlns:pq='u' xmlns:p='v'><p:b pq:c='1' p:c='2'/></a>",
		"<a xmlns='u' b='1'/>", "<a xmlns:p='u' xmlns:q='u&#118;' p:c='1' q:c='2'/>", "<a xmlns:p='&#117;' xmlns:q='v' p:c='1' q:c='2'/>",
		"<a xmlns:p='" + n + "x' p:b='c'/>", "<a xmlns:p='" + x + "s'/>", "<a xmlns:xmlp='u' xmlp:b='c'/>", "<a xmlns:xmlnsp='u'/>",
		"<a xmlns:p='u'><b xmlns:q='v'/><p:c/></a>", "<a xmlns:p='u'><b xmlns:q='v'><q:d/></b><p:c p:e='f'/></a>", "<a xmlns:p='u'><p:b xmlns:q='w' q:c='1'/><p:d/></a>",
		"<a xmlns:p='u' xmlns:q='v' xmlns:s='w' p:a='1' q:a='2' s:a='3'/>", "<a xmlns:p='u' xmlns:q='ut' p:c='1' q:c='2'/>",
		"<a xmlns:p='&amp;a' xmlns:q='&apos;a' p:c='1' q:c='2'/>", "<a xmlns:p='&lt;' xmlns:q='&gt;' p:c='1' q:c='2'/>",
	}
	bad := []string{
		"<p:a/>", "<p:a></p:a>", "<a p:b='c'/>", "<a><p:b/></a>", "<a><b xmlns:p='u'/><p:c/></a>", "<a><b xmlns:p='u'></b><p:c/></a>", "<a><b xmlns:p='u'/><c p:d='e'/></a>",
		"<a xmlns:pq='u'><p:b/></a>", "<a xmlns:p='u'><pq:b/></a>", "<a xmlns:p='u'><q:b/></a>", "<a xmlns:p='u' q:b='c'/>",
		"<a xmlns:p='u' xmlns:q='u' p:c='1' q:c='2'/>", "<a xmlns:p='u'><b xmlns:q='u' p:c='1' q:c='2'/></a>", "<a xmlns:p='u' xmlns:q='&#117;' p:c='1' q:c='2'/>",
		"<a xmlns:p='&#x75;v' xmlns:q='u&#118;' p:c='1' q:c='2'/>", "<a xmlns:p='a&amp;b' xmlns:q='a&#38;b' p:c='1' q:c='2'/>", "<a xmlns:p='&apos;' xmlns:q='&#39;' p:c='1' q:c='2'/>", "<a xmlns:p='&quot;' xmlns:q='&#34;' p:c='1' q:c='2'/>", "<a xmlns:p='&lt;' xmlns:q='&#60;' p:c='1' q:c='2'/>", "<a xmlns:p='&gt;' xmlns:q='>' p:c='1' q:c='2'/>",
		"<a xmlns:p=''/>", "<a xmlns:xml='u'/>", "<a xmlns:xmlns='u'/>", "<xmlns:a/>", "<a xmlns:p='" + x + "'/>", "<a xmlns:p='" + n + "'/>", "<a xmlns='" + x + "'/>", "<a xmlns='" + n + "'/>",
		"<a xmlns:p='http://www.w3.org/&#88;ML/1998/namespace'/>", "<a xmlns:p='u' xmlns:q='v' xmlns:s='u' p:a='1' q:a='2' s:a='3'/>", "<a xmlns:p='u' xmlns:q='v' xmlns:s='v' p:a='1' q:b='2' q:a='2' s:b='3'/>",
		"<a><b xmlns:p='u'><c/></b><p:d/></a>", "<a><b xmlns:p='u'><c><d/></c></b><e p:f='g'/></a>", "<a xmlns:p='u'><b xmlns:q='v'></b><q:c/></a>",
	}
	h.run(func(r *rand.Rand, i int) {
		if i%4 == 3 {
			g := newGen(r)
			c := pick(r)
			c.ns, g.ns = true, true
			h.expect(g.document(), c, true, "every prefix is declared")
			return
		}
		l, ok, why := good, true, "every prefix is declared and no two attributes are the same"
		if i%2 == 0 {
			l, ok, why = bad, false, "a namespace constraint is violated"
		}
		d := l[r.Intn(len(l))]
		c := pick(r)
		c.ns = true
		switch r.Intn(4) {
		case 0:
			d = "<o>" + d + "</o>"
		case 1:
			d = "<o xmlns:z='y'>" + d + "<z:i/></o>"
		case 2:
			d = "<!--c-->" + d
		}
		// longer prefixes
		if k := r.Intn(4); k > 0 {
			for _, p := range []string{"p", "q", "s"} {
				to := p + strings.Repeat("w", k)
				for _, q := range []string{"<", "</", " ", "xmlns:"} {
					d = strings.ReplaceAll(d, q+p+":", q+to+":")
					if q == "xmlns:" {
						d = strings.ReplaceAll(d, q+p+"=", q+to+"=")
						d = strings.ReplaceAll(d, q+p+"q=", q+to+"q=")
					} else {
						d = strings.ReplaceAll(d, q+p+"q:", q+to+"q:")
					}
				}
			}
		}
		h.expect(d, c, ok, why)
		if !ok && r.Intn(4) == 0 && !strings.Contains(d, "xmlns:a") {
			c.ns = false
			h.expect(d, c, true, "namespaces are not looked at")
		}
	})
}

func TestVerifC17(t *testing.T) {
	h := vstart(t)
	good := []string{"<!---->", "<!-- - -->", "<!--a-b-->", "<!--]]>-->", "<!--?>-->", "<!--<a>&-->", "<!--->-->"[:0] + "<!--x-->", "<![CDATA[]]>", "<![CDATA[]]]>", "<![CDATA[]]]]>", "<![CDATA[]>]]>", "<![CDATA[]] >]]>", "<![CDATA[<a>&--]]>", "<?p?>", "<?p ?>", "<?p a?>", "<?p ??>", "<?p a??>", "<?p > -->?>", "<?xm?>", "<?xmlx?>", "<?x ml?>", "<?xml-s a?>", "<?XMl1?>", "]", "]]", "]>", "]]]", "] ]>", "]]x>", "<c/>]", "<c/>]]", "<c/>]>", "<c/>]] >", "a]]b", "<!--a--><!--b-->", "<?a?><?b?>", "<![CDATA[a]]><![CDATA[b]]>", "<c></c>]", "<!--a-->]", "<!--a-->]]", "<?p?>]]x"}
	bad := []string{"<!-- -- -->", "<!--a--b-->", "<!--a--->", "<!--->", "<!-->", "<!-a-->", "<!--a-- >", "<!a>", "<!>", "<![CDATA[", "<![CDATA[]]", "<![CDATA[]>", "<![CDAT[a]]>", "<![cdata[a]]>", "<![ CDATA[a]]>", "<?p", "<?p a", "<?p a>", "<?p a? >", "<??>", "<? p?>", "<?1?>", "<?xml?>", "<?XML?>", "<?xMl a?>", "<?p*?>", "<?p!a?>", "]]>", "a]]>", "]]]>", "]]]]>b", "a]]>b", "<c/>]]>", "<c/>]]]>", "<c></c>]]>", "<c></c>a]]>", "<!--a-->]]>", "<?p?>]]>", "<!--\x01-->"[:0] + "<!--\x00-->", "<![CDATA[\x00]]>", "<?p \x00?>", "\x00", "<!DOCTYPE a>", "< a/>", "<>", "<1/>", "</>", "<c></c ", "&", "<c/>&", "<c/>&x;"}
	tailGood := []string{"<!---->", "<!--a-b-->", "<!--]]>-->", "<?p?>", "<?p a?>", "<?xm?>", "<?xmlx?>", "<?p ?>", "<?p ??>", " \n", "<!--a--> <?p b?>\n<!--c-->", "<?p\na?>", "<?p \t a ?>"}
	tailBad := []string{"<!--a--b-->", "<!--a--->", "<!--->", "<!--", "<!--a", "<!--a--", "<?p", "<?p ", "<?p a", "<?p a>", "<?xml?>", "<?XML a?>", "<?1?>", "<? p?>", "<![CDATA[a]]>", "<!DOCTYPE a>", "a", "&lt;", "<", "]", "]]>", "<!--a-->b", "<?p?>b", "<?p*?>", "<!--\x00-->", "<?p \x00?>", "<!-a-->"}
	headBad := []string{"<!--a--b--><a/>", "<!--a---><a/>", "<![CDATA[a]]><a/>", "<?p><a/>", "<?p a><a/>", "<?p?><?xml?><a/>", "<!--c--><?xml version='1.0'?><a/>", "a<a/>", "<!--c-->a<a/>", "<?p?>&lt;<a/>", "<!DOCTYPE a<a/>", "<!DOCTYPE a [<!ELEMENT a ANY>]<a/>", "<!DOCTYP a><a/>", "<!doctype a><a/>", "<!DOCTYPE a>", "<!--a-->", "<?p?>", "<!DOCTYPE a>]<a/>"}
	headGood := []string{"<!---->", "<!--a-->", "<?p?>", "<?p a?>", "<?xmlx?>", "<?xm a?>", "<!DOCTYPE a>", "<!DOCTYPE a [<!ELEMENT a ANY>]>", "<!DOCTYPE a [<!ELEMENT a ANY><!ATTLIST a b CDATA #IMPLIED>]><!--c-->", "<!--a--><!DOCTYPE a><?p?>", "<?xml version='1.0'?><?p?><!--a--><!DOCTYPE a>", " <!--a-->", "<?p?>\n<!--b-->\n"}
	h.run(func(r *rand.Rand, i int) {
		c := pick(r)
		ws := func() string { return []string{"", "", " ", "\n"}[r.Intn(4)] }
		switch i % 8 {
		case 0, 1:
			h.expect(wrap(r, ws()+good[r.Intn(len(good))]+ws()), c, true, "its markup ends where it should")
		case 2, 3:
			h.expect(wrap(r, ws()+bad[r.Intn(len(bad))]), c, false, "a piece of markup is not as it should be")
		case 4:
			h.expect(wrap(r, "")+ws()+tailGood[r.Intn(len(tailGood))], c, true, "comments and processing instructions may follow the root element")
		case 5:
			h.expect(wrap(r, "")+ws()+tailBad[r.Intn(len(tailBad))], c, false, "what follows the root element is not well-formed")
		case 6:
			h.expect(headGood[r.Intn(len(headGood))]+ws()+"<a>b</a>", c, true, "comments, processing instructions and a document type may precede the root element")
		case 7:
			h.expect(headBad[r.Intn(len(headBad))], c, false, "what precedes the root element is not well-formed")
		}
	})
}

func TestVerifC18(t *testing.T) {
	h := vstart(t)
	valid := func(v uint64) bool {
		return v == 9 || v == 10 || v == 13 || 0x20 <= v && v <= 0xD7FF || 0xE000 <= v && v <= 0xFFFD || 0x10000 <= v && v <= 0x10FFFF
	}
	h.run(func(r *rand.Rand, i int) {
		c := pick(r)
		var ref string
		ok := false
		edge := []uint64{9, 10, 13, 0x20, 0x21, 0x7F, 0xFF, 0xD7FF, 0xD800, 0xDBFF, 0xDFFF, 0xE000, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 0x1FFFFF, 0xFFFFFFFF, 0x100000041, 0x7FFFFFFF, 0x80000041, 0xFFFFFFFFFFFFFFF1}
		v := edge[r.Intn(len(edge))]
		if r.Intn(3) == 0 {
			v = 0x20 + uint64(r.Intn(0x200000))
		}
		switch r.Intn(6) {
		case 0:
			ref = []string{"amp;", "apos;", "quot;", "lt;", "gt;"}[r.Intn(5)]
			ok = true
		case 1:
			ref = fmt.Sprintf("#%s%d;", strings.Repeat("0", r.Intn(3)), v)
			ok = valid(v)
		case 2:
			ref = fmt.Sprintf("#x%s%x;", strings.Repeat("0", r.Intn(3)), v)
			ok = valid(v)
		case 3:
			ref = fmt.Sprintf("#x%X;", v)
			ok = valid(v)
		default:
			ref = []string{"", ";", "a;", "am;", "ampx;", "amp", "ap;", "apo;", "aposs;", "quo;", "quott;", "l;", "ltt;", "g;", "gtt;", "#;", "#x;", "#X41;", "#xg;", "#4a;", "#-1;", "#x 41;", "#65", "#x41", "foo;", "AMP;", "Lt;", " amp;", "amp ;", "#0;", "#x0;", "nbsp;", "#x11FFFF;"}[r.Intn(33)]
			if ref == "" {
				ref = " "
			}
		}
		piece := []string{"x", "", " "}[r.Intn(3)] + "&" + ref
		var d string
		switch r.Intn(6) {
		case 0:
			d = "<a>" + piece + " y</a>"
		case 1:
			d = "<a b='" + piece + " y'/>"
		case 2:
			d = "<a><b/>" + piece + " y</a>"
		case 3:
			d = "<a><b></b>" + piece + "</a>"
		case 4:
			d = "<a b='1' c=\"" + piece + "\">d</a>"
		default:
			d = "<a><!--c-->" + piece + "<b/></a>"
		}
		why := "the reference stands for a character"
		if !ok {
			why = "the reference stands for no character"
		}
		h.expect(d, c, ok, why)
		// the value: two prefixes for one name
		if ok && v != '\n' && ref[0] == '#' && v < 0x80 && v > 0x2f {
			u := string(rune(v))
			if u == "<" || u == "&" || u == "'" {
				return
			}
			c.ns = true
			h.expect("<a xmlns:p='&"+ref+"' xmlns:q='"+u+"' p:b='1' q:b='2'/>", c, false, "both prefixes stand for one name")
			h.expect("<a xmlns:p='&"+ref+"' xmlns:q='"+u+"x' p:b='1' q:b='2'/>", c, true, "the prefixes stand for different names")
		}
	})
}

// nothing but the parser changes
func TestVerifC19(t *testing.T) {
	h := vstart(t)
	rd, wr, err := os.Pipe()
	if err != nil {
		t.Fatal(err)
	}
	old := os.Stdout
	os.Stdout = wr
	said := make(chan string)
	go func() {
		var b bytes.Buffer
		b.ReadFrom(rd)
		said <- b.String()
	}()
	mutes := 0
	var mu sync.Mutex
	h2 := &vh{t: t, seed: h.seed, end: h.end}
	func() {
		var wg sync.WaitGroup
		for w := 0; w < runtime.NumCPU(); w++ {
			r := rand.New(rand.NewSource(h.seed*1000 + int64(w)))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; !h2.stop(); i++ {
					d, c := h2.anything(r, i)
					if r.Intn(2) == 0 {
						g := newGen(r)
						d = g.document()
					}
					o := parse(d, c)
					mu.Lock()
					mutes++
					mu.Unlock()
					if o.hung || o.p == nil {
						continue
					}
					if string(o.doc[o.off:o.off+len(d)]) != d {
						h2.fail("Parse of %s (%v) changes the document", show(d), c)
					}
					for k := 0; k < o.off; k++ {
						if o.doc[k] != '<' || o.doc[len(o.doc)-1-k] != '>' {
							h2.fail("Parse of %s (%v) changes the bytes around its window", show(d), c)
						}
					}
					// a second parser over the same bytes says the same
					q := parse(d, c)
					if q.hung || q.p == nil || (q.panic == nil) != (o.panic == nil) {
						continue
					}
					if (q.err == nil) != (o.err == nil) || q.err != nil && q.err.Error() != o.err.Error() {
						h2.fail("two parsers over %s (%v) differ: %v, %v", show(d), c, o.err, q.err)
					}
					x, y := o.toks(), q.toks()
					if len(x) != len(y) {
						h2.fail("two parsers over %s (%v) write %d and %d records", show(d), c, len(x), len(y))
						continue
					}
					for k := range x {
						if x[k] != y[k] {
							h2.fail("two parsers over %s (%v) differ in record %d", show(d), c, k)
							break
						}
					}
				}
			}()
		}
		wg.Wait()
	}()
	wr.Close()
	os.Stdout = old
	if s := <-said; s != "" && h2.msg == "" {
		if len(s) > 300 {
			s = s[:300]
		}
		h2.fail("Parse writes to the standard output: %q", s)
	}
	if h2.msg != "" {
		fmt.Printf("\nFAILING-INPUT %s\nEVALUATIONS %d\n", h2.msg, mutes)
		t.FailNow()
	}
	fmt.Printf("\nEVALUATIONS %d\n", mutes)
}

func TestVerifC20(t *testing.T) {
	h := vstart(t)
	h.run(func(r *rand.Rand, i int) {
		n := r.Intn(12)
		d := bytes.Repeat([]byte("a"), n)
		copy(d, "<a/>")
		if n == 0 && r.Intn(2) == 0 {
			d = nil
		}
		var opts []Option
		off, length := 0, len(d)
		what := fmt.Sprintf("WithXmlDoc(%d bytes)", len(d))
		given := true
		switch r.Intn(4) {
		case 0:
			opts = append(opts, WithXmlDoc(d))
		case 1:
			given = r.Intn(5) > 0
			if given {
				opts = append(opts, WithXmlDoc(d))
			} else {
				what = "no document"
			}
		default:
			off, length = r.Intn(16)-3, r.Intn(16)-3
			if r.Intn(6) == 0 {
				length = int(^uint(0) >> 1)
			}
			if r.Intn(10) == 0 {
				off = int(^uint(0) >> 1)
			}
			if r.Intn(10) == 0 {
				off = -int(^uint(0)>>1) - 1
			}
			opts = append(opts, WithXmlDocCustomOffset(d, off, length))
			what = fmt.Sprintf("WithXmlDocCustomOffset(%d bytes, %d, %d)", len(d), off, length)
		}
		if r.Intn(2) == 0 {
			opts = append(opts, WithNameSpaceAware(true), WithLcDepth([]int{3, 5, 0, -1, 4}[r.Intn(5)]), WithBufferReuse(true))
		}
		ok := given && len(d) > 0 && off >= 0 && length > 0 && off < len(d) && length <= len(d)-off
		defer func() {
			if x := recover(); x != nil {
				h.fail("NewVtdParser(%s) panics: %v", what, x)
			}
		}()
		p, err := NewVtdParser(opts...)
		if (err == nil) != ok {
			h.fail("NewVtdParser(%s) returns the error %v", what, err)
			return
		}
		if (p != nil) != ok {
			h.fail("NewVtdParser(%s) returns a parser: %v", what, p != nil)
			return
		}
		if ok && string(p.xmlDoc[p.offset:p.offset+p.length]) != string(d[off:off+length]) {
			h.fail("NewVtdParser(%s) does not parse that window", what)
		}
	})
}

func TestVerifC21(t *testing.T) {
	h := vstart(t)
	good := []string{"version='1.0'", "version=\"1.1\"", " version='1.0'", "\tversion = '1.0'", "version='1.0' encoding='UTF-8'", "version='1.0' encoding=\"utf-8\"", "version='1.0' encoding='ASCII'", "version='1.0' encoding='ascii'", "version='1.0' encoding='US-ASCII'", "version='1.0' encoding='us-ascii'", "version='1.0' standalone='yes'", "version='1.0' standalone=\"no\"", "version='1.0' encoding='UTF-8' standalone='no'", "version='1.0' encoding='us-ascii' standalone='yes' ", "version='1.0'\n", "version\n=\n'1.0' encoding = 'UTF-8' standalone = 'yes'"}
	bad := []string{"", "version", "version=", "version=1.0", "version='1.0", "version='1.0\"", "version='1.2'", "version='2.0'", "version='1.'", "version='1.00'", "version=''", "versio='1.0'", "versionx='1.0'", "encoding='UTF-8'", "standalone='yes'", "version='1.0'encoding='UTF-8'", "version='1.0' encoding='UTF-8", "version='1.0' encoding='UTF-8\"", "version='1.0' encoding='UTF8'", "version='1.0' encoding='foo'", "version='1.0' encoding=''", "version='1.0' encoding=UTF-8", "version='1.0' encoding 'UTF-8'", "version='1.0' encodin='UTF-8'", "version='1.0' encoding='UTF-16'", "version='1.0' encoding='UTF-16LE'", "version='1.0' encoding='UTF-16BE'", "version='1.0' encoding='asci'", "version='1.0' encoding='asciii'", "version='1.0' encoding='us-asci'", "version='1.0' standalone='maybe'", "version='1.0' standalone='yes\"", "version='1.0' standalone=''", "version='1.0' standalone='no ", "version='1.0' standalone=yes", "version='1.0' standalon='yes'", "version='1.0' standalone='YES'", "version='1.0' standalone='yes' encoding='UTF-8'", "version='1.0' foo='bar'", "version='1.0' encoding='UTF-8' foo='bar'", "version='1.0' version='1.0'", "version='1.0' encoding='UTF-8' encoding='UTF-8'", "version='1.0' encoding=\"ASCII'", "version='1.0' encoding='us-ascii\"", "version='1.0' standalone='yes' standalone='yes'", "version='1.0' x", "version='1.0' encoding='windows-1252", "version='1.0' encoding='cp125'"}
	h.run(func(r *rand.Rand, i int) {
		c := pick(r)
		if i%4 == 3 {
			g := newGen(r)
			g.tok(13, 0, 0, -1)
			g.declaration()
			g.ws(0)
			g.element(0)
			d := g.b.String()
			if o := h.expect(d, c, true, "its declaration is well-formed"); o != nil {
				if s := differ(o.toks(), shift(g.toks, o.off)); s != "" {
					h.fail("Parse of %s (%v): %s", show(d), c, s)
				}
			}
			return
		}
		x := "<?xml "
		if r.Intn(6) == 0 {
			x = "<?xml\n"
		}
		tail := "?>" + []string{"", "\n", " "}[r.Intn(3)] + "<a/>"
		if i%2 == 0 {
			h.expect(x+good[r.Intn(len(good))]+tail, c, true, "its declaration is well-formed")
		} else {
			b := bad[r.Intn(len(bad))]
			if r.Intn(12) == 0 {
				h.expect(x+good[r.Intn(len(good))]+[]string{">", "? >", " ", "/>", "?"}[r.Intn(5)]+"<a/>", c, false, "its declaration does not end with ?>")
				return
			}
			h.expect(x+b+tail, c, false, "its declaration is not well-formed")
		}
	})
}

// the location cache: every entry names a start tag of its level, and the
// entries of a level are the start tags of that depth, in document order
func TestVerifC30(t *testing.T) {
	h := vstart(t)
	h.run(func(r *rand.Rand, i int) {
		g := newGen(r)
		g.max = 30
		c := pick(r)
		c.depth = 5
		d := g.document()
		o := parse(d, c)
		if o.panic != nil || o.hung || o.p == nil || o.err != nil {
			return
		}
		ts := o.toks()
		at := func(l int) (vs []uint64) {
			switch l {
			case 5:
				for k := 0; k < o.p.l5Buffer.GetSize(); k++ {
					v, _ := o.p.l5Buffer.LongAt(k)
					vs = append(vs, uint64(v)<<32|0xFFFFFFFF)
				}
				return
			}
			b := o.p.l1Buffer
			switch l {
			case 2:
				b = o.p.l2Buffer
			case 3:
				b = o.p.l3Buffer
			case 4:
				b = o.p.l4Buffer
			}
			for k := 0; k < b.GetSize(); k++ {
				v, _ := b.LongAt(k)
				vs = append(vs, uint64(v))
			}
			return
		}
		for l := 1; l <= 5; l++ {
			vs := at(l)
			next := 0
			if l < 5 {
				next = len(at(l + 1))
			}
			for k, v := range vs {
				x := int(v >> 32)
				if x >= len(ts) || unpack(ts[x]).typ != 0 || unpack(ts[x]).depth != l {
					h.fail("Parse of %s (%v): entry %d of level %d of the location cache names record %d, which is no start tag of that depth", show(d), c, k, l, x)
					return
				}
				if w := int(v & 0xFFFFFFFF); w != 0xFFFFFFFF && w >= next {
					h.fail("Parse of %s (%v): entry %d of level %d of the location cache refers to entry %d of a level that has %d", show(d), c, k, l, w, next)
					return
				}
				if k > 0 && x <= int(vs[k-1]>>32) {
					h.fail("Parse of %s (%v): entry %d of level %d of the location cache is out of order", show(d), c, k, l)
					return
				}
			}
			n := 0
			for _, v := range ts {
				if w := unpack(v); w.typ == 0 && w.depth == l {
					n++
				}
			}
			if n != len(vs) {
				h.fail("Parse of %s (%v): level %d of the location cache has %d entries for %d start tags", show(d), c, l, len(vs), n)
				return
			}
		}
	})
}
