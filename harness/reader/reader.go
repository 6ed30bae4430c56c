package reader_test

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"

	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/reader"
)

// API-level search for failing inputs; it decides nothing by itself.

type vh struct {
	t     *testing.T
	r     *rand.Rand
	end   time.Time
	n     int
	trace []string
}

func vstart(t *testing.T) *vh {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	b, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	if b == 0 {
		b = 5
	}
	return &vh{t: t, r: rand.New(rand.NewSource(seed)), end: time.Now().Add(time.Duration(b) * time.Second / 2)}
}
func (h *vh) more(max int) bool { h.n++; return h.n <= max && time.Now().Before(h.end) }
func (h *vh) done()             { fmt.Printf("\nEVALUATIONS %d\n", h.n) }
func (h *vh) fail(f string, a ...interface{}) {
	fmt.Printf("\nFAILING-INPUT %s\nEVALUATIONS %d\n", fmt.Sprintf(f, a...), h.n)
	h.t.FailNow()
}

// guard turns a panic into a failing input
func (h *vh) guard(what func() string) {
	if r := recover(); r != nil {
		h.fail("%s panics: %v", what(), r)
	}
}


func isEOF(err error) bool {
	var e *erroring.EOFError
	return errors.As(err, &e)
}

var alphabet = []byte("ab<\r\n\n&]>c\x00\x7f\x80\xc3\xff\u00e9")

func (h *vh) doc() []byte {
	n := h.r.Intn(12)
	d := make([]byte, n)
	for i := range d {
		if h.r.Intn(10) == 0 {
			d[i] = byte(h.r.Intn(256))
		} else {
			d[i] = alphabet[h.r.Intn(len(alphabet))]
		}
	}
	return d
}

func mkReader(ascii bool, d []byte, o, e int) (reader.Reader, bool, error) {
	if ascii {
		r, err := reader.NewAsciiReader(d, o, e)
		return r, r == nil, err
	}
	r, err := reader.NewUtf8Reader(d, o, e)
	return r, r == nil, err
}

func (h *vh) history(ascii bool) {
	d := h.doc()
	o, e := h.r.Intn(len(d)+3)-1, h.r.Intn(len(d)+3)-1
	if h.r.Intn(3) > 0 {
		o, e = h.r.Intn(len(d)+1), len(d)-h.r.Intn(2)
	}
	what := "UTF-8"
	if ascii {
		what = "ASCII"
	}
	h.trace = []string{fmt.Sprintf("%s reader over %q from %d to %d", what, d, o, e)}
	log := func(f string, a ...interface{}) { h.trace = append(h.trace, fmt.Sprintf(f, a...)) }
	defer h.guard(func() string { return fmt.Sprint(h.trace) })
	r, isnil, err := mkReader(ascii, d, o, e)
	if o < 0 || e < 0 || e > len(d) {
		if err == nil {
			h.fail("%v: no error", h.trace)
		}
		return
	}
	if err != nil || isnil {
		h.fail("%v: constructor reports %v", h.trace, err)
	}
	if _, n, err := mkReader(ascii, nil, 0, 0); err == nil || !n {
		h.fail("%s reader over nil: no error", what)
	}
	keep := append([]byte(nil), d...)
	pos := o
	for k := 0; k < 12; k++ {
		switch h.r.Intn(8) {
		case 0, 1:
			log("GetChar")
			c, err := r.GetChar()
			switch {
			case pos >= e:
				if !isEOF(err) || c != 0 {
					h.fail("%v at %d: gives %d, %v; want end of file", h.trace, pos, c, err)
				}
			case ascii && d[pos] >= 0x80:
				if err == nil || isEOF(err) {
					h.fail("%v at %d: gives %d, %v; want a parse error", h.trace, pos, c, err)
				}
				pos++
			default:
				if err != nil || c != uint32(d[pos]) {
					h.fail("%v at %d: gives %d, %v; want %d", h.trace, pos, c, err, d[pos])
				}
				pos++
			}
		case 2, 3:
			c := uint32(alphabet[h.r.Intn(len(alphabet))])
			if pos < len(d) && h.r.Intn(2) == 0 {
				c = uint32(d[pos])
			}
			if h.r.Intn(10) == 0 {
				c |= 0x100
			}
			log("SkipChar %d", c)
			want := pos < e && uint32(d[pos]) == c
			if r.SkipChar(c) != want {
				h.fail("%v at %d: gives %v", h.trace, pos, !want)
			}
			if want {
				pos++
			}
		case 4:
			var seq string
			for i := h.r.Intn(4); i > 0; i-- {
				seq += string(rune(alphabet[h.r.Intn(11)]))
			}
			if pos < len(d) && h.r.Intn(3) > 0 {
				seq = ""
				for i := pos; i < len(d) && i < pos+4 && d[i] < 0x80 && h.r.Intn(5) > 0; i++ {
					seq += string(rune(d[i]))
				}
				if h.r.Intn(3) == 0 {
					seq += "a"
				}
			}
			log("SkipCharSeq %q", seq)
			want := len(seq) == 0 || pos+len(seq) <= e && string(d[pos:pos+len(seq)]) == seq
			if r.SkipCharSeq(seq) != want {
				h.fail("%v at %d: gives %v", h.trace, pos, !want)
			}
			if want {
				pos += len(seq)
			}
		case 5:
			i := h.r.Intn(len(d)+6) - 3
			log("GetCharAt %d", i)
			c, err := r.GetCharAt(int32(i))
			if i < 0 || i >= e {
				if err == nil {
					h.fail("%v: gives %d and no error", h.trace, c)
				}
			} else if err != nil || c != uint32(d[i]) {
				h.fail("%v: gives %d, %v", h.trace, c, err)
			}
		case 6:
			i := h.r.Intn(len(d)+6) - 3
			log("GetLongCharAt %d", i)
			c, err := r.GetLongCharAt(int32(i))
			if i < 0 || i >= e {
				if err == nil {
					h.fail("%v: gives %d and no error", h.trace, c)
				}
			} else {
				w := uint64(1)<<32 | uint64(d[i])
				if d[i] == '\r' && i+1 < e && d[i+1] == '\n' {
					w = 2<<32 | '\n'
				}
				if err != nil || c != w {
					h.fail("%v: gives %#x, %v; want %#x", h.trace, c, err, w)
				}
			}
		case 7:
			if h.r.Intn(3) == 0 {
				pos = h.r.Intn(len(d) + 3)
				log("SetOffset %d", pos)
				r.SetOffset(pos)
			}
		}
		if r.GetOffset() != pos {
			h.fail("%v: offset %d, want %d", h.trace, r.GetOffset(), pos)
		}
		if string(keep) != string(d) {
			h.fail("%v: the document changed", h.trace)
		}
	}
}

func TestVerifC08(t *testing.T) {
	h := vstart(t)
	for h.more(40000) {
		h.history(h.n%2 == 0)
	}
	h.done()
}

func TestVerifC09(t *testing.T) {
	h := vstart(t)
	for c := 0; c < 256; c++ {
		h.more(256)
		d := []byte{byte(c)}
		r, err := reader.NewAsciiReader(d, 0, 1)
		if err != nil {
			h.fail("ASCII reader over %q: %v", d, err)
		}
		v, err := r.GetChar()
		if c >= 0x80 && err == nil || c < 0x80 && (err != nil || v != uint32(c)) {
			h.fail("ASCII reader over %q: GetChar gives %d, %v", d, v, err)
		}
	}
	h.history(true)
	for h.more(20000) {
		h.history(true)
	}
	h.done()
}
