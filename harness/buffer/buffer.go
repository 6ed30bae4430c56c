package buffer_test

import (
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"testing"
	"time"

	"github.com/alexZaicev/go-vtd-xml/vtdxml/buffer"
)

// API-level search for failing inputs.  Used to turn a failed proof obligation
// into a concrete input; it decides nothing by itself.

type vh struct {
	t     *testing.T
	r     *rand.Rand
	end   time.Time
	n     int
	trace []string
}

func vstart(t *testing.T) *vh {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	b, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	if b == 0 {
		b = 5
	}
	return &vh{t: t, r: rand.New(rand.NewSource(seed)), end: time.Now().Add(time.Duration(b) * time.Second / 2)}
}
func (h *vh) more(max int) bool { h.n++; return h.n <= max && time.Now().Before(h.end) }
func (h *vh) done()             { fmt.Printf("\nEVALUATIONS %d\n", h.n) }
func (h *vh) fail(f string, a ...interface{}) {
	fmt.Printf("\nFAILING-INPUT %s\nEVALUATIONS %d\n", fmt.Sprintf(f, a...), h.n)
	h.t.FailNow()
}

// guard turns a panic into a failing input
func (h *vh) guard(what func() string) {
	if r := recover(); r != nil {
		h.fail("%s panics: %v", what(), r)
	}
}

type seqBuf interface {
	GetSize() int
	SetSize(int)
	Clear()
	app(v int64) error
	at(i int) (int64, error)
	mod(i int, v int64) error
	flat() ([]int64, bool, error)
}

type lb struct{ *buffer.FastLongBuffer }

func (b lb) app(v int64) error          { return b.Append(v) }
func (b lb) at(i int) (int64, error)    { return b.LongAt(i) }
func (b lb) mod(i int, v int64) error   { return b.ModifyEntry(i, v) }
func (b lb) flat() ([]int64, bool, error) { s, e := b.ToLongArray(); return s, true, e }

type ib struct{ *buffer.FastIntBuffer }

func (b ib) app(v int64) error        { return b.Append(int32(v)) }
func (b ib) at(i int) (int64, error)  { v, e := b.IntAt(i); return int64(v), e }
func (b ib) mod(i int, v int64) error { return b.ModifyEntry(i, int32(v)) }
func (b ib) flat() ([]int64, bool, error) {
	s, e := b.ToIntArray()
	var o []int64
	for _, v := range s {
		o = append(o, int64(v))
	}
	return o, true, e
}

type ob struct{ *buffer.FastObjectBuffer }

func (b ob) app(v int64) error { return b.Append(v) }
func (b ob) at(i int) (int64, error) {
	v, e := b.ObjectAt(i)
	if e != nil {
		return 0, e
	}
	return v.(int64), nil
}
func (b ob) mod(i int, v int64) error     { return b.ModifyEntry(i, v) }
func (b ob) flat() ([]int64, bool, error) { return nil, false, nil }

func mk(kind, exp int) (seqBuf, error) {
	switch kind {
	case 0:
		if exp < 0 {
			b, e := buffer.NewFastLongBuffer()
			return lb{b}, e
		}
		b, e := buffer.NewFastLongBuffer(buffer.WithFastLongBufferPageSize(exp))
		return lb{b}, e
	case 1:
		if exp < 0 {
			b, e := buffer.NewFastIntBuffer()
			return ib{b}, e
		}
		b, e := buffer.NewFastIntBuffer(buffer.WithFastIntBufferPageSize(exp))
		return ib{b}, e
	}
	if exp < 0 {
		b, e := buffer.NewFastObjectBuffer()
		return ob{b}, e
	}
	b, e := buffer.NewFastObjectBuffer(buffer.WithFastObjectBufferPageSize(exp))
	return ob{b}, e
}

var kinds = []string{"long", "int", "object"}

// script runs random operations against a plain slice
func (h *vh) script(kind, exp, n int, shrink bool) {
	h.trace = []string{fmt.Sprintf("%s buffer, page exponent %d", kinds[kind], exp)}
	log := func(f string, a ...interface{}) { h.trace = append(h.trace, fmt.Sprintf(f, a...)) }
	tr := func() string {
		if len(h.trace) > 60 {
			return fmt.Sprint(h.trace[:1], "... last", h.trace[len(h.trace)-55:])
		}
		return fmt.Sprint(h.trace)
	}
	defer h.guard(tr)
	b, err := mk(kind, exp)
	if err != nil {
		h.fail("%s: constructor fails: %v", tr(), err)
	}
	page := 1024
	if exp >= 0 {
		page = 1 << exp
	}
	var want []int64
	check := func(i int) {
		v, err := b.at(i)
		if i >= 0 && i < len(want) {
			if err != nil || v != want[i] {
				h.fail("%s: read %d gives %d, %v; want %d", tr(), i, v, err, want[i])
			}
		} else if err == nil {
			h.fail("%s: read %d of %d gives no error", tr(), i, len(want))
		}
	}
	for k := 0; k < n; k++ {
		op := h.r.Intn(20)
		switch {
		case op < 11:
			c := 1
			if h.r.Intn(4) == 0 {
				c = h.r.Intn(page + 3)
				if c > 1100 {
					c = 1100
				}
			}
			log("append x%d", c)
			for ; c > 0; c-- {
				v := int64(h.r.Uint64())
				if kind == 1 {
					v = int64(int32(v))
				}
				if err := b.app(v); err != nil {
					h.fail("%s: append fails: %v", tr(), err)
				}
				want = append(want, v)
			}
		case op < 14 && len(want) > 0:
			i, v := h.r.Intn(len(want)), int64(int32(h.r.Uint32()))
			log("modify %d", i)
			if err := b.mod(i, v); err != nil {
				h.fail("%s: modify fails: %v", tr(), err)
			}
			want[i] = v
		case op < 15:
			i := len(want) + h.r.Intn(3)
			if h.r.Intn(3) == 0 {
				i = -1 - h.r.Intn(2*page)
			}
			log("modify out of range %d", i)
			if err := b.mod(i, 7); err == nil {
				h.fail("%s: no error", tr())
			}
		case op < 16 && shrink:
			log("clear")
			b.Clear()
			want = nil
		case op < 18 && shrink && kind != 2:
			m := h.r.Intn(len(want) + 1)
			log("set size %d", m)
			b.SetSize(m)
			want = append([]int64(nil), want[:m]...)
		}
		if kind != 2 && b.GetSize() != len(want) {
			h.fail("%s: size %d, want %d", tr(), b.GetSize(), len(want))
		}
		check(-1)
		check(len(want))
		check(len(want) + page)
		check(len(want) - 1)
		if len(want) > 0 {
			check(h.r.Intn(len(want)))
			check(0)
		}
		if k%7 == 6 || k == n-1 {
			for i := range want {
				check(i)
			}
			s, ok, err := b.flat()
			if ok && (err != nil || len(s) != len(want) || len(want) > 0 && !reflect.DeepEqual(s, want)) {
				h.fail("%s: flattened to %d values (%v), want %d equal ones", tr(), len(s), err, len(want))
			}
		}
	}
}

func (h *vh) scripts(shrink bool) {
	for h.more(4000) {
		k := h.r.Intn(3)
		exp := h.r.Intn(6) - 1
		n := 10 + h.r.Intn(30)
		if exp < 0 && h.r.Intn(4) != 0 {
			exp = 2
		}
		h.script(k, exp, n, shrink)
	}
	h.done()
}

func TestVerifC01(t *testing.T) { vstart(t).scripts(false) }
func TestVerifC02(t *testing.T) { vstart(t).scripts(true) }
func TestVerifC03(t *testing.T) { vstart(t).scripts(true) }

func TestVerifC04(t *testing.T) {
	h := vstart(t)
	for h.more(3000) {
		b, _ := buffer.NewFastLongBuffer(buffer.WithFastLongBufferPageSize(h.r.Intn(5)))
		var want []int64
		for i := h.r.Intn(20); i >= 0; i-- {
			v := int64(h.r.Uint64())
			switch h.r.Intn(5) {
			case 0:
				v = int64(uint64(0xF)<<60 | uint64(h.r.Uint32()))
			case 1:
				v = -1 << 31
			}
			want = append(want, v)
			b.Append(v)
		}
		func() {
			defer h.guard(func() string { return fmt.Sprintf("long buffer %v: half read", want) })
			for i := -1; i <= len(want); i++ {
				lo, e1 := b.Lower32At(i)
				up, e2 := b.Upper32At(i)
				if i < 0 || i >= len(want) {
					if e1 == nil || e2 == nil {
						h.fail("long buffer of %d values: half read at %d gives no error", len(want), i)
					}
					continue
				}
				if e1 != nil || e2 != nil || lo != int32(want[i]) || up != int32(want[i]>>32) {
					h.fail("long buffer, value %#x at %d: lower %#x (%v) upper %#x (%v)", uint64(want[i]), i, uint32(lo), e1, uint32(up), e2)
				}
			}
		}()
	}
	h.done()
}

func TestVerifC05(t *testing.T) {
	h := vstart(t)
	if _, err := buffer.NewUniByteBuffer(nil); err == nil {
		h.fail("NewUniByteBuffer(nil) gives no error")
	}
	for h.more(20000) {
		data := make([]byte, h.r.Intn(12))
		h.r.Read(data)
		b, err := buffer.NewUniByteBuffer(data)
		if err != nil {
			h.fail("NewUniByteBuffer(%v) fails: %v", data, err)
		}
		off, n := h.r.Intn(16)-2, h.r.Intn(16)-2
		what := func() string { return fmt.Sprintf("byte buffer %v, offset %d, length %d", data, off, n) }
		func() {
			defer h.guard(what)
			if b.GetSize() != len(data) {
				h.fail("%s: size %d", what(), b.GetSize())
			}
			v, e := b.ByteAt(off)
			if in := off >= 0 && off < len(data); in != (e == nil) || in && v != data[off] {
				h.fail("%s: ByteAt gives %d, %v", what(), v, e)
			}
			s, e := b.GetByteSlice(off, n)
			bad := off < 0 || n < 1 || off >= len(data) || n > len(data)-off
			if bad && e == nil {
				h.fail("%s: GetByteSlice gives %v without error", what(), s)
			}
			if !bad && n < len(data)-off && e != nil {
				h.fail("%s: GetByteSlice fails: %v", what(), e)
			}
			if e == nil && !reflect.DeepEqual(s, data[off:off+n]) {
				h.fail("%s: GetByteSlice gives %v", what(), s)
			}
		}()
	}
	h.done()
}

func TestVerifC06(t *testing.T) {
	h := vstart(t)
	for h.more(2000) {
		exps := []int{}
		for i := h.r.Intn(3); i >= 0; i-- {
			e := h.r.Intn(80) - 10
			if h.r.Intn(10) == 0 {
				e = int(int32(h.r.Uint32()))
			}
			exps = append(exps, e)
		}
		func() {
			defer h.guard(func() string { return fmt.Sprintf("buffer with page size options %v", exps) })
			var lo []buffer.FastLongBufferOption
			var io []buffer.FastIntBufferOption
			var oo []buffer.FastObjectBufferOption
			for _, e := range exps {
				lo = append(lo, buffer.WithFastLongBufferPageSize(e))
				io = append(io, buffer.WithFastIntBufferPageSize(e))
				oo = append(oo, buffer.WithFastObjectBufferPageSize(e))
			}
			use := func(b seqBuf, err error) {
				if err != nil {
					return
				}
				for i := int64(0); i < 9; i++ {
					if e := b.app(i); e != nil {
						h.fail("buffer with page size options %v: append %d fails: %v", exps, i, e)
					}
				}
				for i := 0; i < 9; i++ {
					if v, e := b.at(i); e != nil || v != int64(i) {
						h.fail("buffer with page size options %v: entry %d reads %d, %v", exps, i, v, e)
					}
				}
			}
			b1, e1 := buffer.NewFastLongBuffer(lo...)
			use(lb{b1}, e1)
			b2, e2 := buffer.NewFastIntBuffer(io...)
			use(ib{b2}, e2)
			b3, e3 := buffer.NewFastObjectBuffer(oo...)
			use(ob{b3}, e3)
		}()
	}
	for k := 0; k < 3; k++ {
		if _, err := mk(k, -1); err != nil {
			h.fail("%s buffer without options: %v", kinds[k], err)
		}
		for e := 0; e < 40; e++ {
			if _, err := mk(k, e); err != nil {
				h.fail("%s buffer with page exponent %d: %v", kinds[k], e, err)
			}
		}
	}
	h.done()
}
