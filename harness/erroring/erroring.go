package erroring_test

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"

	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
)

// API-level search for failing inputs; it decides nothing by itself.

func TestVerifC29(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	r := rand.New(rand.NewSource(seed))
	n := 0
	fail := func(f string, a ...interface{}) {
		fmt.Printf("\nFAILING-INPUT %s\nEVALUATIONS %d\n", fmt.Sprintf(f, a...), n)
		t.FailNow()
	}
	texts := []string{"", "a", "b", "%s", "premature EOF", "x y z"}
	for n = 0; n < 2000; n++ {
		m, l := texts[r.Intn(len(texts))], texts[r.Intn(len(texts))]
		var cause error
		if r.Intn(3) > 0 {
			cause = errors.New(texts[r.Intn(len(texts))])
			switch r.Intn(6) {
			case 0:
				cause = fmt.Errorf("wrapped: %w", cause)
			case 1:
				cause = erroring.NewParseError("inner", "", cause)
			case 2:
				cause = erroring.NewEOFError("inner")
			case 3:
				cause = (*erroring.ParseError)(nil)
			}
		}
		check := func(what string, err error, ok bool, c error) {
			if !ok {
				fail("%s(%q, %q, %v): wrong kind or content: %T %+v", what, m, l, c, err, err)
			}
			if errors.Unwrap(err) != c {
				fail("%s(%q, %q, %v): unwraps to %v", what, m, l, c, errors.Unwrap(err))
			}
		}
		var e error
		e = erroring.NewInvalidArgumentError(l, m, cause)
		a, ok := e.(*erroring.InvalidArgumentError)
		check("NewInvalidArgumentError", e, ok && a.Msg == m && a.Parameter == l, cause)
		e = erroring.NewInternalError(m, cause)
		_, ok = e.(*erroring.InternalError)
		check("NewInternalError", e, ok, cause)
		e = erroring.NewParseError(m, l, cause)
		b, ok := e.(*erroring.ParseError)
		check("NewParseError", e, ok && b.Msg == m && b.LineNumber == l, cause)
		e = erroring.NewNavigationError(m, cause)
		c, ok := e.(*erroring.NavigationError)
		check("NewNavigationError", e, ok && c.Msg == m, cause)
		e = erroring.NewEncodingError(m)
		d, ok := e.(*erroring.EncodingError)
		check("NewEncodingError", e, ok && d.Msg == m, nil)
		e = erroring.NewDecodingError(m)
		f, ok := e.(*erroring.DecodingError)
		check("NewDecodingError", e, ok && f.Msg == m, nil)
		e = erroring.NewEntityError(m)
		g, ok := e.(*erroring.EntityError)
		check("NewEntityError", e, ok && g.Msg == m, nil)
		e = erroring.NewEOFError(m)
		i, ok := e.(*erroring.EOFError)
		check("NewEOFError", e, ok && i.Msg == m, nil)
		e = erroring.NewModifyError(m)
		j, ok := e.(*erroring.ModifyError)
		check("NewModifyError", e, ok && j.Msg == m, nil)
	}
	fmt.Printf("\nEVALUATIONS %d\n", n)
}
