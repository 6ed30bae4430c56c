package common

import (
	"fmt"
	"os"
	"strconv"
	"testing"
)

type rng struct{ lo, hi uint32 }

var vValid = []rng{{0x1, 0xD7FF}, {0xE000, 0xFFFD}, {0x10000, 0x10FFFF}}
var vStart = []rng{{':', ':'}, {'A', 'Z'}, {'_', '_'}, {'a', 'z'}, {0xC0, 0xD6}, {0xD8, 0xF6}, {0xF8, 0x2FF}, {0x370, 0x37D}, {0x37F, 0x1FFF},
	{0x200C, 0x200D}, {0x2070, 0x218F}, {0x2C00, 0x2FEF}, {0x3001, 0xD7FF}, {0xF900, 0xFDCF}, {0xFDF0, 0xFFFD}, {0x10000, 0xEFFFF}}
var vName = append(append([]rng{}, vStart...), rng{'-', '-'}, rng{'.', '.'}, rng{'0', '9'}, rng{0xB7, 0xB7}, rng{0x300, 0x36F}, rng{0x203F, 0x2040})

func in(rs []rng, c uint32) bool {
	for _, r := range rs {
		if r.lo <= c && c <= r.hi {
			return true
		}
	}
	return false
}

// the tables exactly as the contract of NewXmlChar states them, then the
// classes through the API around every range boundary
func TestVerifC07(t *testing.T) {
	n := 0
	fail := func(f string, a ...interface{}) {
		fmt.Printf("\nFAILING-INPUT %s\nEVALUATIONS %d\n", fmt.Sprintf(f, a...), n)
		t.FailNow()
	}
	x := NewXmlChar()
	table := func(name string, s []uint32, rs []rng) {
		k := 0
		for _, r := range rs {
			for c := r.lo; c <= r.hi; c++ {
				n++
				if k >= len(s) || s[k] != c {
					for _, e := range s {
						if e == c {
							// the same set in another order: no input fails, but the contract's table does not hold
							t.Fatalf("entry %d of the table for %s is not %#x", k, name, c)
						}
					}
					fail("NewXmlChar(): character %#x is missing from the table for %s", c, name)
				}
				k++
			}
		}
		if k != len(s) {
			fail("NewXmlChar(): the table for %s holds %#x, which is not such a character", name, s[k])
		}
	}
	var pts []uint32
	for _, rs := range [][]rng{vValid, vName, {{0x20, 0x20}, {9, 9}, {10, 10}, {13, 13}, {'<', '<'}, {'&', '&'}, {']', ']'}, {0xD800, 0xDFFF}, {0xFFFF, 0xFFFF}, {0x7FFFFFFF, 0xFFFFFFFF}}} {
		for _, r := range rs {
			pts = append(pts, r.lo-1, r.lo, r.lo+1, r.hi-1, r.hi, r.hi+1)
		}
	}
	for c := uint32(0); c < 0x180; c++ {
		pts = append(pts, c)
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	z := uint32(seed)*2654435761 + 1
	for i := 0; i < 300; i++ {
		z = z*1664525 + 1013904223
		pts = append(pts, z>>11)
	}
	for _, c := range pts {
		n++
		sp := c == 0x20 || c == 9 || c == 10 || c == 13
		va := in(vValid, c)
		for _, q := range []struct {
			n       string
			got, ex bool
		}{{"IsValidChar", x.IsValidChar(c), va}, {"IsSpaceChar", x.IsSpaceChar(c), sp}, {"IsNameStartChar", x.IsNameStartChar(c), in(vStart, c)},
			{"IsNameChar", x.IsNameChar(c), in(vName, c)}, {"IsContentChar", x.IsContentChar(c), va && c != '<' && c != '&' && c != ']'}} {
			if q.got != q.ex {
				fail("%s(%#x) = %v", q.n, c, q.got)
			}
		}
	}
	table("legal characters", x.validCharSlice, vValid)
	table("name start characters", x.nameStartCharSlice, vStart)
	table("name characters", x.nameCharSlice, vName)
	table("white space", x.spaceCharSlice, []rng{{0x20, 0x20}, {9, 9}, {13, 13}, {10, 10}})
	table("markup characters", x.specialCharSlice, []rng{{'<', '<'}, {'&', '&'}, {']', ']'}})
	fmt.Printf("\nEVALUATIONS %d\n", n)
}
