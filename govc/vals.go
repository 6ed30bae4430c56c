package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// FnVal is a statically known function value
type FnVal struct {
	fn    *ssa.Function
	binds []*Val
}

// LV is an interior pointer (address of a field, element or global)
type LV struct {
	kind string // "F" object field, "E" element, "G" global
	key  string // type key of the object / element
	ref  *Term
	idx  *Term // E only
	off  int   // component offset
	T    types.Type
}

// Val is a symbolic Go value: its components, flattened
type Val struct {
	T     types.Type
	C     []*Term
	Fn    *FnVal
	LV    *LV
	Str   *string // statically known string
	Num   *int64  // untyped integer constant in specifications
	Bad   string  // unsupported
	parts []*Val  // tuple parts (when they carry more than components)
}

var typeKeyCache = map[types.Type]string{}

func qual(p *types.Package) string { return p.Name() }

func typeKey(T types.Type) string {
	if s, ok := typeKeyCache[T]; ok {
		return s
	}
	s := types.TypeString(T, qual)
	s = replaceWord(s, "byte", "uint8")
	s = replaceWord(s, "rune", "int32")
	s = strings.ReplaceAll(s, "interface{}", "any")
	s = strings.ReplaceAll(s, " ", "_")
	typeKeyCache[T] = s
	return s
}

func replaceWord(s, w, r string) string {
	isId := func(c byte) bool {
		return c == '_' || c == '.' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
	}
	var b strings.Builder
	for i := 0; i < len(s); {
		if strings.HasPrefix(s[i:], w) && (i == 0 || !isId(s[i-1])) && (i+len(w) == len(s) || !isId(s[i+len(w)])) {
			b.WriteString(r)
			i += len(w)
			continue
		}
		b.WriteByte(s[i])
		i++
	}
	return b.String()
}

type comp struct {
	s    *Sort
	name string
	kind string // "" plain, "ref" reference, "len"...
	T    types.Type
}

var compCache = map[string][]comp{}

func intWidth(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func comps(T types.Type) []comp {
	k := typeKey(T)
	if c, ok := compCache[k]; ok {
		return c
	}
	var c []comp
	switch u := T.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			c = []comp{{BoolS, "", "", T}}
		case u.Info()&types.IsInteger != 0:
			c = []comp{{BVS(intWidth(u)), "", "", T}}
		case u.Info()&types.IsString != 0:
			c = []comp{{BV32, "ref", "ref", T}, {BV64, "off", "len", T}, {BV64, "len", "len", T}}
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			c = []comp{{BV32, "", "ref", T}}
		case u.Info()&types.IsFloat != 0:
			c = []comp{{BV64, "", "", T}}
		default:
			c = []comp{{BV64, "", "", T}}
		}
	case *types.Slice:
		c = []comp{{BV32, "arr", "ref", T}, {BV64, "off", "len", T}, {BV64, "len", "len", T}, {BV64, "cap", "len", T}}
	case *types.Pointer, *types.Map, *types.Chan:
		c = []comp{{BV32, "", "ref", T}}
	case *types.Signature:
		c = []comp{{BV32, "fn", "", T}}
	case *types.Interface:
		c = []comp{{BV32, "tag", "", T}, {BV32, "ref", "ref", T}}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			for _, x := range comps(u.Field(i).Type()) {
				n := u.Field(i).Name()
				if x.name != "" {
					n += "." + x.name
				}
				c = append(c, comp{x.s, n, x.kind, x.T})
			}
		}
	case *types.Array:
		for _, x := range comps(u.Elem()) {
			c = append(c, comp{ArrS(BV64, x.s), x.name, "", T})
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			for _, x := range comps(u.At(i).Type()) {
				c = append(c, comp{x.s, fmt.Sprintf("%d.%s", i, x.name), x.kind, x.T})
			}
		}
	default:
		c = []comp{{BV64, "?", "", T}}
	}
	compCache[k] = c
	return c
}

func fieldRange(S types.Type, i int) (int, int) {
	st := S.Underlying().(*types.Struct)
	o := 0
	for k := 0; k < i; k++ {
		o += len(comps(st.Field(k).Type()))
	}
	return o, len(comps(st.Field(i).Type()))
}

func isSigned(T types.Type) bool {
	if b, ok := T.Underlying().(*types.Basic); ok {
		return b.Info()&types.IsUnsigned == 0
	}
	return false
}
func isInt(T types.Type) bool {
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(T types.Type) bool {
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isIface(T types.Type) bool { _, ok := T.Underlying().(*types.Interface); return ok }

func tupleParts(v *Val) []*Val {
	if v.parts != nil {
		return v.parts
	}
	tt, ok := v.T.(*types.Tuple)
	if !ok {
		return []*Val{v}
	}
	var out []*Val
	o := 0
	for i := 0; i < tt.Len(); i++ {
		n := len(comps(tt.At(i).Type()))
		out = append(out, &Val{T: tt.At(i).Type(), C: v.C[o : o+n]})
		o += n
	}
	return out
}

// heap keys
// refKeys: heap keys whose stored values are references
var refKeys = map[string]bool{}

// lenKeys: heap keys that hold a slice's or string's length, offset or capacity
var lenKeys = map[string]bool{}

func noteRefKey(k string, T types.Type, i int) string {
	if cs := comps(T); i < len(cs) && cs[i].kind == "ref" {
		refKeys[k] = true
	} else if i < len(cs) && cs[i].kind == "len" {
		lenKeys[k] = true
	}
	return k
}

func fkey(S types.Type, i int) string {
	cs := comps(S)
	n := cs[i].name
	if n == "" {
		n = fmt.Sprint(i)
	}
	return noteRefKey("F:"+typeKey(S)+"."+n+"#"+fmt.Sprint(i), S, i)
}
func ekey(el types.Type, i int) string {
	return noteRefKey(fmt.Sprintf("E:%s#%d", typeKey(el), i), el, i)
}
func pkey(T types.Type, i int) string {
	return noteRefKey(fmt.Sprintf("P:%s#%d", typeKey(T), i), T, i)
}

func mapSort(key string, s *Sort) *Sort {
	switch key[0] {
	case 'F', 'P', 'M':
		return ArrS(BV32, s)
	case 'E':
		return ArrS(BV32, ArrS(BV64, s))
	}
	return s
}
