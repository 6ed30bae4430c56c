import sys; sys.path.insert(0,'/verif/tools')
from mkseed import make,checkit
def H(pkg,imports=()):
    return f'package {pkg}_test\n\nimport (\n\t"testing"\n'+''.join(f'\t"{i}"\n' for i in imports)+f'\n\t"github.com/alexZaicev/go-vtd-xml/vtdxml/{pkg}"\n)\n\n'
S=[
("S06","C07",[("vtdxml/common/xml_char.go","{0x2C00, 0x2FEF}","{0x2C00, 0x2FFF}")] ,
 "a character of the block 2FF0-2FFF in a name","ideographic description characters are accepted as name characters",
 H("common")+'''func TestSeededDemo(t *testing.T) {
	x := common.NewXmlChar()
	for c := uint32(0x2FF0); c <= 0x2FFF; c++ {
		if x.IsNameChar(c) || x.IsNameStartChar(c) {
			t.Fatalf("%#x is classified as a name character", c)
		}
	}
	if !x.IsNameStartChar(0x2FEF) || !x.IsNameStartChar(0x3001) {
		t.Fatal("range ends")
	}
}
''',"vtdxml/common"),
("S07","C08",[("vtdxml/reader/utf8_reader.go","	if ch == uint32(r.xmlDoc[r.offset]) {\n		r.offset++","	if byte(ch) == r.xmlDoc[r.offset] {\n		r.offset++")],
 "skip a character above 255 whose low byte is the next byte","the reader consumes a byte that is not the character asked for",
 H("reader")+'''func TestSeededDemo(t *testing.T) {
	r, err := reader.NewUtf8Reader([]byte("abc"), 0, 3)
	if err != nil {
		t.Fatal(err)
	}
	if r.SkipChar(0x161) || r.GetOffset() != 0 {
		t.Fatal("skipped U+0161 at 'a'")
	}
	if !r.SkipChar('a') || r.GetOffset() != 1 {
		t.Fatal("cannot skip 'a'")
	}
}
''',"vtdxml/reader"),
("S08","C09",[("vtdxml/reader/ascii_reader.go","return ch <= unicode.MaxASCII","return ch&unicode.MaxASCII != 0")],
 "a byte of 129 or above","bytes above 128 are delivered as characters",
 H("reader")+'''func TestSeededDemo(t *testing.T) {
	for c := 1; c < 256; c++ {
		r, err := reader.NewAsciiReader([]byte{byte(c), 'x'}, 0, 2)
		if err != nil {
			t.Fatal(err)
		}
		if v, err := r.GetChar(); (err == nil) != (c < 128) {
			t.Fatalf("byte %d: %d, %v", c, v, err)
		}
	}
}
''',"vtdxml/reader"),
("S09","C29",[("vtdxml/erroring/erroring.go","	return e.Err\n}","	if w, ok := e.Err.(interface{ Unwrap() error }); ok && w.Unwrap() != nil {\n		return w.Unwrap()\n	}\n	return e.Err\n}")],
 "a cause that itself wraps another error","the immediate cause is skipped: unwrapping yields the cause's cause",
 H("erroring",["errors"])+'''func TestSeededDemo(t *testing.T) {
	root := errors.New("root")
	eof := erroring.NewParseError("eof", "", root)
	e := erroring.NewInternalError("x", eof)
	if errors.Unwrap(e) != error(eof) {
		t.Fatalf("unwraps to %v", errors.Unwrap(e))
	}
	var p *erroring.ParseError
	if !errors.As(e, &p) || p != eof {
		t.Fatal("cause kind lost")
	}
}
''',"vtdxml/erroring"),
]
ids=sys.argv[1:] or [s[0] for s in S]
for s in S:
    if s[0] in ids:
        make(*s); checkit(s[0])
