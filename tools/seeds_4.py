import sys; sys.path.insert(0,'/verif/tools')
from mkseed import make,checkit
HEAD='''package parser

import (
	"bytes"
	"strings"
	"testing"
)

var _ = bytes.Equal
var _ = strings.Repeat

func parsed(t *testing.T, doc []byte, lc int) *VtdParser {
	p, err := NewVtdParser(WithXmlDoc(doc), WithLcDepth(lc), WithNameSpaceAware(false))
	if err != nil {
		t.Fatal(err)
	}
	if err := p.Parse(); err != nil {
		t.Fatal(err)
	}
	return p
}

func TestSeededDemo(t *testing.T) {
'''
C='vtdxml/parser/common.go'
SEEDS=[
("S15","C13",[(C,"(depth64 & 0xff) << 20","(depth64 & 0x7f) << 20")],
 "an element more than 127 levels deep","the depth read back from a record of a deeply nested element is 128 too small",
 HEAD+'''	const n = 140
	doc := strings.Repeat("<a>", n) + "t" + strings.Repeat("</a>", n)
	p := parsed(t, []byte(doc), 3)
	want := 0
	for i := 0; i < p.vtdBuffer.GetSize(); i++ {
		r, err := p.vtdBuffer.LongAt(i)
		if err != nil {
			t.Fatal(err)
		}
		if uint64(r)>>60 != 0 {
			continue
		}
		if d := int(uint64(r) >> 52 & 0xff); d != want {
			t.Fatalf("record %d: depth %d, want %d", i, d, want)
		}
		want++
	}
	if want != n {
		t.Fatalf("%d start tags", want)
	}
}
'''),
("S16","C30",[(C,"(p.lastL2Index << 32) + p.l3Buffer.GetSize()","(p.lastL2Index << 32) + p.l2Buffer.GetSize()")],
 "a tree whose second and third levels have different numbers of entries, cache depth 5",
 "the link of a second-level entry does not lead to its first child",
 HEAD+'''	p := parsed(t, []byte("<r><a><b><c/><c/></b><b><c/></b></a></r>"), 5)
	// the second entry of level 2 has its first child at entry 2 of level 3
	r, err := p.l2Buffer.LongAt(1)
	if err != nil {
		t.Fatal(err)
	}
	if l := uint32(r); l != 2 {
		t.Fatalf("link of the second entry is %d, want 2", l)
	}
}
'''),
("S17","C20",[('vtdxml/parser/vtd_parser.go',"		p.offset, p.docOffset = 0, 0\n","		p.docOffset = 0\n")],
 "the option for the whole document given after one with a window","a valid document is refused because an earlier option's offset is left behind",
 HEAD+'''	doc := []byte("  <a/>")
	p, err := NewVtdParser(WithXmlDocCustomOffset(doc, 2, 4), WithXmlDoc(doc[2:]))
	if err != nil || p == nil {
		t.Fatalf("refused: %v", err)
	}
}
'''),
("S18","C19",[('vtdxml/parser/process_dec_attr_name.go','''	if err := p.writeVtd(common.TokenDecAttrVal, p.lastOffset, 5, p.depth); err != nil {
		return err
	}
	return nil
}
''','''	// keep the label in its canonical spelling
	label := p.xmlDoc[p.lastOffset:p.offset]
	for i := range label {
		label[i] |= 0x20
	}
	return p.writeVtd(common.TokenDecAttrVal, p.lastOffset, 5, p.depth)
}
''')],
 "an XML declaration with the encoding ASCII in capitals","the parser rewrites the bytes of the caller's document",
 HEAD+'''	for _, s := range []string{"<?xml version=\\"1.0\\" encoding=\\"ASCII\\"?><a/>", "<?xml version=\\"1.0\\" encoding=\\"ascii\\"?><a/>"} {
		doc := []byte(s)
		p, err := NewVtdParser(WithXmlDoc(doc))
		if err != nil {
			t.Fatal(err)
		}
		_ = p.Parse()
		if string(doc) != s {
			t.Fatalf("document changed to %q", doc)
		}
	}
}
'''),
]
for a in SEEDS:
    if len(sys.argv)>2 and a[0] not in sys.argv[2:]: continue
    if sys.argv[1]=="make": make(a[0],a[1],a[2],a[3],a[4],a[5],'vtdxml/parser')
    else: print(a[0],checkit(a[0]))
