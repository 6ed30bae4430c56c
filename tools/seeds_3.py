import sys; sys.path.insert(0,'/verif/tools')
from mkseed import make,checkit
def H(cases,pkg='parser'):
    return f'''package {pkg}_test

import (
	"strings"
	"testing"

	"github.com/alexZaicev/go-vtd-xml/vtdxml/parser"
)

func parse(doc string) error {{
	p, err := parser.NewVtdParser(parser.WithXmlDoc([]byte(doc)), parser.WithNameSpaceAware(false))
	if err != nil {{
		return err
	}}
	return p.Parse()
}}

func TestSeededDemo(t *testing.T) {{
	long := strings.Repeat("n", 60)
	_ = long
	for doc, ok := range map[string]bool{{
{cases}
	}} {{
		if err := parse(doc); (err == nil) != ok {{
			t.Fatalf("%q: accepted %v, want %v (%v)", doc, err == nil, ok, err)
		}}
	}}
}}
'''
D="vtdxml/parser/"
S=[
("S10","C14",[(D+"process_end_tag.go","for i := 0; i < sLength; i++ {","for i := 0; i < sLength && i < 48; i++ {")],
 "names longer than 48 bytes that differ only after the 48th","an end tag of another element closes an element with a long name",
 H('"<" + long + "a></" + long + "a>": true, "<" + long + "a></" + long + "b>": false,'),"vtdxml/parser"),
("S11","C18",[(D+"common.go","} else if ch >= 'A' && ch <= 'F' {","} else if ch >= 'A' && ch <= 'G' {")],
 "a hexadecimal reference with the letter G","a reference that is not a number is accepted as one",
 H('"<a>&#x4G;</a>": false, "<a>&#x4F;</a>": true,'),"vtdxml/parser"),
("S12","C15",[(D+"process_attr_name.go","unique = unique && uniqual","unique = uniqual")],
 "two attributes of one name with a third between them","a duplicate attribute is only noticed when it follows the first one at once",
 H('"<a b=\'1\' c=\'2\' b=\'3\'/>": false, "<a b=\'1\' c=\'2\' d=\'3\'/>": true,'),"vtdxml/parser"),
("S13","C17",[(D+"process_start_comment.go","if p.currentChar != '>' {","if p.currentChar != '>' && p.currentChar != '-' {")],
 "a comment that ends with three hyphens","a comment with two hyphens that are not its end is accepted, and the rest of its end is taken for text",
 H('"<a><!--b---></a>": false, "<a><!--b--></a>": true,'),"vtdxml/parser"),
("S14","C21",[(D+"process_dec_attr_name.go","(p.skipChar('0') || p.skipChar('1'))","(p.skipChar('0') || p.skipChar('1') || p.skipChar('2'))")],
 "a declaration of version 1.2","a declaration of a version that does not exist is accepted",
 H('"<?xml version=\'1.2\'?><a/>": false, "<?xml version=\'1.1\'?><a/>": true,'),"vtdxml/parser"),
]
for a in S:
    make(*a)
    if "check" in sys.argv: print(a[0],checkit(a[0]))
