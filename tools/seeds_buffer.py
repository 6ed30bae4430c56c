import sys; sys.path.insert(0,'/verif/tools')
from mkseed import make,checkit
H='''package buffer_test

import (
	"testing"

	"github.com/alexZaicev/go-vtd-xml/vtdxml/buffer"
)

'''
S=[
("S01","C01",[("vtdxml/buffer/int_buffer.go","b.capacity += b.pageSize","b.capacity += b.r")],
 "more entries than one page holds: the last slot of every page is skipped","entries appended after the first page can no longer be read back at their index",
 H+'''func TestSeededDemo(t *testing.T) {
	b, err := buffer.NewFastIntBuffer()
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 3000; i++ {
		if err := b.Append(int32(i)); err != nil {
			t.Fatal(err)
		}
	}
	for i := 0; i < 3000; i++ {
		if v, err := b.IntAt(i); err != nil || v != int32(i) {
			t.Fatalf("entry %d reads %d, %v", i, v, err)
		}
	}
}
''',"vtdxml/buffer"),
("S02","C02",[("vtdxml/buffer/long_buffer.go","func (b *FastLongBuffer) Clear() {\n\tb.size = 0\n}","func (b *FastLongBuffer) Clear() {\n\tb.size = 0\n\tb.capacity = 0\n}")],
 "clear a buffer that has entries, then append again","entries appended after a clear land on a page that is not the one their index addresses",
 H+'''func TestSeededDemo(t *testing.T) {
	b, err := buffer.NewFastLongBuffer(buffer.WithFastLongBufferPageSize(2))
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 6; i++ {
		b.Append(int64(i))
	}
	b.Clear()
	for i := 0; i < 6; i++ {
		b.Append(int64(100 + i))
	}
	for i := 0; i < 6; i++ {
		if v, err := b.LongAt(i); err != nil || v != int64(100+i) {
			t.Fatalf("entry %d reads %d, %v", i, v, err)
		}
	}
}
''',"vtdxml/buffer"),
("S03","C03",[("vtdxml/buffer/long_buffer.go","for i := 0; size > 0; i++ {","for i := 0; size > b.exp>>3; i++ {")],
 "a buffer whose last page holds a single entry","the flattened array misses the last entry",
 H+'''func TestSeededDemo(t *testing.T) {
	b, err := buffer.NewFastLongBuffer()
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 1025; i++ {
		b.Append(int64(i))
	}
	s, err := b.ToLongArray()
	if err != nil || len(s) != 1025 || s[1024] != 1024 {
		t.Fatalf("flattened to %d entries, %v", len(s), err)
	}
}
''',"vtdxml/buffer"),
("S04","C04",[("vtdxml/buffer/long_buffer.go","valueInt := int32(valueLong)\n","valueInt := int32(valueLong & 0x7FFFFFFF)\n")],
 "a stored value whose bit 31 is set","the lower half reads back without its top bit",
 H+'''func TestSeededDemo(t *testing.T) {
	b, _ := buffer.NewFastLongBuffer()
	b.Append(0x12345678_F0000001)
	if v, err := b.Lower32At(0); err != nil || uint32(v) != 0xF0000001 {
		t.Fatalf("lower half %#x, %v", uint32(v), err)
	}
}
''',"vtdxml/buffer"),
("S05","C05",[("vtdxml/buffer/byte_buffer.go","if buffer == nil {","if len(buffer) == 0 {")],
 "an empty but non-nil slice","a byte buffer over an empty slice can no longer be built",
 H+'''func TestSeededDemo(t *testing.T) {
	if _, err := buffer.NewUniByteBuffer([]byte{}); err != nil {
		t.Fatal(err)
	}
}
''',"vtdxml/buffer"),
]
if __name__=='__main__':
    for s in S:
        if len(sys.argv)<2 or s[0] in sys.argv[1:]:
            if make(*s): checkit(s[0])
