package reader

# A reader is a cursor over a window of the document that ends at end().
model Reader(r) {
  pos() int
  end() int
  doc() []byte
  valid() bool
}

impl Utf8Reader as Reader {
  pos(r) := r.offset
  end(r) := r.endOffset
  doc(r) := r.xmlDoc
  valid(r) := r.xmlDoc != nil && 0 <= r.offset && 0 <= r.endOffset && r.endOffset <= len(r.xmlDoc)
  modifies self.offset
}
impl AsciiReader as Reader {
  pos(r) := r.offset
  end(r) := r.endOffset
  doc(r) := r.xmlDoc
  valid(r) := r.xmlDoc != nil && 0 <= r.offset && 0 <= r.endOffset && r.endOffset <= len(r.xmlDoc)
  modifies self.offset
}

def ascii7(s) := forall k in 0..len(s) :: s[k] < 0x80

iface Reader.GetChar(r) (ch, err) {
  requires valid(r)
  modifies pos(r)
  ensures [C08] err == nil ==> old(pos(r)) < end(r) && pos(r) == old(pos(r)) + 1 && ch == uint32(doc(r)[old(pos(r))])
  ensures [C08] old(pos(r)) < end(r) && doc(r)[old(pos(r))] < 0x80 ==> err == nil
  ensures [C08] old(pos(r)) >= end(r) ==> pos(r) == old(pos(r))
  ensures [C08] old(pos(r)) >= end(r) <==> typeis(err, *erroring.EOFError)
  ensures [C08] err != nil && old(pos(r)) < end(r) ==> pos(r) == old(pos(r)) + 1
  ensures [C08] err != nil ==> ch == 0
}
iface Reader.SkipChar(r, ch) (ok) {
  requires valid(r)
  modifies pos(r)
  ensures [C08] ok <==> (old(pos(r)) < end(r) && ch == uint32(doc(r)[old(pos(r))]))
  ensures [C08] pos(r) == ite(ok, old(pos(r)) + 1, old(pos(r)))
}
iface Reader.SkipCharSeq(r, seq) (ok) {
  requires valid(r)
  modifies pos(r)
  invariant old(pos(r)) <= pos(r)
  invariant pos(r) > old(pos(r)) ==> pos(r) <= end(r)
  invariant pos(r) - old(pos(r)) <= $i
  invariant $i > 0 ==> pos(r) > old(pos(r))
  invariant ascii7(seq) ==> pos(r) - old(pos(r)) == $i
  invariant ascii7(seq) ==> (forall k in 0..(pos(r) - old(pos(r))) :: doc(r)[old(pos(r)) + k] == seq[k])
  ensures [C08] !ok ==> pos(r) == old(pos(r))
  ensures [C08] ok && ascii7(seq) ==> pos(r) == old(pos(r)) + len(seq)
  ensures [C08] ok && len(seq) > 0 ==> pos(r) <= end(r) && pos(r) > old(pos(r)) && pos(r) <= old(pos(r)) + len(seq)
  ensures [C08] ok && ascii7(seq) ==> (forall k in 0..len(seq) :: doc(r)[old(pos(r)) + k] == seq[k])
  ensures [C08] !ok && ascii7(seq) ==> len(seq) > end(r) - old(pos(r)) || !(forall k in 0..len(seq) :: doc(r)[old(pos(r)) + k] == seq[k])
}
iface Reader.GetCharAt(r, o) (ch, err) {
  requires valid(r)
  ensures [C08] 0 <= o && int(o) < end(r) ==> err == nil && ch == uint32(doc(r)[o])
  ensures [C08] (o < 0 || int(o) >= end(r)) ==> err != nil
}
iface Reader.GetLongCharAt(r, o) (v, err) {
  requires valid(r)
  ensures [C08] (o < 0 || int(o) >= end(r)) ==> err != nil
  ensures [C08] 0 <= o && int(o) < end(r) ==> err == nil
  ensures [C08] 0 <= o && int(o) < end(r) && doc(r)[o] != 13 ==> v == (uint64(1) << 32) | uint64(doc(r)[o])
  ensures [C08] 0 <= o && int(o) < end(r) && doc(r)[o] == 13 && (int(o) + 1 >= end(r) || doc(r)[int(o) + 1] != 10) ==> v == (uint64(1) << 32) | 13
  ensures [C08] 0 <= o && int(o) < end(r) && doc(r)[o] == 13 && int(o) + 1 < end(r) && doc(r)[int(o) + 1] == 10 ==> v == (uint64(2) << 32) | 10
}
iface Reader.GetOffset(r) (o) {
  requires valid(r)
  ensures [C08] o == pos(r)
}
iface Reader.SetOffset(r, o) {
  requires valid(r)
  requires 0 <= o
  modifies pos(r)
  ensures [C08] pos(r) == o
}

def badwindow(d, o, e) := d == nil || o < 0 || e < 0 || e > len(d)
func NewUtf8Reader(xmlDoc, offset, endOffset) (r, err) {
  ensures [C08] !badwindow(xmlDoc, offset, endOffset) ==> err == nil && r != nil && fresh(r) && valid(r) && pos(r) == offset && end(r) == endOffset && doc(r) == xmlDoc
  ensures [C08] badwindow(xmlDoc, offset, endOffset) ==> err != nil && r == nil
}
func NewAsciiReader(xmlDoc, offset, endOffset) (r, err) {
  ensures [C08] !badwindow(xmlDoc, offset, endOffset) ==> err == nil && r != nil && fresh(r) && valid(r) && pos(r) == offset && end(r) == endOffset && doc(r) == xmlDoc
  ensures [C08] badwindow(xmlDoc, offset, endOffset) ==> err != nil && r == nil
}
func AsciiReader.GetChar(r) (ch, err) {
  requires valid(r)
  modifies pos(r)
  ensures [C09] err == nil ==> ch < 0x80
  ensures [C09] old(pos(r)) < end(r) && doc(r)[old(pos(r))] >= 0x80 ==> err != nil
}
func Utf8Reader.GetChar(r) (ch, err) {
  requires valid(r)
  modifies pos(r)
  ensures [C08] old(pos(r)) < end(r) ==> err == nil
}

property C08 {
  safety: reader.*
  termination: reader.*
  frame: reader.*
}
property C09 {
  functions: reader.AsciiReader.GetChar
  safety: reader.AsciiReader.GetChar
}
