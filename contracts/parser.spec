package parser

# ---------------------------------------------------------------- geometry
# The window of the document the parser may look at, and the reader's place in it.
def pwindow(p) := 0 <= p.docOffset && p.docOffset < p.endOffset && p.endOffset <= len(p.xmlDoc) && p.endOffset < 0x80000000
def preader(p) := p.reader != nil && valid(p.reader) && doc(p.reader) == p.xmlDoc && end(p.reader) == p.endOffset
def pchars(p) := p.xmlChar != nil && valid(p.xmlChar)
def patoff(p) := p.docOffset <= p.offset && p.offset <= p.endOffset
def psync(p) := patoff(p) && pos(p.reader) == p.offset
# what every step of the parser needs and keeps
def pgeo(p) := pwindow(p) && preader(p) && pchars(p)
def pread(p) := pgeo(p) && psync(p)

modset mread(p) := p.offset, pos(p.reader)
modset mnext(p) := p.offset, pos(p.reader), p.currentChar, p.lastChar

func VtdParser.getChar(p) (ch, err) {
  requires pread(p)
  modifies mread(p)
  ensures patoff(p) && (err == nil ==> psync(p))
  ensures err == nil ==> old(p.offset) < p.endOffset && p.offset == old(p.offset) + 1 && ch == uint32(p.xmlDoc[old(p.offset)])
  ensures old(p.offset) < p.endOffset && p.xmlDoc[old(p.offset)] < 0x80 ==> err == nil
  ensures err != nil ==> p.offset == old(p.offset)
  ensures old(p.offset) >= p.endOffset <==> typeis(err, *erroring.EOFError)
}
func VtdParser.skipChar(p, ch) (ok) {
  requires pread(p)
  modifies mread(p)
  ensures psync(p)
  ensures ok <==> (old(p.offset) < p.endOffset && ch == uint32(p.xmlDoc[old(p.offset)]))
  ensures p.offset == ite(ok, old(p.offset) + 1, old(p.offset))
}
func VtdParser.skipCharSeq(p, seq) (ok) {
  requires pread(p)
  requires reader.ascii7(seq) && len(seq) > 0
  modifies mread(p)
  ensures psync(p)
  ensures !ok ==> p.offset == old(p.offset)
  ensures ok ==> p.offset == old(p.offset) + len(seq)
  ensures ok ==> (forall k in 0..len(seq) :: p.xmlDoc[old(p.offset) + k] == seq[k])
  ensures !ok ==> len(seq) > p.endOffset - old(p.offset) || !(forall k in 0..len(seq) :: p.xmlDoc[old(p.offset) + k] == seq[k])
}
func VtdParser.nextChar(p) (err) {
  requires pread(p)
  modifies mnext(p)
  ensures patoff(p) && (err == nil ==> psync(p))
  ensures err == nil ==> old(p.offset) < p.endOffset && p.offset == old(p.offset) + 1 && p.currentChar == uint32(p.xmlDoc[old(p.offset)])
  ensures old(p.offset) < p.endOffset && p.xmlDoc[old(p.offset)] < 0x80 ==> err == nil
  ensures err != nil ==> p.offset == old(p.offset)
  ensures old(p.offset) >= p.endOffset <==> typeis(err, *erroring.EOFError)
}
func VtdParser.nextCharAfterWs(p) (err) {
  requires pread(p)
  modifies mnext(p)
  invariant psync(p) && old(p.offset) <= p.offset
  invariant forall k in old(p.offset)..p.offset :: common.isSpace(int(p.xmlDoc[k]))
  decreases p.endOffset - p.offset
  ensures patoff(p) && (err == nil ==> psync(p)) && old(p.offset) <= p.offset
  ensures err == nil ==> old(p.offset) < p.offset && p.currentChar == uint32(p.xmlDoc[p.offset - 1]) && !common.isSpace(int(p.currentChar))
  ensures err == nil ==> (forall k in old(p.offset)..(p.offset - 1) :: common.isSpace(int(p.xmlDoc[k])))
  ensures typeis(err, *erroring.EOFError) ==> p.offset == p.endOffset && (forall k in old(p.offset)..p.endOffset :: common.isSpace(int(p.xmlDoc[k])))
}
func VtdParser.setOffset(p, offset) {
  requires pgeo(p) && 0 <= offset
  modifies p.offset, p.lastOffset, pos(p.reader)
  ensures p.offset == offset && pos(p.reader) == offset && p.lastOffset == old(p.offset)
}
func VtdParser.fmtCustomLine(p, offset) (s) {
  requires 0 <= p.docOffset && 0 <= offset && offset <= len(p.xmlDoc) && len(p.xmlDoc) <= 0x400000000000
  invariant p.docOffset <= so
  decreases offset - so
}
func VtdParser.fmtLine(p) (s) {
  requires 0 <= p.docOffset && 0 <= p.offset && p.offset <= len(p.xmlDoc) && len(p.xmlDoc) <= 0x400000000000
}
func VtdParser.getPrevOffset(p) (o, err) {
  requires p.encoding == 0
  ensures err == nil && o == p.offset - 1
}

# ---------------------------------------------------------------- tokens
# a token record: type 4 bits | depth 8 | length 20 | offset 32
def maxtok() := 0xFFFFF
def rtype(v) := int((uint64(v) >> 60) & 0xF)
def rdepth(v) := int((uint64(v) >> 52) & 0xFF)
def rlen(v) := int((uint64(v) >> 32) & 0xFFFFF)
def roff(v) := int(uint64(v) & 0xFFFFFFFF)
def rqn(v) := rlen(v) & 0x7FF
def rpre(v) := rlen(v) >> 11
def isname(t) := t == 0 || t == 2 || t == 3
# the bytes of the document a token stands for
def rspan(v) := ite(isname(rtype(v)), rqn(v), rlen(v))
def tokok(v, e) := rtype(v) <= 13 && roff(v) + rspan(v) <= e && (isname(rtype(v)) ==> rpre(v) <= rqn(v)) && (rdepth(v) <= 254 || rdepth(v) == 255)
def tokargs(t, o, l, d, e) := 0 <= int(t) && int(t) <= 13 && 0 <= o && 0 <= l && l <= 0xFFFFF && 0 - 1 <= d && d <= 254 &&
  o + ite(isname(int(t)), l & 0x7FF, l) <= e && o <= e && (isname(int(t)) ==> (l >> 11) <= (l & 0x7FF))
def recis(v, t, o, l, d) := rtype(v) == int(t) && roff(v) == o && rlen(v) == l && rdepth(v) == (d & 0xFF)

def pbuf1(p) := p.vtdBuffer != nil && valid(p.vtdBuffer) && p.l1Buffer != nil && valid(p.l1Buffer) && p.l2Buffer != nil && valid(p.l2Buffer) && p.l3Buffer != nil && valid(p.l3Buffer) &&
  (!p.shallowDepth ==> p.l4Buffer != nil && valid(p.l4Buffer) && p.l5Buffer != nil && valid(p.l5Buffer)) &&
  p.nsBuffer1 != nil && valid(p.nsBuffer1) && p.nsBuffer2 != nil && valid(p.nsBuffer2) && p.nsBuffer3 != nil && valid(p.nsBuffer3)
def nb(p, b) := ref(b) != ref(p.l1Buffer) && ref(b) != ref(p.l2Buffer) && ref(b) != ref(p.l3Buffer) && ref(b) != ref(p.l4Buffer) && ref(b) != ref(p.l5Buffer)
def pbuf2(p) := nb(p, p.vtdBuffer) && nb(p, p.nsBuffer2) && nb(p, p.nsBuffer3) && ref(p.vtdBuffer) != ref(p.nsBuffer2) && ref(p.vtdBuffer) != ref(p.nsBuffer3) && ref(p.nsBuffer2) != ref(p.nsBuffer3) &&
  ref(p.l1Buffer) != ref(p.l2Buffer) && ref(p.l1Buffer) != ref(p.l3Buffer) && ref(p.l1Buffer) != ref(p.l4Buffer) && ref(p.l1Buffer) != ref(p.l5Buffer) &&
  ref(p.l2Buffer) != ref(p.l3Buffer) && ref(p.l2Buffer) != ref(p.l4Buffer) && ref(p.l2Buffer) != ref(p.l5Buffer) &&
  ref(p.l3Buffer) != ref(p.l4Buffer) && ref(p.l3Buffer) != ref(p.l5Buffer) && (!p.shallowDepth ==> ref(p.l4Buffer) != ref(p.l5Buffer) && ref(p.nsBuffer1) != ref(p.l5Buffer))
def pbufs(p) := pbuf1(p) && pbuf2(p)
# every record is legal
def ptoks(p) := forall i in 0..size(p.vtdBuffer) :: tokok(at(p.vtdBuffer, i), p.endOffset)

modset mvtd(p) := size(p.vtdBuffer), at(p.vtdBuffer)
modset mlc(p) := size(p.l1Buffer), at(p.l1Buffer), size(p.l2Buffer), at(p.l2Buffer), size(p.l3Buffer), at(p.l3Buffer), size(p.l4Buffer), at(p.l4Buffer), size(p.l5Buffer), at(p.l5Buffer), p.rootIndex, p.lastL1Index, p.lastL2Index, p.lastL3Index, p.lastL4Index, p.lastDepth

func VtdParser.writeVtd(p, tokenType, offset, length, depth) (err) {
  requires p.vtdBuffer != nil && valid(p.vtdBuffer) && p.endOffset < 0x80000000
  requires [C12] tokargs(tokenType, offset, length, depth, p.endOffset)
  modifies mvtd(p)
  ensures err == nil && size(p.vtdBuffer) == old(size(p.vtdBuffer)) + 1
  ensures [C12, C13] recis(at(p.vtdBuffer, old(size(p.vtdBuffer))), tokenType, offset, length, depth)
  ensures [C12] forall i in 0..old(size(p.vtdBuffer)) :: at(p.vtdBuffer, i) == old(at(p.vtdBuffer, i))
  ensures [C12] old(ptoks(p)) ==> ptoks(p)
}
# k full pieces of a long text
def pieces(k) := (k << 20) - k
func VtdParser.writeVtdText(p, tokenType, offset, length, depth) (err) {
  requires p.vtdBuffer != nil && valid(p.vtdBuffer) && p.endOffset < 0x80000000
  requires [C12] 0 <= int(tokenType) && int(tokenType) <= 13 && !isname(int(tokenType)) && 0 <= offset && 0 <= length && offset + length <= p.endOffset && offset <= p.endOffset && length <= p.endOffset && 0 - 1 <= depth && depth <= 254
  modifies mvtd(p)
  invariant 0 < j && j <= length && rOffset == offset + (length - j)
  invariant old(size(p.vtdBuffer)) <= size(p.vtdBuffer) && size(p.vtdBuffer) - old(size(p.vtdBuffer)) < 0x1000
  invariant length - j == pieces(size(p.vtdBuffer) - old(size(p.vtdBuffer)))
  invariant forall i in old(size(p.vtdBuffer))..size(p.vtdBuffer) :: recis(at(p.vtdBuffer, i), tokenType, offset + pieces(i - old(size(p.vtdBuffer))), 0xFFFFF, depth)
  invariant forall i in 0..old(size(p.vtdBuffer)) :: at(p.vtdBuffer, i) == old(at(p.vtdBuffer, i))
  invariant old(ptoks(p)) ==> ptoks(p)
  decreases j
  ensures err == nil && size(p.vtdBuffer) > old(size(p.vtdBuffer)) && size(p.vtdBuffer) - old(size(p.vtdBuffer)) <= 0x1000
  ensures [C12] pieces(size(p.vtdBuffer) - old(size(p.vtdBuffer)) - 1) <= length && length <= pieces(size(p.vtdBuffer) - old(size(p.vtdBuffer)))
  ensures [C12] forall i in old(size(p.vtdBuffer))..(size(p.vtdBuffer) - 1) :: recis(at(p.vtdBuffer, i), tokenType, offset + pieces(i - old(size(p.vtdBuffer))), 0xFFFFF, depth)
  ensures [C12] recis(at(p.vtdBuffer, size(p.vtdBuffer) - 1), tokenType, offset + pieces(size(p.vtdBuffer) - old(size(p.vtdBuffer)) - 1), length - pieces(size(p.vtdBuffer) - old(size(p.vtdBuffer)) - 1), depth)
  ensures [C12] forall i in 0..old(size(p.vtdBuffer)) :: at(p.vtdBuffer, i) == old(at(p.vtdBuffer, i))
  ensures [C12] old(ptoks(p)) ==> ptoks(p)
}

# ---------------------------------------------------------------- location cache
def istag(p, i, k) := 0 <= i && i < size(p.vtdBuffer) && rtype(at(p.vtdBuffer, i)) == 0 && rdepth(at(p.vtdBuffer, i)) == k
def lce(p, b, k) := forall i in 0..size(b) :: istag(p, int(uint64(at(b, i)) >> 32), k)
def lci(b, c, e) := forall i in 0..size(b) :: int(uint64(at(b, i)) & 0xFFFFFFFF) == 0xFFFFFFFF || int(uint64(at(b, i)) & 0xFFFFFFFF) < size(c) + e
def plast(p) := 0 <= p.lastDepth && p.lastDepth <= 5 && (p.lastDepth == 1 ==> istag(p, p.lastL1Index, 1)) && (p.lastDepth == 2 ==> istag(p, p.lastL2Index, 2)) && (p.lastDepth == 3 ==> istag(p, p.lastL3Index, 3)) && (p.lastDepth == 4 ==> istag(p, p.lastL4Index, 4))
def lcsize(p) := size(p.vtdBuffer) < 0x80000000 && size(p.l2Buffer) < 0x80000000 && size(p.l3Buffer) < 0x80000000 && size(p.l4Buffer) < 0x80000000 && size(p.l5Buffer) < 0x80000000
def plc0(p) := plast(p) && lcsize(p) &&
  lce(p, p.l1Buffer, 1) && lce(p, p.l2Buffer, 2) && lce(p, p.l3Buffer, 3) && lce(p, p.l4Buffer, 4) && (forall i in 0..size(p.l5Buffer) :: istag(p, int(at(p.l5Buffer, i)), 5)) &&
  lci(p.l1Buffer, p.l2Buffer, ite(p.lastDepth == 2, 1, 0)) && lci(p.l2Buffer, p.l3Buffer, ite(p.lastDepth == 3, 1, 0)) && lci(p.l3Buffer, p.l4Buffer, ite(p.lastDepth == 4, 1, 0))
def plc(p) := plc0(p) && lci(p.l4Buffer, p.l5Buffer, 0)

func VtdParser.writeVtdL5(p, tokenType, offset, length, depth) (err) {
  requires pbufs(p) && !p.shallowDepth && p.endOffset < 0x80000000
  requires [C12] tokargs(tokenType, offset, length, depth, p.endOffset) && tokenType == 0
  assumes size(p.vtdBuffer) < 0x7FFFFFFF && size(p.l2Buffer) < 0x7FFFFFFF && size(p.l3Buffer) < 0x7FFFFFFF && size(p.l4Buffer) < 0x7FFFFFFF && size(p.l5Buffer) < 0x7FFFFFFF
  modifies mvtd(p), mlc(p)
  ensures err == nil && size(p.vtdBuffer) == old(size(p.vtdBuffer)) + 1
  ensures [C12] recis(at(p.vtdBuffer, old(size(p.vtdBuffer))), tokenType, offset, length, depth)
  ensures [C12] forall i in 0..old(size(p.vtdBuffer)) :: at(p.vtdBuffer, i) == old(at(p.vtdBuffer, i))
  ensures [C12] old(ptoks(p)) ==> ptoks(p)
  ensures [C30] old(lcsize(p) && lci(p.l4Buffer, p.l5Buffer, 0)) ==> lci(p.l4Buffer, p.l5Buffer, 0)
  ensures [C30] old(plc0(p)) && (depth <= old(p.lastDepth) + 1 || depth > 5) ==> plc0(p)
}
func VtdParser.writeVtdWithLengthCheck(p, tokenType, errMsg) (err) {
  requires p.vtdBuffer != nil && valid(p.vtdBuffer) && pwindow(p) && patoff(p) && p.singleByteEncoding
  requires [C12] 0 <= int(tokenType) && int(tokenType) <= 13 && !isname(int(tokenType)) && 0 <= p.lastOffset && 0 <= p.length1 && p.lastOffset + p.length1 <= p.endOffset && p.lastOffset <= p.endOffset && p.length1 <= p.endOffset && 0 - 1 <= p.depth && p.depth <= 254
  modifies mvtd(p)
  ensures p.length1 <= 0xFFFFF <==> err == nil
  ensures size(p.vtdBuffer) == ite(err == nil, old(size(p.vtdBuffer)) + 1, old(size(p.vtdBuffer)))
  ensures [C12] err == nil ==> recis(at(p.vtdBuffer, old(size(p.vtdBuffer))), tokenType, p.lastOffset, p.length1, p.depth)
  ensures [C12] forall i in 0..old(size(p.vtdBuffer)) :: at(p.vtdBuffer, i) == old(at(p.vtdBuffer, i))
  ensures [C12] old(ptoks(p)) ==> ptoks(p)
}

# ---------------------------------------------------------------- references
def isdec(c) := '0' <= c && c <= '9'
def ishex(c) := ('0' <= c && c <= '9') || ('a' <= c && c <= 'f') || ('A' <= c && c <= 'F')
def hexdig(c) := ite(c <= '9', c - '0', ite(c >= 'a', c - 'a' + 10, c - 'A' + 10))
# value of the digits between two offsets
uf hexv(s, e) int
uf decv(s, e) int
def at2(p, o, a, b) := o + 2 <= p.endOffset && p.xmlDoc[o] == a && p.xmlDoc[o + 1] == b
def at3(p, o, a, b, c) := o + 3 <= p.endOffset && p.xmlDoc[o] == a && p.xmlDoc[o + 1] == b && p.xmlDoc[o + 2] == c
def at4(p, o, a, b, c, d) := at3(p, o, a, b, c) && o + 4 <= p.endOffset && p.xmlDoc[o + 3] == d
def at5(p, o, a, b, c, d, e) := at4(p, o, a, b, c, d) && o + 5 <= p.endOffset && p.xmlDoc[o + 4] == e
def refamp(p, o) := at4(p, o, 'a', 'm', 'p', ';')
def refapos(p, o) := at5(p, o, 'a', 'p', 'o', 's', ';')
def refquot(p, o) := at5(p, o, 'q', 'u', 'o', 't', ';')
def refgt(p, o) := at3(p, o, 'g', 't', ';')
def reflt(p, o) := at3(p, o, 'l', 't', ';')
def named(p, o) := refamp(p, o) || refapos(p, o) || refquot(p, o) || refgt(p, o) || reflt(p, o)
def namedend(p, o) := ite(refamp(p, o), o + 4, ite(refapos(p, o) || refquot(p, o), o + 5, o + 3))
def namedval(p, o) := ite(refamp(p, o), 38, ite(refapos(p, o), 39, ite(refquot(p, o), 34, ite(refgt(p, o), 62, 60))))
def numeric(p, o, e, v) := o + 2 < e && e <= p.endOffset && p.xmlDoc[o] == '#' && p.xmlDoc[e - 1] == ';' && common.isValid(v) &&
  ((p.xmlDoc[o + 1] == 'x' && v == hexv(o + 2, e - 1) && (forall k in (o + 2)..(e - 1) :: ishex(int(p.xmlDoc[k])))) ||
   (v == decv(o + 1, e - 1) && (forall k in (o + 1)..(e - 1) :: isdec(int(p.xmlDoc[k])))))
# okref(o): a reference that is accepted follows the & before o; refend(o) is its end when it is numeric
def inmax(v) := 0 <= v && v <= 0x10FFFF
uf okref(o) bool
uf refend(o) int
def numericb(p, o, e) := o + 2 < e && e <= p.endOffset && p.xmlDoc[o] == '#' && p.xmlDoc[e - 1] == ';' &&
  ((p.xmlDoc[o + 1] == 'x' && (forall k in (o + 2)..(e - 1) :: ishex(int(p.xmlDoc[k])) && inmax(hexv(o + 2, k + 1)))) ||
   (forall k in (o + 1)..(e - 1) :: isdec(int(p.xmlDoc[k])) && inmax(decv(o + 1, k + 1))))

func VtdParser.entityIdentifier(p) (v, err) {
  requires pread(p)
  define hexv(old(p.offset) + 2, old(p.offset) + 2) == 0 && hexv(old(p.offset) + 2, p.offset + 1) == (hexv(old(p.offset) + 2, p.offset) << 4) + hexdig(int(p.xmlDoc[p.offset]))
  define decv(old(p.offset) + 1, old(p.offset) + 1) == 0 && decv(old(p.offset) + 1, p.offset) == decv(old(p.offset) + 1, p.offset - 1) * 10 + (int(p.xmlDoc[p.offset - 1]) - 48)
  define numericb(p, old(p.offset), p.offset) || named(p, old(p.offset)) ==> okref(old(p.offset))
  modifies mread(p)
  invariant psync(p)
  invariant old(p.offset) + 2 <= p.offset
  invariant forall k in (old(p.offset) + 2)..p.offset :: inmax(hexv(old(p.offset) + 2, k + 1))
  invariant forall k in (old(p.offset) + 1)..(p.offset - 1) :: inmax(decv(old(p.offset) + 1, k + 1))
  invariant p.xmlDoc[old(p.offset)] == '#' && value <= 0x10FFFF
  invariant p.xmlDoc[old(p.offset) + 1] == 'x' && int(value) == hexv(old(p.offset) + 2, p.offset)
  invariant forall k in (old(p.offset) + 2)..p.offset :: ishex(int(p.xmlDoc[k]))
  invariant int(value) == decv(old(p.offset) + 1, p.offset - 1)
  invariant ch == uint32(p.xmlDoc[p.offset - 1])
  invariant forall k in (old(p.offset) + 1)..(p.offset - 1) :: isdec(int(p.xmlDoc[k]))
  decreases p.endOffset - p.offset
  ensures [C10] patoff(p) && (err == nil ==> psync(p)) && old(p.offset) <= p.offset
  ensures [C11] err == nil ==> old(p.offset) < p.offset
  ensures [C18] err == nil ==> (named(p, old(p.offset)) && p.offset == namedend(p, old(p.offset)) && int(v) == namedval(p, old(p.offset))) || numeric(p, old(p.offset), p.offset, int(v))
  ensures [C18] named(p, old(p.offset)) ==> err == nil
  ensures err == nil ==> okref(old(p.offset))
  ensures err == nil ==> (forall k in old(p.offset)..p.offset :: p.xmlDoc[k] != '&')
}
func VtdParser.handleOtherTextChar(p, ch) (err) {
  requires pread(p)
  modifies mread(p)
  invariant psync(p) && old(p.offset) + 1 <= p.offset
  invariant forall k in old(p.offset)..p.offset :: p.xmlDoc[k] == ']'
  decreases p.endOffset - p.offset
  ensures [C10] patoff(p) && (err == nil ==> psync(p)) && old(p.offset) <= p.offset
  ensures [C18] err == nil && ch == '&' ==> (named(p, old(p.offset)) && p.offset == namedend(p, old(p.offset))) || (exists v int :: numeric(p, old(p.offset), p.offset, v))
  ensures [C18] ch == '&' && named(p, old(p.offset)) ==> err == nil
  ensures [C17] err == nil ==> ch == '&' || ch == ']'
  ensures [C17] err == nil && ch == ']' ==> (forall k in old(p.offset)..p.offset :: p.xmlDoc[k] == ']') && (p.offset == old(p.offset) || p.offset >= p.endOffset || p.xmlDoc[p.offset] != '>')
  ensures [C17] ch == ']' && err != nil ==> p.offset > old(p.offset) + 1 && p.xmlDoc[p.offset - 1] == '>' && p.xmlDoc[p.offset - 2] == ']'
}

# ---------------------------------------------------------------- parser state
def penc(p) := p.encoding == 0 && p.increment == 1 && p.singleByteEncoding
# documents that look like UTF-16 never get past their second character
def penc1(p) := penc(p) || (p.offset < p.endOffset && (p.xmlDoc[p.offset] == 0 || (p.xmlDoc[p.offset] == '<' && p.offset + 1 < p.endOffset && p.xmlDoc[p.offset + 1] == 0)))
def penc2(p) := penc(p) || (p.offset < p.endOffset && p.xmlDoc[p.offset] == 0)

# names on the stack of open elements
def tlen(v) := int(uint64(v) >> 32)
def toff(v) := int(uint64(v) & 0xFFFFFFFF)
def tagw(v, p) := 0 < tlen(v) && tlen(v) <= 0x7FF && toff(v) + tlen(v) < p.endOffset
def ptags(p, d) := forall k in 0..d :: tagw(p.tagStack[k], p)
def parrs(p) := len(p.tagStack) == 256 && p.attrNameSlice != nil && p.prefixedAttrNameSlice != nil && p.prefixUrlSlice != nil && p.tagStack != nil &&
  arr(p.tagStack) != arr(p.prefixedAttrNameSlice) && arr(p.attrNameSlice) != arr(p.prefixUrlSlice) && arr(p.tagStack) != arr(p.attrNameSlice) && arr(p.tagStack) != arr(p.prefixUrlSlice) &&
  arr(p.prefixedAttrNameSlice) != arr(p.attrNameSlice) && arr(p.prefixedAttrNameSlice) != arr(p.prefixUrlSlice)
# names of the attributes of the current start tag
def pattrs(p) := 0 <= p.attrCount && p.attrCount <= len(p.attrNameSlice) && 0 <= p.prefixedAttCount && p.prefixedAttCount <= p.attrCount && p.prefixedAttCount <= len(p.prefixedAttrNameSlice)
# declared prefixes: lengths of "xmlns" and of the whole name, and its offset
def nsl2(v) := int((uint64(v) >> 48) & 0xFFFF)
def nsl1(v) := int((uint64(v) >> 32) & 0xFFFF)
def nso(v) := int(uint64(v) & 0xFFFFFFFF)
def nsw(v, p) := nsl2(v) < nsl1(v) && nsl1(v) <= 0x7FF && nso(v) + nsl1(v) <= p.endOffset
def pnsw(p) := forall i in 0..size(p.nsBuffer3) :: nsw(at(p.nsBuffer3, i), p)
# declared urls
def urlw(v, p) := tlen(v) <= 0x7FFFFFFF && toff(v) <= 0x7FFFFFFF && toff(v) + tlen(v) <= p.endOffset
def purls(p) := forall i in 0..size(p.nsBuffer2) :: urlw(at(p.nsBuffer2, i), p)
# how many declarations each open element leaves in scope, less one
def pscope(p) := forall i in 0..size(p.nsBuffer1) :: 0 - 1 <= at(p.nsBuffer1, i) && int(at(p.nsBuffer1, i)) < size(p.nsBuffer3)
def pmono(p) := forall i in 0..(size(p.nsBuffer1) - 1) :: at(p.nsBuffer1, i) <= at(p.nsBuffer1, i + 1)

# ---------------------------------------------------------------- helpers of the states
def xml3(p, o) := p.xmlDoc[o] == 'x' && p.xmlDoc[o + 1] == 'm' && p.xmlDoc[o + 2] == 'l'
def inside(p, o) := 0 <= o && o < len(p.xmlDoc)
func VtdParser.checkXmlPrefix(p, offset, length, checkLength) (r) {
  requires p.encoding == 0 && inside(p, offset) && (p.xmlDoc[offset] == 'x' ==> inside(p, offset + 1)) && (p.xmlDoc[offset] == 'x' && p.xmlDoc[offset + 1] == 'm' ==> inside(p, offset + 2))
  ensures [C16] r <==> xml3(p, offset) && (checkLength ==> length == 4)
}
func VtdParser.checkXmlnsPrefix(p, offset, length, checkLength) (r) {
  requires p.encoding == 0 && inside(p, offset) && (p.xmlDoc[offset] == 'x' ==> inside(p, offset + 1)) && (p.xmlDoc[offset] == 'x' && p.xmlDoc[offset + 1] == 'm' ==> inside(p, offset + 2)) &&
    (xml3(p, offset) ==> inside(p, offset + 3)) && (xml3(p, offset) && p.xmlDoc[offset + 3] == 'n' ==> inside(p, offset + 4))
  ensures [C16] r <==> xml3(p, offset) && p.xmlDoc[offset + 3] == 'n' && p.xmlDoc[offset + 4] == 's' && (checkLength ==> length == 5)
}
func VtdParser.validateSeq(p, seq) (err) {
  requires pread(p) && reader.ascii7(seq)
  modifies mread(p)
  invariant psync(p) && p.offset == old(p.offset) + $i
  invariant forall k in 0..$i :: p.xmlDoc[old(p.offset) + k] == seq[k]
  ensures [C10] patoff(p) && (err == nil ==> psync(p))
  ensures [C17] err == nil ==> p.offset == old(p.offset) + len(seq) && (forall k in 0..len(seq) :: p.xmlDoc[old(p.offset) + k] == seq[k])
  ensures [C17] err == nil ==> 0 <= p.depth
}
func VtdParser.getNextProcessStateFromChar(p, ch) (s, err) {
  requires pread(p) && !p.ws
  modifies mread(p)
  invariant psync(p) && old(p.offset) + 1 <= p.offset
  invariant forall k in old(p.offset)..p.offset :: p.xmlDoc[k] == ']'
  decreases p.endOffset - p.offset
  ensures [C10] patoff(p) && (err == nil ==> psync(p)) && old(p.offset) <= p.offset
  ensures err == nil ==> (s == 0 && ch == '<' && p.offset == old(p.offset)) || (s == 5 && ch != '<')
  ensures [C18] err == nil && ch == '&' ==> (named(p, old(p.offset)) && p.offset == namedend(p, old(p.offset))) || (exists v int :: numeric(p, old(p.offset), p.offset, v))
  ensures [C17] err == nil && s == 5 && ch != '&' && ch != ']' ==> common.isContent(int(ch)) && p.offset == old(p.offset)
  ensures [C17] err == nil && ch == ']' ==> (forall k in old(p.offset)..p.offset :: p.xmlDoc[k] == ']') && (p.offset == old(p.offset) || p.offset >= p.endOffset || p.xmlDoc[p.offset] != '>')
}
extern strings.ToUpper(s) (r) {
  ensures len(s) == 1 && s[0] < 0x80 ==> len(r) == 1 && r[0] == ite('a' <= s[0] && s[0] <= 'z', s[0] - 32, s[0])
  ensures reader.ascii7(s) ==> len(r) == len(s) && (forall k in 0..len(s) :: r[k] == ite('a' <= s[k] && s[k] <= 'z', s[k] - 32, s[k]))
}
def nocase(c, s) := c == s || ('a' <= s && s <= 'z' && c == s - 32)
func VtdParser.skipCharSeqIgnoreCase(p, seq) (ok) {
  requires pread(p) && reader.ascii7(seq)
  modifies mread(p)
  invariant i == len(seqRange) && i <= len(seq)
  invariant len(seqRange) == len(seq)
  invariant forall k in 0..len(seqRange) :: len(seqRange[k]) == 2
  invariant forall k in 0..len(seqRange) :: seqRange[k][0] == uint32(seq[k]) && nocase(int(seqRange[k][1]), int(seq[k]))
  invariant psync(p) && p.offset == old(p.offset) + rangeindex + 1
  invariant forall k in 0..(p.offset - old(p.offset)) :: nocase(int(p.xmlDoc[old(p.offset) + k]), int(seq[k]))
  ensures psync(p) && old(p.offset) <= p.offset && p.offset <= old(p.offset) + len(seq)
  ensures ok ==> p.offset == old(p.offset) + len(seq)
  ensures [C21] ok ==> (forall k in 0..len(seq) :: nocase(int(p.xmlDoc[old(p.offset) + k]), int(seq[k])))
}
func VtdParser.recordWhiteSpace(p) (err) {
  requires p.vtdBuffer != nil && valid(p.vtdBuffer) && pwindow(p) && patoff(p) && penc(p)
  requires p.docOffset <= p.lastOffset && p.lastOffset < p.offset && p.depth <= 254
  modifies mvtd(p)
  ensures err == nil
}

# ---------------------------------------------------------------- namespaces
# the start tag being read, when its name has a prefix: prefix length and one,
# name length, offset
def cepl(v) := int((uint64(v) >> 48) & 0xFFF)
def cel1(v) := int((uint64(v) >> 32) & 0xFFFF)
def ceo(v) := int(uint64(v) & 0xFFFFFFFF)
def cew(v, p) := v == 0 || (2 <= cepl(v) && cepl(v) <= 0x200 && cepl(v) <= cel1(v) && cel1(v) <= 0x7FF && ceo(v) + cel1(v) < p.endOffset)
# record v declares the prefix of n characters at offset o
def declares(p, v, o, n) := nsl1(v) - nsl2(v) == n + 1 && (forall k in 0..n :: p.xmlDoc[nso(v) + nsl2(v) + 1 + k] == p.xmlDoc[o + k])
uf decl(v, o, n) bool
def declared(p, o, n) := exists i in 0..size(p.nsBuffer3) :: decl(int(at(p.nsBuffer3, i)), o, n)
func VtdParser.qualifyElement(p) (err) {
  requires pwindow(p) && patoff(p) && penc(p) && p.nsBuffer3 != nil && valid(p.nsBuffer3) && pnsw(p) && cew(p.currentElementRecord, p) && p.currentElementRecord != 0
  define 0 <= i && i < size(p.nsBuffer3) ==> (decl(int(at(p.nsBuffer3, i)), preOs, preLen - 1) <==> declares(p, at(p.nsBuffer3, i), preOs, preLen - 1))
  invariant 0 - 1 <= i && i < size(p.nsBuffer3)
  invariant forall m in (i + 1)..size(p.nsBuffer3) :: !decl(int(at(p.nsBuffer3, m)), preOs, preLen - 1)
  invariant 0 <= j
  invariant j <= preLen - 1
  invariant forall k in 0..j :: p.xmlDoc[os + k] == p.xmlDoc[preOs + k]
  decreases i
  decreases preLen - j
  ensures [C16] err == nil <==> declared(p, ceo(p.currentElementRecord), cepl(p.currentElementRecord) - 1) || (cepl(p.currentElementRecord) == 4 && xml3(p, ceo(p.currentElementRecord)))
}
# names of the attributes read so far
def ano(v) := int(uint64(v) >> 32)
def anl(v) := int(uint64(v) & 0xFFFFFFFF)
def anw(v, p) := ano(v) + anl(v) < p.endOffset && 0 < anl(v)
def panames(p) := forall i in 0..p.attrCount :: anw(p.attrNameSlice[i], p)
def sameattr(p, v, o, n) := anl(v) == n && (forall k in 0..n :: p.xmlDoc[ano(v) + k] == p.xmlDoc[o + k])
def pfo(v) := int(uint64(v) >> 32)
def pfl2(v) := int((uint64(v) >> 16) & 0xFFFF)
def pfl1(v) := int(uint64(v) & 0xFFFF)
def pfw(v, p) := 0 < pfl2(v) && pfl2(v) < pfl1(v) && pfl1(v) <= 0x7FF && pfo(v) + pfl1(v) < p.endOffset
def pprefs(p) := forall i in 0..p.prefixedAttCount :: pfw(p.prefixedAttrNameSlice[i], p)
def nameat(p) := 0 <= p.lastOffset && p.lastOffset <= p.endOffset && 0 < p.length1 && p.length1 <= p.endOffset && p.lastOffset + p.length1 < p.endOffset && 0 <= p.length2 && p.length2 < p.length1 && (p.length2 != 0 ==> p.xmlDoc[p.lastOffset + p.length2] == ':')
modset mattr(p) := p.attrCount, p.attrNameSlice, elems(p.attrNameSlice), p.prefixedAttCount, p.prefixedAttrNameSlice, elems(p.prefixedAttrNameSlice)
func VtdParser.checkAttrUniqueness(p) (err) {
  requires pwindow(p) && patoff(p) && penc(p) && parrs(p) && pattrs(p) && panames(p) && nameat(p)
  modifies mattr(p)
  invariant 0 <= i && i <= p.attrCount
  invariant unique <==> (forall m in 0..i :: !sameattr(p, p.attrNameSlice[m], p.lastOffset, p.length1))
  invariant forall k in 0..j :: p.xmlDoc[prevOffset + k] == p.xmlDoc[p.lastOffset + k]
  ensures parrs(p)
  ensures err == nil ==> pattrs(p)
  ensures err == nil ==> panames(p)
  ensures [C15] err == nil ==> p.attrCount == old(p.attrCount) + 1 && ano(p.attrNameSlice[old(p.attrCount)]) == p.lastOffset && anl(p.attrNameSlice[old(p.attrCount)]) == p.length1
  ensures [C15] err == nil ==> (forall m in 0..old(p.attrCount) :: p.attrNameSlice[m] == old(p.attrNameSlice[m]))
  ensures [C15] err == nil ==> (forall m in 0..old(p.attrCount) :: !sameattr(p, old(p.attrNameSlice[m]), p.lastOffset, p.length1))
  ensures [C15] err != nil ==> (exists m in 0..old(p.attrCount) :: sameattr(p, old(p.attrNameSlice[m]), p.lastOffset, p.length1))
  ensures [C16] err == nil && old(pprefs(p)) && p.length1 <= 0x7FF ==> pprefs(p)
  ensures [C16] err == nil && p.nsAware && !p.isNs && p.length2 != 0 && !(p.length2 == 3 && xml3(p, p.lastOffset)) ==> p.prefixedAttCount == old(p.prefixedAttCount) + 1 && (p.length1 <= 0x7FF ==> pfo(p.prefixedAttrNameSlice[old(p.prefixedAttCount)]) == p.lastOffset && pfl2(p.prefixedAttrNameSlice[old(p.prefixedAttCount)]) == p.length2 && pfl1(p.prefixedAttrNameSlice[old(p.prefixedAttCount)]) == p.length1)
  ensures [C16] err == nil && !(p.nsAware && !p.isNs && p.length2 != 0 && !(p.length2 == 3 && xml3(p, p.lastOffset))) ==> p.prefixedAttCount == old(p.prefixedAttCount)
  ensures [C16] err == nil ==> (forall m in 0..old(p.prefixedAttCount) :: p.prefixedAttrNameSlice[m] == old(p.prefixedAttrNameSlice[m]))
  ensures arr(p.attrNameSlice) == old(arr(p.attrNameSlice)) || fresh(p.attrNameSlice)
  ensures arr(p.prefixedAttrNameSlice) == old(arr(p.prefixedAttrNameSlice)) || fresh(p.prefixedAttrNameSlice)
}

func VtdParser.qualifyAttributes(p) (err) {
  requires pwindow(p) && patoff(p) && penc(p) && p.nsBuffer3 != nil && valid(p.nsBuffer3) && pnsw(p) && parrs(p) && pattrs(p) && pprefs(p)
  modifies p.prefixUrlSlice, elems(p.prefixUrlSlice)
  define 0 <= i && i < size(p.nsBuffer3) ==> (decl(int(at(p.nsBuffer3, i)), preOs, preLen) <==> declares(p, at(p.nsBuffer3, i), preOs, preLen))
  invariant arr(p.prefixUrlSlice) == old(arr(p.prefixUrlSlice)) || fresh(p.prefixUrlSlice)
  invariant 0 <= j && j <= p.prefixedAttCount && j <= len(p.prefixUrlSlice)
  invariant parrs(p)
  invariant forall q in 0..j :: 0 <= p.prefixUrlSlice[q] && p.prefixUrlSlice[q] < size(p.nsBuffer3)
  invariant forall q in 0..j :: decl(int(at(p.nsBuffer3, p.prefixUrlSlice[q])), pfo(p.prefixedAttrNameSlice[q]), pfl2(p.prefixedAttrNameSlice[q]))
  invariant forall m in (i + 1)..size(p.nsBuffer3) :: !decl(int(at(p.nsBuffer3, m)), preOs, preLen)
  invariant 0 - 1 <= i && i < size(p.nsBuffer3)
  invariant 0 <= k
  invariant k <= preLen
  invariant forall q in 0..k :: p.xmlDoc[offset + q] == p.xmlDoc[preOs + q]
  decreases p.prefixedAttCount - j
  decreases i
  decreases preLen - k
  ensures parrs(p)
  ensures err == nil ==> p.prefixedAttCount <= len(p.prefixUrlSlice)
  ensures err == nil ==> (forall q in 0..p.prefixedAttCount :: 0 <= p.prefixUrlSlice[q] && p.prefixUrlSlice[q] < size(p.nsBuffer3))
  ensures [C16] err == nil ==> (forall q in 0..p.prefixedAttCount :: decl(int(at(p.nsBuffer3, p.prefixUrlSlice[q])), pfo(p.prefixedAttrNameSlice[q]), pfl2(p.prefixedAttrNameSlice[q])))
  ensures [C16] err != nil ==> (exists q in 0..p.prefixedAttCount :: !declared(p, pfo(p.prefixedAttrNameSlice[q]), pfl2(p.prefixedAttrNameSlice[q])))
  ensures arr(p.prefixUrlSlice) == old(arr(p.prefixUrlSlice)) || fresh(p.prefixUrlSlice)
}
func VtdParser.getCharUnit(p, offset) (ch, err) {
  requires pgeo(p) && penc(p) && offset <= 0x100000000
  ensures err == nil <==> 0 <= offset && offset < p.endOffset
  ensures err == nil ==> ch == int32(p.xmlDoc[offset])
}
def rwidth(v) := int(v >> 32)
def rval(v) := int(v) & 0xFFFFFFFF
def rpack(w, c) := (w << 32) | c
# the resolved character at o: its width in the document and its value
def rcv(p, o) := ite(p.xmlDoc[o] != '&', ite(p.xmlDoc[o] == 13 && o + 1 < p.endOffset && p.xmlDoc[o + 1] == 10, rpack(2, 10), rpack(1, int(p.xmlDoc[o]))),
  ite(named(p, o + 1), rpack(namedend(p, o + 1) - o, namedval(p, o + 1)),
    rpack(refend(o + 1) - o, ite(p.xmlDoc[o + 2] == 'x', hexv(o + 3, refend(o + 1) - 1), decv(o + 2, refend(o + 1) - 1)))))
func VtdParser.getCharResolved(p, offset) (v, err) {
  requires pgeo(p) && penc(p) && 0 <= offset && offset < p.endOffset
  requires p.xmlDoc[offset] == '&' ==> okref(offset + 1)
  define okref(old(offset) + 1) ==> named(p, old(offset) + 1) || numericb(p, old(offset) + 1, refend(old(offset) + 1))
  define hexv(old(offset) + 3, old(offset) + 3) == 0 && hexv(old(offset) + 3, offset + 2) == (hexv(old(offset) + 3, offset + 1) << 4) + hexdig(int(p.xmlDoc[offset + 1]))
  define decv(old(offset) + 2, old(offset) + 2) == 0 && decv(old(offset) + 2, offset + 1) == decv(old(offset) + 2, offset) * 10 + (int(p.xmlDoc[offset]) - 48)
  invariant old(offset) + 2 <= offset && offset < refend(old(offset) + 1)
  invariant offset + 1 < refend(old(offset) + 1)
  invariant inc == offset - old(offset)
  invariant p.xmlDoc[old(offset) + 2] == 'x' && int(val) == hexv(old(offset) + 3, offset + 1)
  invariant int(val) == decv(old(offset) + 2, offset)
  invariant inmax(int(val))
  decreases refend(old(offset) + 1) - offset
  ensures err == nil ==> 1 <= rwidth(v) && offset + rwidth(v) <= p.endOffset
  ensures [C16] err == nil && int(v) == rcv(p, offset)
}
# windows whose references are all accepted ones
def refsok(p, o, e) := forall k in o..e :: p.xmlDoc[k] == '&' ==> okref(k + 1)
uf reftext(o, e) bool
# position after n resolved characters
uf rp(o, n) int
func VtdParser.matchUrlPart(p, offset, end, part) (o, matched, err) {
  requires pgeo(p) && penc(p) && 0 <= offset && offset <= p.endOffset && end <= p.endOffset && refsok(p, offset, end)
  define rp(old(offset), 0) == old(offset) && rp(old(offset), i + 1) == rp(old(offset), i) + rwidth(rcv(p, rp(old(offset), i)))
  invariant old(offset) <= offset && offset <= p.endOffset
  invariant 0 <= i && i <= len(part)
  invariant offset == rp(old(offset), i)
  invariant forall k in 0..i :: rp(old(offset), k) < end && rval(rcv(p, rp(old(offset), k))) == int(part[k])
  decreases len(part) - i
  ensures err == nil && offset <= o && o <= p.endOffset
  ensures [C16] matched ==> o == rp(offset, len(part)) && (forall k in 0..len(part) :: rp(offset, k) < end && rval(rcv(p, rp(offset, k))) == int(part[k]))
  ensures [C16] !matched ==> (exists k in 0..len(part) :: rp(offset, k) >= end || rval(rcv(p, rp(offset, k))) != int(part[k]))
}
# the same text once references and line ends are resolved
uf eqtext(a, ea, b, eb) bool
def eqstep(p, a, ea, b, eb) := eqtext(a, ea, b, eb) <==> ite(a < ea && b < eb, rval(rcv(p, a)) == rval(rcv(p, b)) && eqtext(a + rwidth(rcv(p, a)), ea, b + rwidth(rcv(p, b)), eb), a == ea && b == eb)
def uo(v) := int(uint64(v) >> 32)
def ul(v) := int(uint64(v) & 0xFFFFFFFF)
def urlok(p, u) := 0 <= u.offset && 0 <= u.length && u.offset <= p.endOffset && u.length <= p.endOffset && u.offset + u.length <= p.endOffset && refsok(p, u.offset, u.offset + u.length)
func VtdParser.matchUrl(p, a, b) (r, err) {
  requires pgeo(p) && penc(p) && urlok(p, a) && urlok(p, b)
  define eqstep(p, a.offset, endA, b.offset, endB)
  invariant old(a.offset) <= a.offset && a.offset <= p.endOffset
  invariant old(b.offset) <= b.offset && b.offset <= p.endOffset
  invariant endA <= p.endOffset && endB <= p.endOffset
  invariant eqtext(old(a.offset), endA, old(b.offset), endB) <==> eqtext(a.offset, endA, b.offset, endB)
  decreases endA - a.offset
  ensures err == nil
  ensures [C16] r <==> eqtext(a.offset, a.offset + a.length, b.offset, b.offset + b.length)
}
def textis(p, o, e, s) := rp(o, len(s)) == e && (forall k in 0..len(s) :: rp(o, k) < e && rval(rcv(p, rp(o, k))) == int(s[k]))
def textstarts(p, o, e, s) := forall k in 0..len(s) :: rp(o, k) < e && rval(rcv(p, rp(o, k))) == int(s[k])
func VtdParser.identifyNsUrl(p) (t, err) {
  requires pgeo(p) && penc(p) && 0 <= p.lastOffset && p.lastOffset <= p.endOffset && 0 <= p.length1 && p.length1 <= p.endOffset && p.lastOffset + p.length1 <= p.endOffset && refsok(p, p.lastOffset, p.lastOffset + p.length1)
  ensures err == nil && 0 <= int(t) && int(t) <= 2
  ensures [C16] int(t) == 2 ==> textstarts(p, p.lastOffset, p.lastOffset + p.length1, "http://www.w3.org/") && textis(p, rp(p.lastOffset, 18), p.lastOffset + p.length1, "XML/1998/namespace")
  ensures [C16] int(t) == 1 ==> textstarts(p, p.lastOffset, p.lastOffset + p.length1, "http://www.w3.org/") && textis(p, rp(p.lastOffset, 18), p.lastOffset + p.length1, "2000/xmlns/")
  ensures [C16] p.length1 >= 29 && textstarts(p, p.lastOffset, p.lastOffset + p.length1, "http://www.w3.org/") && textis(p, rp(p.lastOffset, 18), p.lastOffset + p.length1, "XML/1998/namespace") ==> int(t) == 2
  ensures [C16] p.length1 >= 29 && textstarts(p, p.lastOffset, p.lastOffset + p.length1, "http://www.w3.org/") && textis(p, rp(p.lastOffset, 18), p.lastOffset + p.length1, "2000/xmlns/") ==> int(t) == 1
}

# two qualified names are the same when local parts and declared urls are
def lol(v) := pfl1(v) - pfl2(v) - 1
def loo(v) := pfo(v) + pfl2(v) + 1
def samelocal(p, v, w) := lol(v) == lol(w) && (forall k in 0..lol(v) :: p.xmlDoc[loo(v) + k] == p.xmlDoc[loo(w) + k])
uf samel(v, w) bool
def uokw(p, u) := 0 <= uo(u) && 0 <= ul(u) && uo(u) <= p.endOffset && ul(u) <= p.endOffset && uo(u) + ul(u) <= p.endOffset && reftext(uo(u), uo(u) + ul(u))
def puok(p) := forall i in 0..size(p.nsBuffer2) :: uokw(p, at(p.nsBuffer2, i))
def sameurl(u, w) := eqtext(uo(u), uo(u) + ul(u), uo(w), uo(w) + ul(w))
def qurl(p, i) := at(p.nsBuffer2, p.prefixUrlSlice[i])
def clash(p, i, j) := samel(int(p.prefixedAttrNameSlice[i]), int(p.prefixedAttrNameSlice[j])) && sameurl(qurl(p, i), qurl(p, j))
# clashes(o, i, j): the attributes i and j of the start tag that ends at o have the same qualified name
uf clashes(o, i, j) bool
func VtdParser.checkQualifiedAttributeUniqueness(p) (err) {
  requires pgeo(p) && penc(p) && patoff(p) && p.nsBuffer2 != nil && valid(p.nsBuffer2) && puok(p) && parrs(p) && pattrs(p) && pprefs(p)
  requires p.prefixedAttCount <= len(p.prefixUrlSlice) && (forall q in 0..p.prefixedAttCount :: 0 <= p.prefixUrlSlice[q] && p.prefixUrlSlice[q] < size(p.nsBuffer2))
  define 0 <= i && i < j && j < p.prefixedAttCount ==> (samel(int(p.prefixedAttrNameSlice[i]), int(p.prefixedAttrNameSlice[j])) <==> samelocal(p, p.prefixedAttrNameSlice[i], p.prefixedAttrNameSlice[j]))
  define 0 <= i && i < j && j < p.prefixedAttCount ==> (reftext(uo(qurl(p, i)), uo(qurl(p, i)) + ul(qurl(p, i))) ==> refsok(p, uo(qurl(p, i)), uo(qurl(p, i)) + ul(qurl(p, i))))
  define 0 <= i && i < j && j < p.prefixedAttCount ==> (reftext(uo(qurl(p, j)), uo(qurl(p, j)) + ul(qurl(p, j))) ==> refsok(p, uo(qurl(p, j)), uo(qurl(p, j)) + ul(qurl(p, j))))
  define 0 <= i && i < j && j < p.prefixedAttCount ==> (clashes(p.offset, i, j) <==> clash(p, i, j))
  invariant 0 <= i && i <= p.prefixedAttCount
  invariant i < j && j <= p.prefixedAttCount
  invariant offset == loo(p.prefixedAttrNameSlice[i])
  invariant postLen == lol(p.prefixedAttrNameSlice[i])
  invariant urlA.offset == uo(qurl(p, i))
  invariant urlA.length == ul(qurl(p, i))
  invariant offset2 == loo(p.prefixedAttrNameSlice[j])
  invariant postLen2 == lol(p.prefixedAttrNameSlice[j])
  invariant forall b in (i + 1)..j :: !clashes(p.offset, i, b)
  invariant forall a in 0..i :: (forall b in (a + 1)..p.prefixedAttCount :: !clashes(p.offset, a, b))
  invariant 0 <= k
  invariant k <= postLen
  invariant forall q in 0..k :: p.xmlDoc[offset + q] == p.xmlDoc[offset2 + q]
  decreases p.prefixedAttCount - i
  decreases p.prefixedAttCount - j
  decreases postLen - k
  ensures [C16] err == nil ==> (forall a in 0..p.prefixedAttCount :: (forall b in (a + 1)..p.prefixedAttCount :: !clashes(p.offset, a, b)))
  ensures [C16] err != nil ==> (exists a in 0..p.prefixedAttCount :: (exists b in (a + 1)..p.prefixedAttCount :: clashes(p.offset, a, b)))
}

# ---------------------------------------------------------------- the states
# what holds between any two steps
def pmono2(p) := forall j in 0..size(p.nsBuffer1) :: (forall i in 0..j :: at(p.nsBuffer1, i) <= at(p.nsBuffer1, j))
# no more declarations than characters read
def pspaces(p) := size(p.nsBuffer3) <= p.offset - p.docOffset && pnsw(p) && puok(p) && pscope(p) && pmono2(p) && cew(p.currentElementRecord, p)
def pbase0(p) := pread(p) && pbufs(p) && parrs(p) && !p.ws && p.length2 == 0
def pbase(p) := pbase0(p) && p.docOffset <= p.lastOffset && p.lastOffset <= p.offset
def pquiet(p) := p.attrCount == 0 && p.prefixedAttCount == 0 && !p.isNs && !p.isXml && size(p.nsBuffer2) == size(p.nsBuffer3)
# outside of tags: the names of the open elements are known, and so is what they declare
def popen(p) := 0 - 1 <= p.depth && p.depth <= 254 && ptags(p, p.depth + 1) && (p.nsAware ==> size(p.nsBuffer1) >= p.depth + 1) && (p.depth == 0 - 1 ==> size(p.nsBuffer1) == 0)
def pout0(p) := pbase0(p) && pspaces(p) && pquiet(p) && popen(p)
def pout(p) := pbase(p) && pspaces(p) && pquiet(p) && popen(p) && penc(p)
# before the root element
def pprolog(p) := pout(p) && p.depth == 0 - 1
# after the root element
def pdone(p) := pbase(p) && penc(p) && p.depth == 0 - 1
# a start tag whose name is being read
def ptag(p) := pbase(p) && penc(p) && pspaces(p) && pquiet(p) && 0 <= p.depth && p.depth <= 255 && ptags(p, p.depth) && (p.nsAware ==> size(p.nsBuffer1) >= p.depth) && (p.depth == 0 ==> size(p.nsBuffer1) == 0) && p.lastOffset == p.offset - 1
# inside a start tag
def pintag(p) := pbase(p) && penc(p) && pspaces(p) && 0 <= p.depth && p.depth <= 254 && ptags(p, p.depth + 1) && (p.nsAware ==> size(p.nsBuffer1) == p.depth) && (!p.nsAware ==> p.depth == 0 ==> size(p.nsBuffer1) == 0) && pattrs(p) && panames(p) && pprefs(p) && (!p.nsAware ==> p.prefixedAttCount == 0)
def paname(p) := pintag(p) && p.lastOffset == p.offset - 1 && p.currentChar == uint32(p.xmlDoc[p.offset - 1]) && common.isStart(int(p.currentChar)) && !p.isNs && !p.isXml && size(p.nsBuffer2) == size(p.nsBuffer3)
def paval(p) := pintag(p) && p.lastOffset == p.offset && (p.isXml ==> p.isNs && p.nsAware && !p.defaultNs) && size(p.nsBuffer3) == size(p.nsBuffer2) + ite(p.nsAware && p.isNs && !p.isXml && !p.defaultNs, 1, 0)

modset mstep(p) := mnext(p), mvtd(p), p.lastOffset, p.length1
func VtdParser.processText(p) (s, err) {
  requires pout(p)
  requires [C12] ptoks(p)
  modifies mstep(p)
  invariant pread(p) && old(p.offset) <= p.offset
  decreases p.endOffset - p.offset
  ensures err == nil ==> int(s) == 0 && pout(p)
  ensures [C11] err == nil ==> old(p.offset) < p.offset
  ensures [C12] err == nil ==> ptoks(p)
}
def outnext(p, s) := (int(s) == 0 || int(s) == 5) && pout(p)
# where a comment, a CDATA section and a processing instruction end
def dashes(p, k) := k + 1 < p.endOffset && p.xmlDoc[k] == '-' && p.xmlDoc[k + 1] == '-'
def cdclose(p, k) := k + 2 < p.endOffset && p.xmlDoc[k] == ']' && p.xmlDoc[k + 1] == ']' && p.xmlDoc[k + 2] == '>'
def piclose(p, k) := k + 1 < p.endOffset && p.xmlDoc[k] == '?' && p.xmlDoc[k + 1] == '>'
func VtdParser.processCdata(p) (s, err) {
  requires pout(p)
  requires [C12] ptoks(p)
  modifies mstep(p)
  invariant pread(p) && old(p.offset) <= p.offset
  invariant forall k in old(p.offset)..p.offset :: !cdclose(p, k)
  invariant forall k in old(p.offset)..(p.offset - 2) :: !cdclose(p, k)
  invariant old(p.offset) + 2 <= p.offset && p.xmlDoc[p.offset - 1] == ']' && p.xmlDoc[p.offset - 2] == ']'
  decreases p.endOffset - p.offset
  decreases p.endOffset - p.offset
  ensures err == nil ==> outnext(p, s)
  ensures [C17] err == nil ==> p.length1 == p.lastOffset - 3 - old(p.lastOffset) && old(p.offset) <= p.lastOffset - 3 && cdclose(p, p.lastOffset - 3)
  ensures [C17] err == nil ==> (forall k in old(p.offset)..(p.lastOffset - 3) :: !cdclose(p, k))
  ensures [C11] err == nil ==> old(p.offset) < p.offset
  ensures [C12] err == nil ==> ptoks(p)
}
func VtdParser.processDocType(p) (s, err) {
  requires pprolog(p)
  requires [C12] ptoks(p)
  modifies mstep(p)
  invariant pread(p) && old(p.offset) <= p.offset
  decreases p.endOffset - p.offset
  ensures err == nil ==> int(s) == 0 && pprolog(p)
  ensures [C11] err == nil ==> old(p.offset) < p.offset
  ensures [C12] err == nil ==> ptoks(p)
}
func VtdParser.processStartComment(p) (s, err) {
  requires pout(p)
  requires [C12] ptoks(p)
  modifies mstep(p)
  invariant pread(p) && old(p.offset) <= p.offset
  invariant forall k in old(p.offset)..p.offset :: !dashes(p, k)
  decreases p.endOffset - p.offset
  ensures err == nil ==> outnext(p, s)
  ensures [C17] err == nil ==> p.length1 == p.lastOffset - 3 - old(p.lastOffset) && old(p.offset) <= p.lastOffset - 3 && dashes(p, p.lastOffset - 3) && p.xmlDoc[p.lastOffset - 1] == '>'
  ensures [C17] err == nil ==> (forall k in old(p.offset)..(p.lastOffset - 3) :: !dashes(p, k))
  ensures [C11] err == nil ==> old(p.offset) < p.offset
  ensures [C12] err == nil ==> ptoks(p)
}
func VtdParser.processEndComment(p) (s, err) {
  requires pdone(p)
  requires [C12] ptoks(p)
  modifies mstep(p)
  invariant pread(p) && old(p.offset) <= p.offset
  invariant forall k in old(p.offset)..p.offset :: !dashes(p, k)
  decreases p.endOffset - p.offset
  ensures err == nil ==> int(s) == 7 && pdone(p)
  ensures [C17] err == nil ==> p.length1 == p.offset - 3 - old(p.lastOffset) && old(p.offset) <= p.offset - 3 && dashes(p, p.offset - 3) && p.xmlDoc[p.offset - 1] == '>'
  ensures [C17] err == nil ==> (forall k in old(p.offset)..(p.offset - 3) :: !dashes(p, k))
  ensures [C11] err == nil ==> old(p.offset) < p.offset
  ensures [C12] err == nil ==> ptoks(p)
}
func VtdParser.processPiTag(p) (s, err) {
  requires pout(p)
  requires [C12] ptoks(p)
  modifies mstep(p)
  invariant pread(p) && old(p.offset) <= p.offset
  decreases p.endOffset - p.offset
  ensures err == nil ==> (int(s) == 0 || int(s) == 5 || int(s) == 9) && pout(p)
  ensures [C11] err == nil ==> old(p.offset) < p.offset
  ensures [C12] err == nil ==> ptoks(p)
}
func VtdParser.processPiVal(p) (s, err) {
  requires pout(p)
  requires [C12] ptoks(p)
  modifies mstep(p)
  invariant pread(p) && old(p.offset) <= p.offset
  invariant forall k in old(p.offset)..p.offset :: !piclose(p, k)
  decreases p.endOffset - p.offset
  ensures err == nil ==> outnext(p, s)
  ensures [C17] err == nil ==> p.length1 == p.lastOffset - 2 - old(p.offset) && 0 <= p.length1 && piclose(p, p.lastOffset - 2) && common.isSpace(int(old(p.currentChar)))
  ensures [C17] err == nil ==> (forall k in old(p.offset)..(p.lastOffset - 2) :: !piclose(p, k))
  ensures [C11] err == nil ==> old(p.offset) < p.offset
  ensures [C12] err == nil ==> ptoks(p)
}
func VtdParser.processPiEnd(p) (s, err) {
  requires pdone(p)
  requires [C12] ptoks(p)
  modifies mstep(p)
  invariant pread(p) && old(p.offset) <= p.offset
  invariant old(p.offset) < p.offset
  decreases p.endOffset - p.offset
  ensures err == nil ==> int(s) == 7 && pdone(p)
  ensures [C11] err == nil ==> old(p.offset) < p.offset
  ensures [C12] err == nil ==> ptoks(p)
}
func VtdParser.processDocEnd(p) (s, err) {
  requires pdone(p)
  modifies mnext(p), p.lastOffset
  ensures err == nil ==> (int(s) == 15 || int(s) == 12) && pdone(p)
  ensures [C11] err == nil ==> old(p.offset) < p.offset
}
func VtdParser.processEndTag(p) (s, err) {
  requires pout(p)
  modifies mnext(p), p.lastOffset, p.depth
  decreases sLength - i
  invariant forall k in 0..i :: p.xmlDoc[sOffset + k] == p.xmlDoc[p.lastOffset + k]
  ensures err == nil ==> (int(s) == 7 && pdone(p)) || (outnext(p, s) && 0 <= p.depth)
  ensures [C14] err == nil ==> 0 <= old(p.depth) && p.depth == old(p.depth) - 1
  ensures [C14] err == nil ==> (forall k in 0..tlen(p.tagStack[old(p.depth)]) :: p.xmlDoc[toff(p.tagStack[old(p.depth)]) + k] == p.xmlDoc[old(p.offset) + k])
  ensures [C14] err == nil && p.depth == 0 - 1 ==> p.xmlDoc[p.offset - 1] == '>' && old(p.offset) + tlen(p.tagStack[old(p.depth)]) < p.offset && (forall k in (old(p.offset) + tlen(p.tagStack[old(p.depth)]))..(p.offset - 1) :: common.isSpace(int(p.xmlDoc[k])))
  ensures [C14] err == nil && p.depth != 0 - 1 ==> p.xmlDoc[p.lastOffset - 1] == '>' && old(p.offset) + tlen(p.tagStack[old(p.depth)]) < p.lastOffset && (forall k in (old(p.offset) + tlen(p.tagStack[old(p.depth)]))..(p.lastOffset - 1) :: common.isSpace(int(p.xmlDoc[k])))
  ensures [C11] err == nil ==> old(p.offset) < p.offset
}
def ptail(p) := pbase(p) && penc(p) && (p.depth != 0 - 1 ==> pspaces(p) && pquiet(p) && popen(p))
func VtdParser.processElementTail(p) (s, err) {
  requires ptail(p)
  requires [C12] ptoks(p)
  modifies mstep(p)
  ensures err == nil ==> (int(s) == 7 && pdone(p)) || ((int(s) == 0 || int(s) == 2 || int(s) == 5) && pout(p))
  ensures [C11] err == nil ==> old(p.offset) <= p.offset
  ensures [C12] err == nil ==> ptoks(p)
}
modset mopen(p) := mnext(p), p.lastOffset, p.depth
func VtdParser.processExSeen(p) (s, err) {
  requires pout(p)
  modifies mread(p), p.lastOffset
  ensures err == nil ==> ((int(s) == 11 || int(s) == 13) && pout(p)) || (int(s) == 14 && pprolog(p))
  ensures [C11] err == nil ==> old(p.offset) < p.offset
}
func VtdParser.processQmSeen(p) (s, err) {
  requires pout(p)
  modifies mread(p), p.lastOffset
  ensures err == nil ==> int(s) == 8 && pout(p)
  ensures [C11] err == nil ==> old(p.offset) < p.offset
}
func VtdParser.processLtSeen(p) (s, err) {
  requires pout0(p) && penc2(p)
  modifies mopen(p)
  ensures [C14] err == nil && int(s) == 1 ==> p.depth == old(p.depth) + 1 && p.lastOffset == old(p.offset)
  ensures [C14] err == nil && int(s) != 1 ==> p.depth == old(p.depth)
  ensures err == nil ==> (int(s) == 1 && ptag(p)) || ((int(s) == 2 || int(s) == 8 || int(s) == 11 || int(s) == 13) && pout(p)) || (int(s) == 14 && pprolog(p))
  ensures [C11] err == nil ==> old(p.offset) < p.offset
}
def pdec(p) := pprolog(p) && p.docOffset < p.lastOffset && p.lastOffset == p.offset && p.currentChar == uint32(p.xmlDoc[p.offset - 1])
func VtdParser.processDocStart(p) (s, err) {
  requires pout0(p) && penc1(p) && p.depth == 0 - 1 && p.offset == p.docOffset
  modifies mopen(p)
  ensures err == nil ==> (int(s) == 10 && pdec(p)) || (int(s) == 0 && pout0(p) && penc2(p) && p.depth == 0 - 1) || (int(s) == 0 - 1 && patoff(p))
  ensures [C11] err == nil ==> old(p.offset) < p.offset
}
modset mtag(p) := mopen(p), mvtd(p), mlc(p), p.length1, p.length2, elems(p.tagStack), p.vtdDepth, p.currentElementRecord, p.helper, size(p.nsBuffer1), at(p.nsBuffer1), size(p.nsBuffer2), size(p.nsBuffer3)
def tagnext(p, s) := (int(s) == 7 && pdone(p)) || ((int(s) == 0 || int(s) == 2 || int(s) == 5) && pout(p))
func VtdParser.processStartTag(p) (s, err) {
  requires ptag(p)
  requires [C12] ptoks(p)
  modifies mtag(p)
  split p.shallowDepth
  split p.nsAware
  hint [writeVtd, writeVtdL5] ptags(p, p.depth + 1)
  invariant pread(p) && old(p.offset) <= p.offset
  invariant 0 <= p.length2 && p.length2 < p.offset - p.lastOffset
  invariant p.length2 != 0 ==> p.xmlDoc[p.lastOffset + p.length2] == ':'
  invariant forall k in (p.lastOffset + 1)..p.offset :: common.isName(int(p.xmlDoc[k]))
  decreases p.endOffset - p.offset
  ensures err == nil ==> tagnext(p, s) || (int(s) == 3 && paname(p))
  ensures [C14] err == nil ==> toff(p.tagStack[old(p.depth)]) == old(p.lastOffset)
  ensures [C14] err == nil ==> (forall k in 1..tlen(p.tagStack[old(p.depth)]) :: common.isName(int(p.xmlDoc[old(p.lastOffset) + k])))
  ensures [C14] err == nil ==> !common.isName(int(p.xmlDoc[old(p.lastOffset) + tlen(p.tagStack[old(p.depth)])]))
  ensures [C14] err == nil ==> (forall d in 0..old(p.depth) :: p.tagStack[d] == old(p.tagStack[d]))
  ensures [C14] err == nil && int(s) == 3 ==> p.depth == old(p.depth)
  ensures [C11] err == nil ==> old(p.offset) < p.offset
  ensures [C12] err == nil ==> ptoks(p)
}
func VtdParser.processAttrName(p) (s, err) {
  requires paname(p)
  requires [C12] ptoks(p)
  modifies mnext(p), mvtd(p), p.lastOffset, p.length1, p.length2, p.isNs, p.isXml, p.defaultNs, mattr(p), size(p.nsBuffer3), at(p.nsBuffer3)
  invariant pread(p) && old(p.offset) <= p.offset
  invariant p.currentChar == uint32(p.xmlDoc[p.offset - 1])
  invariant p.offset > old(p.offset) || common.isStart(int(p.currentChar))
  invariant 0 <= p.length2 && p.length2 < p.offset - p.lastOffset
  invariant p.length2 != 0 ==> p.xmlDoc[p.lastOffset + p.length2] == ':'
  invariant p.length2 != 0 ==> p.length2 < p.offset - 1 - p.lastOffset
  invariant p.isNs && !p.defaultNs ==> p.length2 != 0 || p.currentChar == ':'
  invariant p.isNs && p.defaultNs ==> p.length2 == 0 && !common.isName(int(p.currentChar))
  decreases p.endOffset - p.offset
  ensures err == nil ==> int(s) == 4 && paval(p)
  ensures [C11] err == nil ==> old(p.offset) < p.offset
  ensures [C12] err == nil ==> ptoks(p)
  ensures arr(p.attrNameSlice) == old(arr(p.attrNameSlice)) || fresh(p.attrNameSlice)
  ensures arr(p.prefixedAttrNameSlice) == old(arr(p.prefixedAttrNameSlice)) || fresh(p.prefixedAttrNameSlice)
}
func VtdParser.processAttrVal(p) (s, err) {
  requires paval(p)
  requires [C12] ptoks(p)
  modifies mopen(p), mvtd(p), p.length1, p.isXml, p.isNs, p.helper, size(p.nsBuffer1), at(p.nsBuffer1), size(p.nsBuffer2), at(p.nsBuffer2), p.attrCount, p.prefixedAttCount, p.prefixUrlSlice, elems(p.prefixUrlSlice)
  split p.nsAware
  hint [writeVtdWithLengthCheck, qualifyAttributes, qualifyElement, processElementTail] size(p.nsBuffer2) == size(p.nsBuffer3) && size(p.nsBuffer3) <= p.offset - p.docOffset && puok(p)
  define refsok(p, p.lastOffset, p.offset) ==> reftext(p.lastOffset, p.offset)
  invariant pread(p) && old(p.offset) <= p.offset
  invariant refsok(p, p.lastOffset, p.offset)
  decreases p.endOffset - p.offset
  ensures err == nil ==> tagnext(p, s) || (int(s) == 3 && paname(p))
  ensures [C11] err == nil ==> old(p.offset) < p.offset
  ensures [C12] err == nil ==> ptoks(p)
  ensures arr(p.prefixUrlSlice) == old(arr(p.prefixUrlSlice)) || fresh(p.prefixUrlSlice)
}

# ---------------------------------------------------------------- the XML declaration
modset mdece(p) := mread(p), mvtd(p), p.encoding, p.reader
modset mdec(p) := mnext(p), mvtd(p), p.lastOffset, p.encoding, p.reader
def quote(c) := c == 39 || c == 34
# the record v stands for the text between two equal quotes
def quoted(p, v) := 0 < roff(v) && roff(v) + rlen(v) < p.endOffset && quote(int(p.xmlDoc[roff(v) - 1])) && p.xmlDoc[roff(v) + rlen(v)] == p.xmlDoc[roff(v) - 1]
def textat(p, o, s) := forall k in 0..len(s) :: p.xmlDoc[o + k] == s[k]
def textnc(p, o, s) := forall k in 0..len(s) :: nocase(int(p.xmlDoc[o + k]), int(s[k]))
def vtext(p, v, s) := rlen(v) == len(s) && textat(p, roff(v), s)
def vtextnc(p, v, s) := rlen(v) == len(s) && textnc(p, roff(v), s)
# the first letter of the declared encoding has been read
def penca(p) := pprolog(p) && p.lastOffset == p.offset - 1 && p.currentChar == uint32(p.xmlDoc[p.offset - 1])
def lastval(p) := at(p.vtdBuffer, size(p.vtdBuffer) - 1)
func VtdParser.checkAsciiEncoding(p) (err) {
  requires penca(p) && (p.currentChar == 'a' || p.currentChar == 'A')
  requires [C12] ptoks(p)
  modifies mdece(p)
  ensures p.reader == old(p.reader) || fresh(p.reader)
  ensures err == nil ==> pprolog(p) && old(p.offset) < p.offset
  ensures [C12] err == nil ==> ptoks(p)
  ensures [C21] err == nil ==> size(p.vtdBuffer) == old(size(p.vtdBuffer)) + 1 && rtype(lastval(p)) == 10 && vtextnc(p, lastval(p), "ascii") && roff(lastval(p)) == old(p.lastOffset) && p.offset == old(p.lastOffset) + 5
  ensures [C12] err == nil ==> forall i in 0..old(size(p.vtdBuffer)) :: at(p.vtdBuffer, i) == old(at(p.vtdBuffer, i))
}
func VtdParser.checkUsAsciiEncoding(p) (err) {
  requires pprolog(p) && p.lastOffset == p.offset - 2 && nocase(int(p.xmlDoc[p.lastOffset]), 'u') && nocase(int(p.xmlDoc[p.lastOffset + 1]), 's')
  requires [C12] ptoks(p)
  modifies mdece(p)
  ensures p.reader == old(p.reader) || fresh(p.reader)
  ensures err == nil ==> pprolog(p) && old(p.offset) < p.offset
  ensures [C12] err == nil ==> ptoks(p)
  ensures [C21] err == nil ==> size(p.vtdBuffer) == old(size(p.vtdBuffer)) + 1 && rtype(lastval(p)) == 10 && vtextnc(p, lastval(p), "us-ascii") && roff(lastval(p)) == old(p.lastOffset) && p.offset == old(p.lastOffset) + 8
  ensures [C12] err == nil ==> forall i in 0..old(size(p.vtdBuffer)) :: at(p.vtdBuffer, i) == old(at(p.vtdBuffer, i))
}
func VtdParser.checkUtfEncoding(p) (err) {
  requires penca(p) && (p.currentChar == 'u' || p.currentChar == 'U')
  requires [C12] ptoks(p)
  modifies mdece(p)
  ensures p.reader == old(p.reader) || fresh(p.reader)
  ensures err == nil ==> pprolog(p) && old(p.offset) < p.offset
  ensures [C12] err == nil ==> ptoks(p)
  ensures [C21] err == nil ==> size(p.vtdBuffer) == old(size(p.vtdBuffer)) + 1 && rtype(lastval(p)) == 10 && vtextnc(p, lastval(p), "utf-8") && roff(lastval(p)) == old(p.lastOffset) && p.offset == old(p.lastOffset) + 5
  ensures [C12] err == nil ==> forall i in 0..old(size(p.vtdBuffer)) :: at(p.vtdBuffer, i) == old(at(p.vtdBuffer, i))
}
func VtdParser.checkIsoEncoding(p) (err) {
  requires penca(p)
  modifies mdece(p)
  ensures err != nil
}
func VtdParser.checkCpEncoding(p) (err) {
  requires penca(p)
  modifies mdece(p)
  ensures err != nil
}
func VtdParser.checkWindowsEncoding(p) (err) {
  requires penca(p)
  modifies mdece(p)
  ensures err != nil
}
func VtdParser.setWinEncoding(p) (err) {
  ensures err != nil
}
func VtdParser.setIsoEncoding(p) (n, err) {
  ensures n == 0 && err == nil
}
def encname(p, v) := vtextnc(p, v, "ascii") || vtextnc(p, v, "us-ascii") || vtextnc(p, v, "utf-8")
func VtdParser.processDecEncodingAttr(p) (err) {
  requires pprolog(p) && p.lastOffset + 8 <= p.offset
  requires [C12] ptoks(p)
  modifies mdec(p)
  ensures p.reader == old(p.reader) || fresh(p.reader)
  hint [nextChar, nextCharAfterWs] pprolog(p) && ptoks(p) && size(p.vtdBuffer) >= old(size(p.vtdBuffer))
  hint [nextChar, nextCharAfterWs] forall i in 0..old(size(p.vtdBuffer)) :: at(p.vtdBuffer, i) == old(at(p.vtdBuffer, i))
  hint [nextChar, nextCharAfterWs] p.reader == old(p.reader) || fresh(p.reader)
  hint [nextChar, nextCharAfterWs] size(p.vtdBuffer) == old(size(p.vtdBuffer)) + 2 ==> recis(at(p.vtdBuffer, old(size(p.vtdBuffer))), 9, old(p.lastOffset), 8, 0 - 1)
  hint [nextChar, nextCharAfterWs] size(p.vtdBuffer) == old(size(p.vtdBuffer)) + 2 ==> rtype(lastval(p)) == 10 && roff(lastval(p)) == p.lastOffset
  hint [nextChar, nextCharAfterWs] size(p.vtdBuffer) == old(size(p.vtdBuffer)) + 2 ==> 0 < p.lastOffset && p.lastOffset + rlen(lastval(p)) <= p.offset
  hint [nextChar, nextCharAfterWs] size(p.vtdBuffer) == old(size(p.vtdBuffer)) + 2 ==> encname(p, lastval(p))
  hint [nextChar, nextCharAfterWs] size(p.vtdBuffer) == old(size(p.vtdBuffer)) + 2 ==> quote(int(p.xmlDoc[p.lastOffset - 1]))
  hint [nextCharAfterWs] size(p.vtdBuffer) == old(size(p.vtdBuffer)) + 2 ==> p.lastOffset + rlen(lastval(p)) < p.endOffset && p.xmlDoc[p.lastOffset + rlen(lastval(p))] == p.xmlDoc[p.lastOffset - 1]
  ensures err == nil ==> pprolog(p) && old(p.offset) < p.offset && p.lastOffset == p.offset - 1 && p.currentChar == uint32(p.xmlDoc[p.offset - 1])
  ensures [C12] err == nil ==> ptoks(p)
  ensures [C21] err == nil ==> size(p.vtdBuffer) == old(size(p.vtdBuffer)) + 2
  ensures [C21] err == nil ==> recis(at(p.vtdBuffer, old(size(p.vtdBuffer))), 9, old(p.lastOffset), 8, 0 - 1)
  ensures [C21] err == nil ==> rtype(lastval(p)) == 10 && quoted(p, lastval(p)) && encname(p, lastval(p))
  ensures [C12] err == nil ==> forall i in 0..old(size(p.vtdBuffer)) :: at(p.vtdBuffer, i) == old(at(p.vtdBuffer, i))
}
func VtdParser.processDecStandaloneAttr(p) (err) {
  requires pprolog(p) && p.lastOffset + 10 <= p.offset
  requires [C12] ptoks(p)
  modifies mdec(p)
  ensures p.reader == old(p.reader) || fresh(p.reader)
  hint [nextChar, nextCharAfterWs] pprolog(p) && ptoks(p) && size(p.vtdBuffer) >= old(size(p.vtdBuffer))
  hint [nextChar, nextCharAfterWs] size(p.vtdBuffer) == old(size(p.vtdBuffer)) + 2 ==> recis(at(p.vtdBuffer, old(size(p.vtdBuffer))), 9, old(p.lastOffset), 10, 0 - 1) && rtype(lastval(p)) == 10 && (vtext(p, lastval(p), "yes") || vtext(p, lastval(p), "no")) && 0 < roff(lastval(p)) && roff(lastval(p)) == p.lastOffset && p.offset == p.lastOffset + rlen(lastval(p)) && quote(int(p.xmlDoc[roff(lastval(p)) - 1]))
  ensures err == nil ==> pprolog(p) && old(p.offset) < p.offset && p.currentChar == uint32(p.xmlDoc[p.offset - 1])
  ensures [C12] err == nil ==> ptoks(p)
  ensures [C21] err == nil ==> size(p.vtdBuffer) == old(size(p.vtdBuffer)) + 2
  ensures [C21] err == nil ==> recis(at(p.vtdBuffer, old(size(p.vtdBuffer))), 9, old(p.lastOffset), 10, 0 - 1)
  ensures [C21] err == nil ==> rtype(lastval(p)) == 10 && quoted(p, lastval(p)) && (vtext(p, lastval(p), "yes") || vtext(p, lastval(p), "no"))
  ensures [C12] err == nil ==> forall i in 0..old(size(p.vtdBuffer)) :: at(p.vtdBuffer, i) == old(at(p.vtdBuffer, i))
}
func VtdParser.processDecAttrName(p) (s, err) {
  requires pdec(p)
  requires [C12] ptoks(p)
  modifies mdec(p)
  ensures p.reader == old(p.reader) || fresh(p.reader)
  hint [skipCharSeq, skipChar, nextChar, nextCharAfterWs] pprolog(p)
  hint [skipCharSeq, nextChar, nextCharAfterWs] ptoks(p)
  hint [skipCharSeq, skipChar, nextChar, nextCharAfterWs] p.reader == old(p.reader) || fresh(p.reader)
  ensures err == nil ==> int(s) == 0 && pprolog(p)
  ensures [C11] err == nil ==> old(p.offset) < p.offset
  ensures [C12] err == nil ==> ptoks(p)
}

# ---------------------------------------------------------------- construction
# what options leave behind: a window that may still be refused
def popt(p) := p.docOffset == p.offset && p.docLength == p.length && p.endOffset == p.offset + p.length
functype Option(p) {
  requires p != nil && popt(p)
  modifies p.xmlDoc, p.offset, p.docOffset, p.length, p.docLength, p.endOffset, p.nsAware, p.bufferReuse, p.shallowDepth
  ensures [C20] popt(p)
}
# before the first step: nothing read, nothing recorded
def pzero(p) := p.lastOffset == 0 && p.length1 == 0 && p.length2 == 0 && p.attrCount == 0 && p.prefixedAttCount == 0 && p.currentElementRecord == 0 && !p.isNs && !p.isXml && !p.ws && !p.mustUtf8 && !p.bomDetected &&
  p.depth == 0 - 1 && p.lastDepth == 0 && p.encoding == 0 && p.increment == 1 && p.singleByteEncoding
def pempty(p) := size(p.vtdBuffer) == 0 && size(p.l1Buffer) == 0 && size(p.l2Buffer) == 0 && size(p.l3Buffer) == 0 && (!p.shallowDepth ==> size(p.l4Buffer) == 0 && size(p.l5Buffer) == 0) && size(p.nsBuffer1) == 0 && size(p.nsBuffer2) == 0 && size(p.nsBuffer3) == 0
def pbig(p) := 0 <= p.docOffset && p.docOffset < p.endOffset && p.endOffset <= len(p.xmlDoc) && p.offset == p.docOffset && p.docLength == p.endOffset - p.docOffset
def pready(p) := pbig(p) && preader(p) && pos(p.reader) == p.offset && pchars(p) && pbufs(p) && parrs(p) && pzero(p) && pempty(p)
modset mbufs(p) := p.vtdBuffer, p.l1Buffer, p.l2Buffer, p.l3Buffer
func VtdParser.initWithShallowDepth(p) (err) {
  modifies mbufs(p)
  ensures err == nil ==> fresh(p.vtdBuffer) && fresh(p.l1Buffer) && fresh(p.l2Buffer) && fresh(p.l3Buffer)
  ensures err == nil ==> p.vtdBuffer != nil && valid(p.vtdBuffer) && p.l1Buffer != nil && valid(p.l1Buffer) && p.l2Buffer != nil && valid(p.l2Buffer) && p.l3Buffer != nil && valid(p.l3Buffer)
  ensures err == nil ==> size(p.vtdBuffer) == 0 && size(p.l1Buffer) == 0 && size(p.l2Buffer) == 0 && size(p.l3Buffer) == 0
  ensures err == nil ==> ref(p.vtdBuffer) != ref(p.l1Buffer) && ref(p.vtdBuffer) != ref(p.l2Buffer) && ref(p.vtdBuffer) != ref(p.l3Buffer) && ref(p.l1Buffer) != ref(p.l2Buffer) && ref(p.l1Buffer) != ref(p.l3Buffer) && ref(p.l2Buffer) != ref(p.l3Buffer)
}
func VtdParser.initWithoutShallowDepth(p) (err) {
  modifies mbufs(p), p.l4Buffer, p.l5Buffer
  ensures err == nil ==> fresh(p.vtdBuffer) && fresh(p.l1Buffer) && fresh(p.l2Buffer) && fresh(p.l3Buffer) && fresh(p.l4Buffer) && fresh(p.l5Buffer)
  ensures err == nil ==> p.vtdBuffer != nil && valid(p.vtdBuffer) && p.l1Buffer != nil && valid(p.l1Buffer) && p.l2Buffer != nil && valid(p.l2Buffer) && p.l3Buffer != nil && valid(p.l3Buffer) && p.l4Buffer != nil && valid(p.l4Buffer) && p.l5Buffer != nil && valid(p.l5Buffer)
  ensures err == nil ==> size(p.vtdBuffer) == 0 && size(p.l1Buffer) == 0 && size(p.l2Buffer) == 0 && size(p.l3Buffer) == 0 && size(p.l4Buffer) == 0 && size(p.l5Buffer) == 0
  ensures err == nil ==> ref(p.vtdBuffer) != ref(p.l1Buffer) && ref(p.vtdBuffer) != ref(p.l2Buffer) && ref(p.vtdBuffer) != ref(p.l3Buffer) && ref(p.l1Buffer) != ref(p.l2Buffer) && ref(p.l1Buffer) != ref(p.l3Buffer) && ref(p.l2Buffer) != ref(p.l3Buffer)
  ensures err == nil ==> ref(p.vtdBuffer) != ref(p.l4Buffer) && ref(p.vtdBuffer) != ref(p.l5Buffer) && ref(p.l1Buffer) != ref(p.l4Buffer) && ref(p.l1Buffer) != ref(p.l5Buffer) && ref(p.l2Buffer) != ref(p.l4Buffer) && ref(p.l2Buffer) != ref(p.l5Buffer) && ref(p.l3Buffer) != ref(p.l4Buffer) && ref(p.l3Buffer) != ref(p.l5Buffer) && ref(p.l4Buffer) != ref(p.l5Buffer)
}
func VtdParser.init(p) (err) {
  requires pbig(p) && pchars(p) && parrs(p) && pzero(p) && ref(p.l4Buffer) == 0 && ref(p.l5Buffer) == 0
  modifies mbufs(p), p.l4Buffer, p.l5Buffer, p.nsBuffer1, p.nsBuffer2, p.nsBuffer3, p.reader
  ensures err == nil ==> pready(p)
}
def badoptwindow(p) := p.xmlDoc == nil || len(p.xmlDoc) == 0 || p.offset < 0 || p.length <= 0 || p.length > len(p.xmlDoc) - p.offset
func NewVtdParser(opts) (p, err) {
  requires forall k in 0..len(opts) :: opts[k] != nil
  invariant fresh($p) && popt($p)
  invariant parrs($p)
  invariant pzero($p)
  invariant pchars($p)
  invariant ref($p.l4Buffer) == 0
  invariant ref($p.l5Buffer) == 0
  ensures [C20] err == nil ==> p != nil && fresh(p) && pready(p)
  ensures [C20] err != nil ==> p == nil
}

# ---------------------------------------------------------------- parsing
func VtdParser.decideEncoding(p) (err) {
  requires pbig(p) && pzero(p)
  modifies p.increment, p.offset, p.encoding, p.bomDetected, p.mustUtf8, p.singleByteEncoding
  ensures err == nil ==> p.offset == old(p.offset) && p.endOffset < 0x80000000 && penc1(p)
}
func VtdParser.finishUp(p) (err) {
  requires pbufs(p)
  modifies size(p.l1Buffer), at(p.l1Buffer), size(p.l2Buffer), at(p.l2Buffer), size(p.l3Buffer), at(p.l3Buffer), size(p.l4Buffer), at(p.l4Buffer)
  ensures err == nil
}
modset mparse(p) := mtag(p), mattr(p), p.isNs, p.isXml, p.defaultNs, p.prefixUrlSlice, elems(p.prefixUrlSlice), at(p.nsBuffer2), at(p.nsBuffer3), p.encoding, p.reader, p.increment, p.bomDetected, p.mustUtf8, p.singleByteEncoding
def poutstate(s) := s == 2 || s == 5 || s == 8 || s == 9 || s == 11 || s == 13
func VtdParser.Parse(p) (err) {
  requires pready(p)
  modifies mparse(p)
  noauto
  invariant 0 - 1 <= int(parserState) && int(parserState) <= 15
  invariant int(parserState) == 0 ==> pout0(p) && penc2(p)
  invariant int(parserState) == 1 ==> ptag(p)
  invariant poutstate(int(parserState)) ==> pout(p)
  invariant int(parserState) == 3 ==> paname(p)
  invariant int(parserState) == 4 ==> paval(p)
  invariant int(parserState) == 6 ==> pout0(p) && penc1(p) && p.depth == 0 - 1 && p.offset == p.docOffset
  invariant int(parserState) == 7 || int(parserState) == 12 || int(parserState) == 15 ==> pdone(p)
  invariant int(parserState) == 10 ==> pdec(p)
  invariant int(parserState) == 14 ==> pprolog(p)
  invariant pwindow(p) && patoff(p)
  invariant p.reader == old(p.reader) || fresh(p.reader)
  invariant [C12] ptoks(p)
  decreases p.endOffset - p.offset
  invariant arr(p.attrNameSlice) == old(arr(p.attrNameSlice)) || fresh(p.attrNameSlice)
  invariant arr(p.prefixedAttrNameSlice) == old(arr(p.prefixedAttrNameSlice)) || fresh(p.prefixedAttrNameSlice)
  invariant arr(p.prefixUrlSlice) == old(arr(p.prefixUrlSlice)) || fresh(p.prefixUrlSlice)
  ensures [C14] err == nil ==> p.depth == 0 - 1
  ensures [C12] err == nil ==> ptoks(p)
}

# ---------------------------------------------------------------- properties
property C10 {
  functions: parser.*
  safety: parser.*
}
property C11 {
  base: C10
  termination: parser.*
}
property C12 {
  base: C10
}
property C13 {
  base: C10
}
property C14 {
  base: C10
}
property C15 {
  base: C10
}
property C16 {
  base: C10
}
property C17 {
  base: C10
}
property C18 {
  base: C10
}
property C19 {
  base: C10
  frame: parser.*
}
property C20 {
  functions: parser.NewVtdParser
  base: C10
}
property C21 {
  base: C10
}
property C30 {
  base: C10
}
