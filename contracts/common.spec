package common

# XML 1.1 character classes
def isValid(c) := (0x1 <= c && c <= 0xD7FF) || (0xE000 <= c && c <= 0xFFFD) || (0x10000 <= c && c <= 0x10FFFF)
def isSpace(c) := c == 0x20 || c == 0x9 || c == 0xD || c == 0xA
def isContent(c) := isValid(c) && c != '<' && c != '&' && c != ']'
def isStart(c) := c == 0x3A || (0x41 <= c && c <= 0x5A) || c == 0x5F || (0x61 <= c && c <= 0x7A) || (0xC0 <= c && c <= 0xD6) || (0xD8 <= c && c <= 0xF6) || (0xF8 <= c && c <= 0x2FF) || (0x370 <= c && c <= 0x37D) || (0x37F <= c && c <= 0x1FFF) || (0x200C <= c && c <= 0x200D) || (0x2070 <= c && c <= 0x218F) || (0x2C00 <= c && c <= 0x2FEF) || (0x3001 <= c && c <= 0xD7FF) || (0xF900 <= c && c <= 0xFDCF) || (0xFDF0 <= c && c <= 0xFFFD) || (0x10000 <= c && c <= 0xEFFFF)
def isNameOnly(c) := c == 0x2D || c == 0x2E || (0x30 <= c && c <= 0x39) || c == 0xB7 || (0x300 <= c && c <= 0x36F) || (0x203F <= c && c <= 0x2040)
def isName(c) := isStart(c) || isNameOnly(c)

model CharTable(x) {
  valid() bool
}
impl XmlChar as CharTable {
  valid(x) := x != nil &&
    len(x.validCharSlice) == 1112061 &&
    (forall k in 0..len(x.validCharSlice) :: isValid(int(x.validCharSlice[k]))) &&
    (forall c in 0x1..0xD800 :: int(x.validCharSlice[c - 1]) == c) &&
    (forall c in 0xE000..0xFFFE :: int(x.validCharSlice[c - 2049]) == c) &&
    (forall c in 0x10000..0x110000 :: int(x.validCharSlice[c - 2051]) == c) &&
    len(x.nameStartCharSlice) == 971506 &&
    (forall k in 0..len(x.nameStartCharSlice) :: isStart(int(x.nameStartCharSlice[k]))) &&
    (forall c in 0x3A..0x3B :: int(x.nameStartCharSlice[c - 58]) == c) &&
    (forall c in 0x41..0x5B :: int(x.nameStartCharSlice[c - 64]) == c) &&
    (forall c in 0x5F..0x60 :: int(x.nameStartCharSlice[c - 68]) == c) &&
    (forall c in 0x61..0x7B :: int(x.nameStartCharSlice[c - 69]) == c) &&
    (forall c in 0xC0..0xD7 :: int(x.nameStartCharSlice[c - 138]) == c) &&
    (forall c in 0xD8..0xF7 :: int(x.nameStartCharSlice[c - 139]) == c) &&
    (forall c in 0xF8..0x300 :: int(x.nameStartCharSlice[c - 140]) == c) &&
    (forall c in 0x370..0x37E :: int(x.nameStartCharSlice[c - 252]) == c) &&
    (forall c in 0x37F..0x2000 :: int(x.nameStartCharSlice[c - 253]) == c) &&
    (forall c in 0x200C..0x200E :: int(x.nameStartCharSlice[c - 265]) == c) &&
    (forall c in 0x2070..0x2190 :: int(x.nameStartCharSlice[c - 363]) == c) &&
    (forall c in 0x2C00..0x2FF0 :: int(x.nameStartCharSlice[c - 3035]) == c) &&
    (forall c in 0x3001..0xD800 :: int(x.nameStartCharSlice[c - 3052]) == c) &&
    (forall c in 0xF900..0xFDD0 :: int(x.nameStartCharSlice[c - 11500]) == c) &&
    (forall c in 0xFDF0..0xFFFE :: int(x.nameStartCharSlice[c - 11532]) == c) &&
    (forall c in 0x10000..0xF0000 :: int(x.nameStartCharSlice[c - 11534]) == c) &&
    len(x.nameCharSlice) == 971633 &&
    (forall k in 0..len(x.nameCharSlice) :: isName(int(x.nameCharSlice[k]))) &&
    (forall c in 0x3A..0x3B :: int(x.nameCharSlice[c - 58]) == c) &&
    (forall c in 0x41..0x5B :: int(x.nameCharSlice[c - 64]) == c) &&
    (forall c in 0x5F..0x60 :: int(x.nameCharSlice[c - 68]) == c) &&
    (forall c in 0x61..0x7B :: int(x.nameCharSlice[c - 69]) == c) &&
    (forall c in 0xC0..0xD7 :: int(x.nameCharSlice[c - 138]) == c) &&
    (forall c in 0xD8..0xF7 :: int(x.nameCharSlice[c - 139]) == c) &&
    (forall c in 0xF8..0x300 :: int(x.nameCharSlice[c - 140]) == c) &&
    (forall c in 0x370..0x37E :: int(x.nameCharSlice[c - 252]) == c) &&
    (forall c in 0x37F..0x2000 :: int(x.nameCharSlice[c - 253]) == c) &&
    (forall c in 0x200C..0x200E :: int(x.nameCharSlice[c - 265]) == c) &&
    (forall c in 0x2070..0x2190 :: int(x.nameCharSlice[c - 363]) == c) &&
    (forall c in 0x2C00..0x2FF0 :: int(x.nameCharSlice[c - 3035]) == c) &&
    (forall c in 0x3001..0xD800 :: int(x.nameCharSlice[c - 3052]) == c) &&
    (forall c in 0xF900..0xFDD0 :: int(x.nameCharSlice[c - 11500]) == c) &&
    (forall c in 0xFDF0..0xFFFE :: int(x.nameCharSlice[c - 11532]) == c) &&
    (forall c in 0x10000..0xF0000 :: int(x.nameCharSlice[c - 11534]) == c) &&
    (forall c in 0x2D..0x2E :: int(x.nameCharSlice[c + 971461]) == c) &&
    (forall c in 0x2E..0x2F :: int(x.nameCharSlice[c + 971461]) == c) &&
    (forall c in 0x30..0x3A :: int(x.nameCharSlice[c + 971460]) == c) &&
    (forall c in 0xB7..0xB8 :: int(x.nameCharSlice[c + 971335]) == c) &&
    (forall c in 0x300..0x370 :: int(x.nameCharSlice[c + 970751]) == c) &&
    (forall c in 0x203F..0x2041 :: int(x.nameCharSlice[c + 963376]) == c) &&
    len(x.spaceCharSlice) == 4 && x.spaceCharSlice[0] == 0x20 && x.spaceCharSlice[1] == 0x9 && x.spaceCharSlice[2] == 0xD && x.spaceCharSlice[3] == 0xA &&
    len(x.specialCharSlice) == 3 && x.specialCharSlice[0] == '<' && x.specialCharSlice[1] == '&' && x.specialCharSlice[2] == ']'
}
func XmlChar.exists(x, s, ch) (r) {
  invariant forall k in 0..($i + 1) :: s[k] != ch
  ensures r ==> (exists k in 0..len(s) :: s[k] == ch)
  ensures !r ==> (forall k in 0..len(s) :: s[k] != ch)
}
func XmlChar.IsValidChar(x, ch) (r) {
  requires valid(x)
  ensures [C07] trigger(int(ch)) && (r <==> isValid(int(ch)))
}
func XmlChar.IsSpaceChar(x, ch) (r) {
  requires valid(x)
  ensures [C07] r <==> isSpace(int(ch))
}
func XmlChar.IsNameStartChar(x, ch) (r) {
  requires valid(x)
  ensures [C07] trigger(int(ch)) && (r <==> isStart(int(ch)))
}
func XmlChar.IsNameChar(x, ch) (r) {
  requires valid(x)
  ensures [C07] trigger(int(ch)) && (r <==> isName(int(ch)))
}
func XmlChar.IsContentChar(x, ch) (r) {
  requires valid(x)
  ensures [C07] trigger(int(ch)) && (r <==> isContent(int(ch)))
}

func NewXmlChar() (x) {
  trusted "evaluated: no inputs, so one run decides it; check C07 runs it and compares every entry of every table"
  ensures [C07] x != nil && fresh(x) && valid(x)
}

property C07 {
  functions: common.XmlChar.exists
  safety: common.XmlChar.*
  termination: common.XmlChar.*
}
