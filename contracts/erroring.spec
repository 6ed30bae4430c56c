package erroring

func newBaseError(msg, err) (b) {
  inline
}
func baseError.Error(e) (s) {
  requires e != nil
  ensures [C29] s == e.msg
}
func baseError.Unwrap(e) (r) {
  ensures [C29] e == nil ==> r == nil
  ensures [C29] e != nil ==> r == e.Err
}
func NewInvalidArgumentError(param, msg, err) (r) {
  ensures [C29] typeis(r, *erroring.InvalidArgumentError) && r != nil && fresh(r) && r.Err == err && r.Parameter == param && r.Msg == msg
}
func NewInternalError(msg, err) (r) {
  ensures [C29] typeis(r, *erroring.InternalError) && r != nil && fresh(r) && r.Err == err
}
func NewParseError(msg, lineNumber, err) (r) {
  ensures [C29] typeis(r, *erroring.ParseError) && r != nil && fresh(r) && r.Err == err && r.Msg == msg && r.LineNumber == lineNumber
}
func NewNavigationError(msg, err) (r) {
  ensures [C29] typeis(r, *erroring.NavigationError) && r != nil && fresh(r) && r.Err == err && r.Msg == msg
}
func NewEncodingError(msg) (r) {
  ensures [C29] typeis(r, *erroring.EncodingError) && r != nil && fresh(r) && r.Err == nil && r.Msg == msg
}
func NewDecodingError(msg) (r) {
  ensures [C29] typeis(r, *erroring.DecodingError) && r != nil && fresh(r) && r.Err == nil && r.Msg == msg
}
func NewEntityError(msg) (r) {
  ensures [C29] typeis(r, *erroring.EntityError) && r != nil && fresh(r) && r.Err == nil && r.Msg == msg
}
func NewEOFError(msg) (r) {
  ensures [C29] typeis(r, *erroring.EOFError) && r != nil && fresh(r) && r.Err == nil && r.Msg == msg
}
func NewModifyError(msg) (r) {
  ensures [C29] typeis(r, *erroring.ModifyError) && r != nil && fresh(r) && r.Err == nil && r.Msg == msg
}
property C29 {
  safety: labelled
  frame: labelled
}
