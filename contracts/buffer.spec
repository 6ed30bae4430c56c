package buffer

# ---------------------------------------------------------------- paged buffers
# The abstract state of a paged buffer: its size and the value stored at every
# index.  valid() is the data-structure invariant.

def memory() := 0x400000000000

model LongBuffer(b) {
  size() int
  at(i) int64
  valid() bool
  known 0 <= size(b) && size(b) <= memory()
}
model IntBuffer(b) {
  size() int
  at(i) int32
  valid() bool
  known 0 <= size(b) && size(b) <= memory()
}

def geometry(b) := 0 <= b.exp && b.exp <= 62 && b.pageSize == 1 << b.exp && b.r == b.pageSize - 1 &&
  0 <= b.size && b.size <= b.capacity && b.size <= memory() &&
  b.capacity == len(b.buffer) << b.exp && len(b.buffer) <= (memory() >> b.exp) + 1
def pages(b) := owner(b.buffer) == ref(b) && arr(b.buffer) != 0 &&
  (forall p in 0..len(b.buffer) :: owner(b.buffer[p]) == ref(b) && arr(b.buffer[p]) != 0 && len(b.buffer[p]) <= b.pageSize) &&
  (forall p in 0..len(b.buffer) :: forall q in 0..len(b.buffer) :: p != q ==> arr(b.buffer[p]) != arr(b.buffer[q])) &&
  (forall p in 0..len(b.buffer) :: b.pageSize <= len(b.buffer[p]) || b.size - (p << b.exp) <= len(b.buffer[p]))

impl FastLongBuffer as LongBuffer {
  size(b) := b.size
  at(b, i) := b.buffer[i >> b.exp][i & b.r]
  valid(b) := geometry(b) && pages(b)
  modifies self.size, self.capacity, self.buffer, owned(self, int64), owned(self, "[]int64")
}

iface LongBuffer.LongAt(b, i) (v, err) {
  requires valid(b)
  ensures [C01] 0 <= i && i < size(b) ==> err == nil && v == at(b, i)
  ensures [C01] (i < 0 || i >= size(b)) ==> err != nil
}
iface LongBuffer.ModifyEntry(b, i, v) (err) {
  requires valid(b)
  modifies at(b)
  ensures [C01] 0 <= i && i < size(b) ==> err == nil && at(b, i) == v
  ensures [C01] (i < 0 || i >= size(b)) ==> err != nil
  ensures [C01] forall j in 0..size(b) :: (j != i || err != nil) ==> at(b, j) == old(at(b, j))
}
iface LongBuffer.GetSize(b) (n) {
  requires valid(b)
  ensures [C01] n == size(b)
}
iface LongBuffer.SetSize(b, n) {
  requires valid(b)
  requires 0 <= n && n <= size(b)
  modifies size(b)
  ensures [C02] size(b) == n
}
iface LongBuffer.Clear(b) {
  requires valid(b)
  modifies size(b)
  ensures [C02] size(b) == 0
}
iface LongBuffer.Append(b, v) (err) {
  owns b
  requires valid(b)
  assumes size(b) < memory()
  modifies size(b), at(b)
  ensures [C01, C02] err == nil
  ensures [C01, C02] size(b) == old(size(b)) + 1 && at(b, old(size(b))) == v
  ensures [C01, C02] forall j in 0..old(size(b)) :: at(b, j) == old(at(b, j))
}
iface LongBuffer.Lower32At(b, i) (v, err) {
  requires valid(b)
  ensures [C04] 0 <= i && i < size(b) ==> err == nil && v == int32(at(b, i))
  ensures [C04] (i < 0 || i >= size(b)) ==> err != nil
}
iface LongBuffer.Upper32At(b, i) (v, err) {
  requires valid(b)
  ensures [C04] 0 <= i && i < size(b) ==> err == nil && v == int32(at(b, i) >> 32)
  ensures [C04] (i < 0 || i >= size(b)) ==> err != nil
}
iface LongBuffer.ToLongArray(b) (s, err) {
  requires valid(b)
  invariant i <= len(b.buffer)
  invariant size == size(b) - (i << b.exp)
  invariant len(intArray) == ite(size < 0, size(b), size(b) - size)
  invariant len(intArray) == (i << b.exp) + rangeindex + 1
  invariant rangeindex + 1 < b.pageSize ==> (len(intArray) >> b.exp) == i
  invariant rangeindex + 1 < b.pageSize ==> (len(intArray) & b.r) == rangeindex + 1
  invariant forall k in 0..len(intArray) :: intArray[k] == at(b, k)
  ensures [C03] err == nil && len(s) == size(b)
  ensures [C03] forall k in 0..size(b) :: s[k] == at(b, k)
}

impl FastIntBuffer as IntBuffer {
  size(b) := b.size
  at(b, i) := b.buffer[i >> b.exp][i & b.r]
  valid(b) := geometry(b) && pages(b)
  modifies self.size, self.capacity, self.buffer, owned(self, int32), owned(self, "[]int32")
}

iface IntBuffer.IntAt(b, i) (v, err) {
  requires valid(b)
  ensures [C01] 0 <= i && i < size(b) ==> err == nil && v == at(b, i)
  ensures [C01] (i < 0 || i >= size(b)) ==> err != nil
}
iface IntBuffer.ModifyEntry(b, i, v) (err) {
  requires valid(b)
  modifies at(b)
  ensures [C01] 0 <= i && i < size(b) ==> err == nil && at(b, i) == v
  ensures [C01] (i < 0 || i >= size(b)) ==> err != nil
  ensures [C01] forall j in 0..size(b) :: (j != i || err != nil) ==> at(b, j) == old(at(b, j))
}
iface IntBuffer.GetSize(b) (n) {
  requires valid(b)
  ensures [C01] n == size(b)
}
iface IntBuffer.SetSize(b, n) {
  requires valid(b)
  requires 0 <= n && n <= size(b)
  modifies size(b)
  ensures [C02] size(b) == n
}
iface IntBuffer.Clear(b) {
  requires valid(b)
  modifies size(b)
  ensures [C02] size(b) == 0
}
iface IntBuffer.Append(b, v) (err) {
  owns b
  requires valid(b)
  assumes size(b) < memory()
  modifies size(b), at(b)
  ensures [C01, C02] err == nil
  ensures [C01, C02] size(b) == old(size(b)) + 1 && at(b, old(size(b))) == v
  ensures [C01, C02] forall j in 0..old(size(b)) :: at(b, j) == old(at(b, j))
}
iface IntBuffer.ToIntArray(b) (s, err) {
  requires valid(b)
  invariant i <= len(b.buffer)
  invariant size == size(b) - (i << b.exp)
  invariant len(intArray) == ite(size < 0, size(b), size(b) - size)
  invariant len(intArray) == (i << b.exp) + rangeindex + 1
  invariant rangeindex + 1 < b.pageSize ==> (len(intArray) >> b.exp) == i
  invariant rangeindex + 1 < b.pageSize ==> (len(intArray) & b.r) == rangeindex + 1
  invariant forall k in 0..len(intArray) :: intArray[k] == at(b, k)
  ensures [C03] err == nil && len(s) == size(b)
  ensures [C03] forall k in 0..size(b) :: s[k] == at(b, k)
}

# ---------------------------------------------------------------- object buffer
# size() counts the pages in use; stored(b) the objects in them
model ObjectBuffer(b) {
  size() int
  stored() int
  at(i) any
  valid() bool
}
def ogeometry(b) := 0 <= b.exp && b.exp <= 62 && b.pageSize == 1 << b.exp && b.r == b.pageSize - 1 &&
  0 <= b.size && b.size <= len(b.buffer) && len(b.buffer) <= (memory() >> b.exp) + 1
def opages(b) := owner(b.buffer) == ref(b) && arr(b.buffer) != 0 &&
  (forall p in 0..b.size :: owner(b.buffer[p]) == ref(b) && arr(b.buffer[p]) != 0 && len(b.buffer[p]) <= b.pageSize && 1 <= len(b.buffer[p])) &&
  (forall p in 0..b.size :: forall q in 0..b.size :: p != q ==> arr(b.buffer[p]) != arr(b.buffer[q])) &&
  (forall p in 0..(b.size - 1) :: len(b.buffer[p]) == b.pageSize)
impl FastObjectBuffer as ObjectBuffer {
  size(b) := b.size
  stored(b) := ite(b.size <= 0, 0, ((b.size - 1) << b.exp) + len(b.buffer[b.size - 1]))
  at(b, i) := b.buffer[i >> b.exp][i & b.r]
  valid(b) := ogeometry(b) && opages(b)
  modifies self.size, self.capacity, self.buffer, owned(self, "any"), owned(self, "[]any")
}
iface ObjectBuffer.ObjectAt(b, i) (v, err) {
  requires valid(b)
  ensures [C01] 0 <= i && i < stored(b) ==> err == nil && v == at(b, i)
  ensures [C01] (i < 0 || i >= stored(b)) ==> err != nil
}
iface ObjectBuffer.ModifyEntry(b, i, v) (err) {
  requires valid(b)
  modifies at(b)
  ensures [C01] 0 <= i && i < stored(b) ==> err == nil && at(b, i) == v
  ensures [C01] (i < 0 || i >= stored(b)) ==> err != nil
  ensures [C01] forall j in 0..stored(b) :: (j != i || err != nil) ==> at(b, j) == old(at(b, j))
}
iface ObjectBuffer.GetSize(b) (n) {
  requires valid(b)
  ensures [C01] n == size(b)
}
iface ObjectBuffer.SetSize(b, n) {
  requires valid(b)
  requires 0 <= n && n <= size(b)
  modifies size(b), stored(b)
  ensures [C02] size(b) == n
  ensures [C02] stored(b) <= old(stored(b))
}
iface ObjectBuffer.Clear(b) {
  requires valid(b)
  modifies size(b), stored(b)
  ensures [C02] size(b) == 0 && stored(b) == 0
}
iface ObjectBuffer.Append(b, v) (err) {
  owns b
  requires valid(b)
  assumes stored(b) < memory()
  modifies size(b), stored(b), at(b)
  ensures [C01, C02] err == nil
  ensures [C01, C02] stored(b) == old(stored(b)) + 1 && at(b, old(stored(b))) == v
  ensures [C01, C02] forall j in 0..old(stored(b)) :: at(b, j) == old(at(b, j))
}

# ---------------------------------------------------------------- construction
# what an option may leave behind: a page size the constructor refuses, or a consistent geometry
def optgeom(b) := (b.pageSize <= 0 || b.r < 0) || (0 <= b.exp && b.exp <= 62 && b.pageSize == 1 << b.exp && b.r == b.pageSize - 1)
def empty(b) := b.size == 0 && b.capacity == 0 && len(b.buffer) == 0 && arr(b.buffer) != 0

functype FastIntBufferOption(b) {
  requires b != nil && optgeom(b) && empty(b)
  modifies b.pageSize, b.exp, b.r
  ensures [C06] optgeom(b)
}
func NewFastIntBuffer(opts) (r, err) {
  owns result
  requires forall k in 0..len(opts) :: opts[k] != nil
  invariant fresh($p)
  invariant optgeom($p)
  invariant empty($p)
  invariant len(opts) == 0 ==> $p.pageSize > 0 && $p.r >= 0
  ensures [C06] err == nil ==> r != nil && fresh(r) && valid(r) && size(r) == 0
  ensures [C06] err != nil ==> r == nil
  ensures [C06] len(opts) == 0 ==> err == nil
}

functype FastLongBufferOption(b) {
  requires b != nil && optgeom(b) && empty(b)
  modifies b.pageSize, b.exp, b.r
  ensures [C06] optgeom(b)
}
func NewFastLongBuffer(opts) (r, err) {
  owns result
  requires forall k in 0..len(opts) :: opts[k] != nil
  invariant fresh($p)
  invariant optgeom($p)
  invariant empty($p)
  invariant len(opts) == 0 ==> $p.pageSize > 0 && $p.r >= 0
  ensures [C06] err == nil ==> r != nil && fresh(r) && valid(r) && size(r) == 0
  ensures [C06] err != nil ==> r == nil
  ensures [C06] len(opts) == 0 ==> err == nil
}

functype FastObjectBufferOption(b) {
  requires b != nil && optgeom(b) && empty(b)
  modifies b.pageSize, b.exp, b.r
  ensures [C06] optgeom(b)
}
func NewFastObjectBuffer(opts) (r, err) {
  owns result
  requires forall k in 0..len(opts) :: opts[k] != nil
  invariant fresh($p)
  invariant optgeom($p)
  invariant empty($p)
  invariant len(opts) == 0 ==> $p.pageSize > 0 && $p.r >= 0
  ensures [C06] err == nil ==> r != nil && fresh(r) && valid(r) && size(r) == 0
  ensures [C06] err != nil ==> r == nil
  ensures [C06] len(opts) == 0 ==> err == nil
}

# ---------------------------------------------------------------- byte buffer
func NewUniByteBuffer(buffer) (r, err) {
  ensures [C05] buffer == nil ==> err != nil && r == nil
  ensures [C05] buffer != nil ==> err == nil && r != nil && r.buffer == buffer
}
func UniByteBuffer.ByteAt(b, i) (v, err) {
  requires b != nil
  ensures [C05] 0 <= i && i < len(b.buffer) ==> err == nil && v == b.buffer[i]
  ensures [C05] (i < 0 || i >= len(b.buffer)) ==> err != nil
}
func UniByteBuffer.GetByteSlice(b, offset, length) (s, err) {
  requires b != nil
  ensures [C05] 0 <= offset && 1 <= length && offset < len(b.buffer) && length < len(b.buffer) - offset ==> err == nil
  ensures [C05] (offset < 0 || length < 1 || offset >= len(b.buffer) || length > len(b.buffer) - offset) ==> err != nil
  ensures [C05] err == nil ==> len(s) == length && (forall k in 0..length :: s[k] == b.buffer[offset + k])
}
func UniByteBuffer.GetBytes(b) (s) {
  requires b != nil
  ensures [C05] s == b.buffer
}
func UniByteBuffer.GetSize(b) (n) {
  requires b != nil
  ensures [C05] n == len(b.buffer)
}
func UniByteBuffer.SetSize(b, n) { requires b != nil }
func UniByteBuffer.Clear(b) { requires b != nil }

property C01 {
  safety: buffer.FastLongBuffer.*, buffer.FastIntBuffer.*, buffer.FastObjectBuffer.*
  termination: buffer.FastLongBuffer.*, buffer.FastIntBuffer.*, buffer.FastObjectBuffer.*
}
property C02 {
  safety: buffer.FastLongBuffer.*, buffer.FastIntBuffer.*, buffer.FastObjectBuffer.*
}
property C03 {
  safety: buffer.FastLongBuffer.ToLongArray, buffer.FastIntBuffer.ToIntArray
  termination: buffer.FastLongBuffer.ToLongArray, buffer.FastIntBuffer.ToIntArray
}
property C04 {
  safety: buffer.FastLongBuffer.Lower32At, buffer.FastLongBuffer.Upper32At
}
property C05 {
  safety: buffer.NewUniByteBuffer, buffer.UniByteBuffer.*
}
property C06 {
  safety: labelled
  termination: labelled
}
