# Views of the same memory: slices and interfaces as the machine words they consist of.

ufn typeOf(table int) reflect.Type
ufn kindOf(t reflect.Type) u64
ufn elemOf(t reflect.Type) reflect.Type
ufn sizeOf(t reflect.Type) int

contract reflect.TypeOf(i)
  trusted
  ensures result0 == typeOf(i.Table)
contract reflect.Type.Kind(t)
  trusted
  returns kindOf(t)
contract reflect.Type.Elem(t)
  trusted
  returns elemOf(t)
contract reflect.Type.Size(t)
  trusted
  ensures result0 == sizeOf(t) && 0 <= result0 && result0 < 281474976710656

# a slice: an address, a length and a capacity, which is in memory
fn isWords(l int, k int) bool = 0 <= l && l <= k && k <= 281474976710656

contract iunsafe.ByteSliceAsInt64Slice(i)
  headers
  props C25
  requires isWords(i.Len, i.Cap)
  ensures memory: result0.Data == i.Data
  ensures length: result0.Len == i.Len / 8
  ensures within: isWords(result0.Len, result0.Cap) && result0.Cap*8 <= i.Cap

contract iunsafe.Int64SliceAsByteSlice(i)
  headers
  props C25
  requires isWords(i.Len, i.Cap)
  ensures memory: result0.Data == i.Data
  ensures length: result0.Len == i.Len * 8
  ensures within: 0 <= result0.Len && result0.Len <= result0.Cap && result0.Cap <= i.Cap*8

contract iunsafe.Uint64SliceAsByteSlice(i)
  headers
  props C25
  requires isWords(i.Len, i.Cap)
  ensures memory: result0.Data == i.Data
  ensures length: result0.Len == i.Len * 8
  ensures within: 0 <= result0.Len && result0.Len <= result0.Cap && result0.Cap <= i.Cap*8

fn isTarget(t reflect.Type) bool = kindOf(t) == 22 && kindOf(elemOf(t)) == 23
fn sliceElem(t reflect.Type) reflect.Type = elemOf(elemOf(t))

contract iunsafe.ByteSliceAsArbSlice(i, interfaceO)
  headers
  props C25
  requires isWords(i.Len, i.Cap) && !isnil(interfaceO.Data)
  safe isTarget(typeOf(interfaceO.Table)) && sizeOf(sliceElem(typeOf(interfaceO.Table))) > 0
  havocs interfaceO.Data
  ensures refusal: isTarget(typeOf(interfaceO.Table))
  ensures memory: new(interfaceO.Data.Data) == i.Data
  ensures length: new(interfaceO.Data.Len) == i.Len / sizeOf(sliceElem(typeOf(interfaceO.Table)))
  ensures full: new(interfaceO.Data.Cap) == new(interfaceO.Data.Len)
