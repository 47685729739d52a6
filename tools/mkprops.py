import json
B='src/infi/instruct/buffer/'; S='src/infi/instruct/struct/'; I='src/infi/instruct/'
def P(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])
    if state: a['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: a['observe_at']=[observe]
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=a)
L=[]
L.append(P('C01','Bit views read exactly the selected bits',
"For every byte string and every eighth-of-a-byte window over it, indexing, slicing (nested, negative, clipped), iterating, measuring and converting a bit view to bytes or to a bit string yields exactly the bits of the window, least significant bit first. The last partial byte is zero-filled above the end of the window, so no bit outside the window ever appears in a result, and reading never changes the underlying bytes.",
['inputs'],"all byte strings, all windows start<=stop in eighths of a byte, all index and slice keys in eighths (positive, negative, out of range), any nesting of slices",
"the tests index a handful of hand-picked 2-4 byte buffers; the guarantee is over every (buffer, start, stop, key) combination, including the fractional ends that the samples skip",
[B+'io_buffer.py'],[('BitView.__getitem__, __iter__, __len__, to_bytes, to_bytearray, to_bitstr, length',B+'io_buffer.py'),('BitView._get_byte_bits, _get_range, _key_to_range, _translate_offset',B+'io_buffer.py')],
[('buffer, start, stop','underlying bytes and the window bounds in units of 1/8 byte','BitView')],'return values of the read operations'))
L.append(P('C02','Editing a bit-aware byte array equals editing its list of bits',
"Assigning to, inserting into, deleting from, extending, concatenating or zero-extending a bit-aware byte array at any eighth-of-a-byte position changes the array's bit sequence exactly as the same edit on a list of bits: bits before and after the edited section keep their value and order, inserted filler is zero, and the length changes by exactly the difference. An integer assigned to a section is stored least significant bit first and zero-extended to the section; one too wide for the section (or negative) is rejected and the array is left unchanged.",
['inputs','histories'],"all arrays, all windows, all edit positions and lengths in eighths of a byte, all values (bit views, byte sequences, integers), any sequence of edits",
"the tests edit a few arrays, nearly always on byte boundaries; correctness of the shifting has to hold for all alignments of both ends and all following contents",
[B+'io_buffer.py'],[('BitAwareByteArray.__setitem__, __delitem__, insert, extend, zfill, __add__, __radd__',B+'io_buffer.py'),('BitAwareByteArray._set_range, _copy_to_range, _del_range, _insert_zeros, _set_byte_bits, _value_to_value_and_length',B+'io_buffer.py')],
[('buffer, start, stop','bytes and window of the array','BitAwareByteArray')]))
L.append(P('C03','Range lists measure, close, order and map offsets correctly',
"For every list of byte ranges (multiples of an eighth, at most the open end unknown), the reported length is the sum of the range lengths and the reported end the largest stop (both unknown when a range is open), closing replaces only open stops, and an offset within the total length is mapped to the position that walking the ranges in list order reaches. Two non-empty ranges are reported to overlap exactly when they share a bit, and a list is reported to overlap exactly when two of its non-empty ranges do. Concatenating range lists, or one with a plain list on either side, gives the ranges of the first and then those of the second.",
['inputs'],"all range lists of any length over eighths, closed and open, and all offsets",
"the tests use lists of at most three integer ranges; sums, maxima, offset walks and pairwise disjointness are statements over every length and order of the list",
[B+'range.py'],[('SequentialRange.to_closed, byte_length, overlaps, contains, __lt__, __eq__',B+'range.py'),('SequentialRangeList.byte_length, max_stop, has_overlaps, byte_offset, find_relative_container_index, to_closed, sorted',B+'range.py')]))
L.append(P('C04','Field location expressions resolve to exactly the denoted bits',
"A location expression (byte index, byte slice, list of locations, and bit index, bit slice or list of bit locations inside any of them) resolves to exactly the denoted positions in the denoted order, where bits number the parent's bits consecutively across its ranges, least significant bit first. Bits outside the parent's length are refused with an error instead of resolving to other positions, and endpoints may be any numeric references, evaluated at resolution time.",
['programs','inputs'],"all location expressions over all numeric values of their endpoints, with parents made of any number of ranges",
"the tests resolve bit slices inside a single byte range; a multi-range parent, a range boundary, or an endpoint that is a reference takes different paths",
[B+'reference/range.py',B+'range.py'],[('ByteRangeFactory, ByteSliceRangeReference, ByteNumericRangeReference, ListRangeReference',B+'reference/range.py'),('BitNumericRangeReference, BitSliceRangeReference, BitRangeFactory',B+'reference/range.py'),('SequentialRangeList.find_relative_container_index',B+'range.py')]))
L.append(P('C05','Scattering and gathering values over ranges is exact and reversible',
"Writing a value to a list of non-overlapping ranges of an output buffer puts the value's consecutive pieces into those ranges in list order, leaves every other existing bit unchanged, zero-fills any gap up to a range that starts past the current end, and raises when the value is shorter than the ranges. Reading a list of ranges from an input buffer returns the concatenation of their bits in list order, so reading back the ranges just written returns the value.",
['inputs','histories'],"all buffers, all values, all lists of non-overlapping ranges (any number, any order, eighth-of-a-byte bounds), any sequence of writes",
"tests write one or two byte-aligned ranges; the frame condition (nothing else changes) and the order of pieces range over all lists and prior contents",
[B+'io_buffer.py'],[('OutputBuffer.set, OutputBuffer.get, InputBuffer.get',B+'io_buffer.py')]))
L.append(P('C06','Integer fields of buffers encode and decode exactly, or refuse',
"An integer field of 1, 2, 4 or 8 bytes is stored in two's complement with its declared sign and byte order, and one of any other width in eighths of a byte as its unsigned bits, least significant first; in both cases reading back gives the same integer for every representable value. A value that does not fit the field's width and sign raises an error and is never stored truncated or wrapped.",
['inputs','configurations'],"all integers, all widths (1/8 byte up), both signs, all byte orders, all buffers",
"the tests use small values that fit; wrap-around, sign extension and odd widths are statements over all integers and widths",
[B+'serialize.py',B+'io_buffer.py',B+'macros.py'],[('pack_int, unpack_int, pack_struct_int, unpack_struct_int, pack_bit_int, unpack_bit_int, format_from_struct_int_arguments',B+'serialize.py'),('int_field, uint_field, be_*/le_* fields, int_marshal element types',B+'macros.py')]))
L.append(P('C07','Text, float, JSON, raw and list fields of buffers survive a round trip',
"Text is stored in the declared encoding and padded on the side opposite its justification up to a known field size, floats as IEEE numbers of 4 or 8 bytes in the declared byte order, lists as the concatenation of their packed elements, raw bytes unchanged and JSON as its text; reading the stored bytes back gives an equal value (for text: up to leading/trailing padding and strip characters on the padded side). A list stops after its declared count or at the end of its section and a fixed-size text refuses a shorter section.",
['inputs','configurations'],"all values, encodings, paddings, justifications, sizes, element types and list lengths",
"tests round-trip a few samples of 4-byte floats and left-justified strings; 8-byte floats, centred text, lists of arbitrary element sizes are never read back",
[B+'serialize.py',B+'macros.py'],[('pack_str, unpack_str, pack_json, unpack_json, pack_float, unpack_float, pack_bytearray, unpack_bytearray, pack_list, unpack_list, pack_buffer, unpack_buffer',B+'serialize.py'),('str_field, str_type_factory, float_field, json_field, bytearray_field, list_field',B+'macros.py')]))
L.append(P('C08','References evaluate once, in any order, and cycles are reported',
"Within one pack or unpack every reference is evaluated at most once and every later use sees the same value, regardless of the order in which fields ask for it; a reference that needs its own value raises the cyclic-reference error naming the cycle instead of recursing or returning a partial value. After success or failure of an evaluation the evaluation context holds no trace of unfinished references, and arithmetic, comparison, length, minimum, maximum, attribute and call expressions compute what the plain expression over the referenced values would.",
['programs','histories'],"all reference graphs (acyclic or not), all evaluation orders, all operand values",
"tests evaluate a few small graphs; once-only evaluation, cycle detection and cleanup on failure are statements over every graph and every failing position in it",
[B+'reference/reference.py',B+'reference/func_call.py',B+'reference/builtins.py',B+'reference/field.py',B+'reference/field_or_attr.py',B+'reference/contexts.py'],[('Reference.deref, CyclicReferenceError, Context',B+'reference/reference.py'),('NumericBinaryExpression, NumericUnaryExpression, FuncCallReference and builtins',B+'reference/reference.py, func_call.py, builtins.py')],
[('cached_results, call_nodes, call_stack','memo table and evaluation stack of one pack/unpack','Context')]))
L.append(P('C09','Packing places every field at its location; unpacking inverts it',
"Packing a buffer object puts each enabled field's encoded value at the field's location and zero in every position no field covers, and unpacking a byte string gives each enabled field the decoded contents of its location and each disabled field None. For fields with non-overlapping locations, unpacking a packed object restores every field value, computed fields (set before pack, set after unpack) and inherited fields included, and packing the result again gives the same bytes. A field whose own location covers a bit twice is refused.",
['programs','inputs'],"all buffer classes (field kinds, static and computed locations, conditions, inheritance, nesting, lists) and all field values",
"each test covers one class with one or two value sets; independence of fields and the round trip must hold for all values in all layouts",
[B+'buffer.py',B+'field_reference_builder.py',B+'macros.py'],[('Buffer.pack, Buffer.unpack, Buffer._all_fields, BufferType.__new__',B+'buffer.py'),('FieldReferenceBuilder, PackAbsolutePositionReference, UnpackAbsolutePositionReference, UnpackerReference, FieldUnpackerReference',B+'field_reference_builder.py')]))
L.append(P('C10','Declared, computed and consumed sizes of buffers agree',
"A buffer class with only fixed locations reports as its size the largest end of any of its fields, inherited ones included (or the size it declares), and packing produces exactly that many bytes rounded up. For variable layouts the computed size, the total-size and after-field expressions and the number of bytes reported as consumed by unpacking equal the end of the corresponding fields' actual extent, and packing beyond a declared size is refused.",
['programs','inputs'],"all buffer classes and values, with static, computed and open locations",
"tests compare sizes for a few layouts; the agreement is between four independent computations over all layouts and values",
[B+'buffer.py',B+'reference/total_size.py',B+'reference/after_field.py',B+'range.py'],[('BufferType.calc_byte_size, Buffer.calc_byte_size, Buffer.pack padding',B+'buffer.py'),('TotalSizeReference, AfterFieldReference',B+'reference/total_size.py, after_field.py')]))
L.append(P('C11','Numeric stream fields use the exact standard encoding',
"Each of the 30 numeric stream types writes precisely the two's-complement or IEEE encoding of its name (width, sign, byte order), occupies exactly that many bytes, and reads the same value back leaving the rest of the stream untouched. A value outside the type's range is refused with the library's error and writes nothing.",
['inputs'],"all 30 types, all values inside and outside the range, all stream contents",
"tests try one or two values per type; the encoding is a statement over every value",
[I+'numeric.py',I+'numeric_macros.py'],[('NumericMarshal.create_from_stream, write_to_stream, FixedSizer.sizeof',I+'numeric.py, base.py'),('MarshalWithField',I+'numeric_macros.py')]))
L.append(P('C12','The bit stream reads and writes exact bit runs',
"Writing an n-bit value to a zeroed bit stream at any position stores the value's n low bits there, least significant first, without changing any other bit, and advances the position by n; reading n bits at a position returns exactly those bits and advances by n, so a sequence of writes is recovered by the same sequence of reads. Reading or writing past the end raises and changes nothing.",
['inputs','histories'],"all stream sizes, positions, run lengths and values, any sequence of seeks, reads and writes",
"tests use runs of a few bits from position 0; all alignments and runs spanning any number of bytes have to agree",
[I+'utils/bitstringio.py'],[('BitStringIO.write, read, seek, getvalue',I+'utils/bitstringio.py')],[('value, position','bytes and bit position','BitStringIO')]))
L.append(P('C13','Bit-field groups store each field in its own bits',
"A sequential bit-field group stores its fields one after another from the least significant bit of the first byte, a positional group stores each field's bits in the bit slices declared for it in declaration order, padding writes zeros, and reading returns every field's own bits, so any values within their widths survive a round trip. A group occupies exactly the bytes of its total width; a width that is not whole bytes is refused when the class is defined.",
['programs','inputs'],"all groups (any number, widths and slices of fields) and all field values",
"tests define groups with a few fixed splits; non-interference between fields is a statement over all splits and values",
[S+'bit.py',I+'struct_macros.py'],[('BitMarshal, BitPaddingMarshal, BitFieldListContainer, PositionalBitMarshal, PositionalBitFieldListContainer',S+'bit.py'),('BitFields, BitField, BitFlag, BitPadding',I+'struct_macros.py')]))
L.append(P('C14','Stream strings and padding keep content and size',
"A fixed-size string or byte field always occupies exactly its declared size, holding the stripped value followed (or preceded, as declared) by padding; a variable-size one is written as its length and its bytes; padding bytes are written as declared and skipped on read. Reading back returns the value stripped of padding on the declared side, and a value that cannot be held (too long, or too short where no padding is allowed) is refused, never written with a wrong size.",
['inputs','configurations'],"all byte strings, sizes, padding bytes and padding directions, all length-prefix types",
"tests store a few short strings; over-long values, values made of padding, and every direction need the quantifier over all strings and sizes",
[I+'string.py',I+'string_macros.py',I+'padding.py'],[('VarSizeStringMarshal, PaddedStringMarshal, VarSizeBufferMarshal, FixedSizeBufferMarshal, _strip, _pad',I+'string.py'),('BytePaddingMarshal',I+'padding.py')]))
L.append(P('C15','Stream arrays write every element once, in order, and read them back',
"A fixed-size array is the concatenation of its elements' encodings, a variable-size array its element count followed by them, and a size-prefixed array its total byte size followed by them; reading yields an equal list and consumes exactly those bytes, whatever the element type (elements of at least one byte when size-prefixed). A fixed-size array refuses a list of another length.",
['programs','inputs'],"all element types obeying the field contract (any sizes, including nested composites), all list lengths and contents",
"tests use short lists of one-byte integers; order, count and byte accounting are inductive statements over the list",
[I+'array.py',I+'array_macros.py'],[('VarSizeArrayMarshal, FixedSizeArrayMarshal, SumSizeArrayMarshal',I+'array.py')]))
L.append(P('C16','A struct is the concatenation of its fields and round-trips',
"Writing a struct writes its fields' encodings in declaration order with nothing between them, and reading assigns each field the value decoded from its own bytes, so reading what was written restores every field; this includes constant fields (any other value is refused), optional fields (absent exactly when unset or when the predicate fails on read), mapped values, lazily decoded groups (same results as eager decoding, in any access order), read pointers, nested structs and inherited declarations. Whatever context and arguments a struct is read with reach the types of its fields, directly and through arrays, selections and nested groups.",
['programs','inputs','histories'],"all structs built from field kinds obeying the field contract, all values, all orders of access to lazy fields",
"each test covers one struct with one value; the guarantee is compositional over arbitrary field lists",
[S+'__init__.py',S+'const.py',S+'optional.py',S+'lazy.py',S+'pointer.py',I+'mapping.py',I+'base.py'],[('FieldListContainer.write_fields/read_fields, Field, Struct.write_to_stream/create_from_stream',S+'__init__.py'),('ConstField, OptionalField, LazyField, LazyFieldListContainer, ReadPointer, FixedSizeMappingMarshal',S+'const.py, optional.py, lazy.py, pointer.py, mapping.py')]))
L.append(P('C17','Predicted stream sizes are exact and within declared bounds',
"For every stream field type and value, the size computed for an object equals the number of bytes writing it produces, and lies within the type's declared minimum and maximum; a type reported as fixed-size always produces that size. Adding size bounds adds minima and maxima, saturating at the unbounded maximum and never going below zero.",
['programs','inputs'],"all stream field types and their compositions, all values",
"tests check sizes for a few instances; exactness and bounds are universal over values and compositional over types",
[I+'base.py',I+'string.py',I+'array.py',S+'__init__.py',S+'selector.py',S+'optional.py'],[('sizeof and min_max_sizeof of every marshal and field, MinMax, FixedSizer',I+'base.py and users')]))
L.append(P('C18','Truncated input is refused, never decoded to a wrong value',
"Decoding a stream that ends before the bytes of the value being read raises an error, for every stream field type and at every truncation point; decoding a buffer section shorter than a fixed-size number or text field does too. No value is ever produced from fewer bytes than its encoding has.",
['inputs','fault_sequences'],"all field types, all encodings, every proper prefix of them",
"tests truncate two numeric fields at one point; the property ranges over every type and every truncation point",
[I+'numeric.py',I+'string.py',I+'padding.py',I+'array.py',S+'bit.py',S+'lazy.py',B+'serialize.py'],[('length checks in create_from_stream / read_fields',I+'numeric.py, string.py, padding.py, struct/*.py'),('length checks of unpackers',B+'serialize.py')]))
L.append(P('C19','Selected structs decode as if the type had been known',
"A selector decides the type from peeked bytes and then decodes exactly as the chosen type would from the original position, consuming exactly the bytes that type consumes; the peeked bytes are neither lost nor read twice, whatever the split between peeked and unpeeked bytes. A key without a mapping uses the default, or is refused when there is none; a type that leaves peeked bytes unread is refused. The peeking stream refuses to write while peeking or while peeked bytes are unread, and otherwise passes writes through.",
['inputs','programs','histories'],"all stream contents, all sequences of peeking and normal reads, all mappings, keys and chosen types",
"tests use one selector with two types; transparency of the peeking is a statement over every interleaving of read sizes",
[S+'selector.py',I+'utils/read_ahead_stream.py'],[('StructSelectorMarshal, FuncStructSelectorMarshal',S+'selector.py'),('ReadAheadStream.read, set_read_ahead',I+'utils/read_ahead_stream.py')],[('buffer','bytes peeked and not yet re-read','ReadAheadStream')]))
L.append(P('C20','Construction gives each field its argument or its own default',
"Constructing a buffer or struct with keyword arguments gives every named field its argument and every other field its declared default, passes positional and remaining arguments to the initialiser the user wrote for a struct (together with the fields that initialiser names); a buffer refuses unknown names. Mutable defaults (also nested ones) are never shared between instances or changed by them, and instances never affect each other's field values.",
['programs','histories','inputs'],"all classes, all subsets of fields passed, all values and defaults, any sequence of constructions and assignments",
"tests construct few instances of few classes; isolation between instances is a statement over histories",
[S+'__init__.py',S+'const.py',S+'lazy.py',B+'buffer.py',I+'utils/kwargs.py'],[('StructType._create_struct_class_init, Field.prepare_instance',S+'__init__.py'),('Buffer.__init__',B+'buffer.py'),('keep_kwargs_partial and helpers',I+'utils/kwargs.py')]))
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in L))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in L: jsonschema.validate(x,sch)
for x in L:
    assert len(x['title'])<=80
print(len(L))
