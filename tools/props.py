import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":s} for s in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

fmtWhy="The tests pin a few hand-written structs per encoding; the claim ranges over every composable type, tag combination and value, and most type constructors never meet each other in a test."
encB=["encoder_borsh.go","encoder.go","tags-parser.go"]
p("C01","Borsh encoding follows the Borsh format exactly",
  "For every supported Go type and value, encoding with Borsh produces exactly the bytes the Borsh format prescribes: little-endian fixed-width integers and floats, one-byte booleans and option flags, 32-bit length prefixes for strings, slices and maps, fields in declaration order, maps in key order, and the documented effect of each struct tag. Decoding those bytes gives the value they stand for and consumes all of them.",
  ["inputs","programs"],"all supported types (scalars, strings, arrays, slices, maps, pointers, structs, enums, options, tagged fields, helper and self-marshaling types) and all their values",fmtWhy,encB+["decoder_borsh.go"],[("reflective encoder","encoder_borsh.go encodeBorsh/encodeStructBorsh"),("reflective decoder","decoder_borsh.go decodeBorsh/decodeStructBorsh")],None,["bytes returned by MarshalBorsh and by every Borsh encoder","values out of UnmarshalBorsh and every Borsh decoder"])
p("C02","Bin encoding follows its format exactly",
  "For every supported Go type and value, encoding with the Bin encoding produces exactly the bytes of that format: fixed-width numbers in the field's byte order, one-byte booleans, strings with a 64-bit length, slices and maps with a base-128 varint length, four-byte option flags, fields in declaration order, and the documented effect of each struct tag (map entries may come in any order). Decoding those bytes gives the value they stand for and consumes all of them.",
  ["inputs","programs"],"all supported types and all their values",fmtWhy,["encoder_bin.go","decoder_bin.go","encoder.go","decoder.go","tags-parser.go"],[("reflective encoder","encoder_bin.go encodeBin/encodeStructBin"),("reflective decoder","decoder_bin.go decodeBin/decodeStructBin")])
p("C03","CompactU16 encoding follows its format exactly",
  "For every supported Go type and value, encoding with the CompactU16 encoding produces exactly the bytes of that format: fixed-width numbers in the field's byte order, one-byte booleans, compact-u16 lengths for strings, slices and maps, one-byte option flags, fields in declaration order, and the documented effect of each struct tag (map entries may come in any order). Decoding those bytes gives the value they stand for and consumes all of them.",
  ["inputs","programs"],"all supported types and all their values",fmtWhy,["encoder_compact-u16.go","decoder_compact-u16.go","compact-u16.go","encoder.go","decoder.go"],[("reflective encoder","encoder_compact-u16.go"),("reflective decoder","decoder_compact-u16.go")])
rtWhy="The tests round-trip a handful of structs with one value each; a loss that needs a particular type combination, length or boundary value is not sampled."
for id,n,f in (("C04","Borsh","borsh"),("C05","Bin","bin"),("C06","CompactU16","compact-u16")):
  p(id,f"{n} round trip loses nothing",
    f"Whatever value of a supported type is encoded with {n}, decoding the result, alone or followed by other data, succeeds, consumes exactly the bytes that were written and gives back an equal value (up to nil versus empty slices and maps, with floats compared bit by bit). Fields that are not part of the wire stay untouched, and encoding the decoded value again gives the same bytes.",
    ["inputs","programs"],"all supported types and values, through any entry point",rtWhy,[f"encoder_{f}.go",f"decoder_{f}.go","encoder.go","decoder.go"],[("encode","encoder_%s.go"%f),("decode","decoder_%s.go"%f)])
p("C07","No input can panic, crash or hang the decoder",
  "Whatever bytes are decoded into whatever supported type, and whatever arguments the low-level reading calls get, the library returns a value or an error in bounded time. It never panics, overflows the stack or loops.",
  ["inputs","fault_sequences"],"all byte strings, types, encodings and call arguments, including truncated, corrupted, adversarial and very deeply nested input",
  "The tests feed mostly valid input; robustness must hold for all inputs, and the bad ones are found by adversaries rather than by samples.",["decoder.go","decoder_bin.go","decoder_borsh.go","decoder_compact-u16.go","variant.go","compact-u16.go"],[("bounds checks","decoder.go readNBytes, Read*, Peek, SkipBytes, SetPosition"),("depth limit","decoder_*.go dec.depth"),("element loops","decoder_*.go slices and maps, decoder.go reflect_readArrayOf*")])
p("C08","Malformed and truncated input is refused, the rest decoded exactly",
  "Decoding input that ends before the value is complete, or that contains something the format does not allow (an impossible length, flag, tag or number), gives an error and never a made-up value. Input that is accepted decodes to exactly the value the format assigns to it, with exactly the bytes of that value consumed.",
  ["inputs","fault_sequences"],"all byte strings derived by truncation at every offset, corruption of every length, flag and tag, insertion, deletion and noise, for all types and encodings",
  "The tests check a few truncations of primitives; partial acceptance depends on the offset and on the surrounding type.",["decoder.go","decoder_bin.go","decoder_borsh.go","decoder_compact-u16.go","compact-u16.go","u128.go"],[("length and remaining checks","decoder.go"),("option, enum and bool validation","decoder.go, decoder_borsh.go")])
p("C09","Decoding never allocates out of proportion to the input",
  "The memory the library allocates while decoding is bounded by a constant factor of the input's size and of the fixed size of the target type, whatever lengths or counts the input declares. This holds for failed decodes as well.",
  ["inputs"],"all inputs, in particular short ones that declare huge lengths, for all types, encodings and the low-level reading calls",
  "A test sees only the result, not the allocation, and does not try hostile lengths on every collection type.",["decoder.go","decoder_bin.go","decoder_borsh.go","decoder_compact-u16.go"],[("length versus remaining checks before allocation","decoder.go ReadByteSlice, reflect_readArrayOf*; decoder_*.go slice and map cases")])
p("C10","The decoder's cursor is exact and never leaves the buffer",
  "Through any sequence of reads, peeks, skips, repositionings and decodes, position, remaining, length and has-remaining agree with each other and stay within the buffer. A successful call advances by exactly what it returned, peeking does not advance, and a fixed-size read, skip or repositioning that goes beyond the buffer fails without moving the cursor.",
  ["histories"],"all sequences of cursor operations with all arguments, in all encodings","The tests do a few reads in a row; the guarantee is about arbitrary histories with failures in the middle.",["decoder.go"],[("cursor arithmetic","decoder.go Read*, Peek*, SkipBytes, Discard, SetPosition, Position, Remaining, Len, HasRemaining")],["pos","data"])
p("C11","Encoding and decoding leave other memory alone",
  "Encoding never modifies the value it is given, and decoding never modifies its input. Appending to a decoded slice changes neither the input nor other decoded values, decoded values other than byte slices do not change when the input buffer is reused, the bytes returned by an encoding are shared with nothing else, and decoding into a used variable replaces its slices and maps instead of writing into their memory.",
  ["inputs","histories"],"all types, values and inputs, with later appends and buffer reuse","The tests compare results once and never touch the buffers afterwards.",["decoder.go","encoder.go","decoder_bin.go","decoder_borsh.go","decoder_compact-u16.go","tools.go"],[("zero-copy slices","decoder.go readNBytes, reflect_readArrayOfBytes"),("in-place conversions","decoder.go reflect_readArrayOfUint*, encoder.go reflect_writeArrayOfUint*")])
p("C12","A failing writer is always reported, and nothing follows its failure",
  "When the underlying writer fails at any point, the encoding or primitive write in progress returns an error whose cause is the writer's error, and writes nothing more. The bytes written up to then are a prefix of the complete encoding, and the written-count equals what the writer accepted.",
  ["fault_sequences","crash_points"],"every write call of every encoding or sequence of primitive writes, failing outright or after accepting part of the data",
  "The tests use in-memory buffers that never fail.",["encoder.go","encoder_bin.go","encoder_borsh.go","encoder_compact-u16.go","tools.go"],[("error propagation","encoder.go Write, toWriter, Write*; encoder_*.go")],["count"])
p("C13","Byte counts equal the encoding's true length",
  "For every value and encoding, the byte-count functions return exactly the length of the encoding, the encoder's written-count equals the bytes it has written, and counting fails exactly when encoding does. The panicking variants of the count functions panic exactly in those cases.",
  ["inputs"],"all types and values in all three encodings, also values that cannot be encoded","The tests count a few structs.",["interface.go","encoder.go"],[("counting writer","interface.go byteCounter, *ByteCount"),("written counter","encoder.go Written")])
p("C14","Borsh encoding is deterministic with sorted map keys",
  "Equal values always have the same Borsh encoding, however their maps were built or have grown. Map entries are written in ascending key order, numerically for numbers and bytewise for strings, at any nesting depth.",
  ["inputs","histories"],"all map-holding values, insertion orders, deletions and growth histories, and repetitions","Map iteration order is random, so a test that happens to pass says nothing about the next run; tests use small maps of few key types.",["encoder_borsh.go"],[("key sorting","encoder_borsh.go map case, vComp")])
p("C15","The compact-u16 codec is exact over its whole domain",
  "Every length from 0 to 65535 has exactly one compact-u16 form, of one to three bytes, which all encoding calls produce and all decoding calls accept, returning the length and the form's size. Every other byte sequence (aliases, overlong, overflowing or truncated forms) is refused, and so is every length outside the range.",
  ["inputs"],"all 65536 lengths and all byte sequences of up to three bytes, through the slice, reader, encoder and decoder calls","The tests try some twenty values.",["compact-u16.go","decoder.go","encoder.go"],[("encode","compact-u16.go EncodeCompactU16Length"),("decode","compact-u16.go DecodeCompactU16, DecodeCompactU16LengthFromByteReader")])
p("C16","Primitive reads invert primitive writes",
  "Each primitive write (fixed-width integers and floats in either byte order, 128-bit integers, varints, booleans, strings, byte slices, lengths, option flags, type ids, raw bytes) produces the documented bytes for every value, and the matching read returns that value and stops right behind it. This holds in all encodings and wherever in a stream the call happens.",
  ["inputs","histories"],"all values of all primitives, in streams of arbitrary order","The tests call each primitive with one or two values.",["encoder.go","decoder.go"],[("writers","encoder.go Write*"),("readers","decoder.go Read*")])
p("C17","Borsh enums select exactly one variant",
  "A Borsh enum is one tag byte followed by the encoding of the chosen variant alone, and decoding sets the tag and that variant and leaves the other variants untouched. An enum whose tag has no variant is refused by encoder and decoder alike; in the other encodings the enum marker has no effect. A struct that only resembles an enum (no marker, or the marker elsewhere) is an ordinary struct.",
  ["inputs","programs"],"all enum types with any number and kind of variants, at any place in a larger value, and all tag bytes","The tests have two enum types with a few variants each.",["encoder_borsh.go","decoder_borsh.go","tags-parser.go"],[("enum encode","encoder_borsh.go encodeComplexEnumBorsh"),("enum decode","decoder_borsh.go deserializeComplexEnum")])
p("C18","Variant dispatch picks the registered type by its id",
  "Decoding a variant reads the type id in the definition's id encoding, decodes exactly the implementation registered for it and reports that id, name and value; looking up a name gives the id that selects it. Unknown ids, truncated ids and failing implementations give an error.",
  ["inputs","configurations"],"all definitions (id encodings, numbers of entries, value and pointer implementations) and all streams of variants","The tests decode one or two variants of small definitions.",["variant.go","sighash.go"],[("definition","variant.go NewVariantDefinition, TypeID"),("dispatch","variant.go UnmarshalBinaryVariant, Obtain")],["typeIDToType","typeIDToName","typeNameToID"])
p("C19","Skipped and unexported fields never touch the wire",
  "Fields tagged to be skipped and unexported fields contribute no bytes, whatever they hold, and decoding leaves them exactly as they were. The other fields are encoded and decoded as if the hidden ones did not exist.",
  ["inputs","programs"],"all structs with hidden fields of any type at any position, and all values","The tests have one struct with a skipped field.",["encoder_bin.go","encoder_borsh.go","encoder_compact-u16.go","decoder_bin.go","decoder_borsh.go","decoder_compact-u16.go","tags-parser.go"],[("skip","encode/decodeStruct* in each encoding")])
p("C20","Optional fields are present exactly when flagged",
  "An optional field is written as its flag (one byte in Borsh and CompactU16, four little-endian bytes in Bin; Borsh coption: four little-endian bytes) followed by the value only when present; a nil or zero value means absent. Decoding an absent field clears it, decoding a present one sets it to the encoded value, the field's other tags still apply, and optionality never leaks to nested or following fields; an invalid coption flag is refused, and an option flag other than 0 or 1 is never taken for absence.",
  ["inputs","programs"],"all optional and coption fields of any type, pointer or value, alone or combined with other tags, nested at any depth","The tests cover a few optional scalars and structs.",["encoder_bin.go","encoder_borsh.go","encoder_compact-u16.go","decoder_bin.go","decoder_borsh.go","decoder_compact-u16.go","decoder.go","encoder.go","tags-options.go"],[("option handling","encode*/decode* opt.is_Optional/is_COptional"),("flags","ReadOption, ReadCOption, WriteOption, WriteCOption")])
p("C21","sizeof ties a slice's length to its count field",
  "A slice whose count is held by another field is written without a length prefix, with as many elements as the count says, and is read back with exactly that many elements, for every integer type of count and every element type. Several counts in one struct do not interfere, and a count that is negative or exceeds the data gives an error.",
  ["inputs","programs"],"all structs with sizeof fields: count types, element types, several pairs, nesting, and all counts","The tests use two structs with small counts.",["encoder_bin.go","encoder_borsh.go","encoder_compact-u16.go","decoder_bin.go","decoder_borsh.go","decoder_compact-u16.go","decoder.go","tags-options.go"],[("size map","encode/decodeStruct* sizeOfMap, sizeof()")])
p("C22","Trailing extension fields are optional on input only",
  "Fields tagged as binary extension are always written; on input they may be missing from the end, one after the other, and each missing one is left as it was. Input that ends inside an extension field is refused, and extension fields that are present are decoded normally.",
  ["inputs","programs"],"all structs with trailing extension fields and every cut of their encodings","The tests have one struct with and without its extensions.",["decoder_bin.go","decoder_borsh.go","decoder_compact-u16.go"],[("extension check","decodeStruct* seenBinaryExtensionField")])
p("C23","Byte-order tags affect exactly their own field",
  "A field tagged big-endian is written and read in big-endian order in the encodings that honour the tag, every other field in little-endian order, and Borsh numbers other than self-marshaling helper types stay little-endian. The order never leaks into nested structs, slice elements, or following fields.",
  ["inputs","programs"],"all placements of byte-order tags on fields of any type, nested at any depth","The tests tag single scalars.",["encoder_bin.go","encoder_borsh.go","encoder_compact-u16.go","decoder_bin.go","decoder_borsh.go","decoder_compact-u16.go","tags-options.go","tags-parser.go"],[("order option","option.Order, currentFieldOpt, fieldOrder")])
p("C24","128-bit integers keep their value in every representation",
  "A 128-bit integer's binary, decimal, hexadecimal, big-integer and JSON forms all denote the same number in either byte order, converting from one form and back loses nothing, and signed values denote the two's complement reading of their bits. Texts that do not denote a 128-bit number are refused.",
  ["inputs"],"all 2^128 values in both byte orders and all decimal texts (without leading zeros) and 0x-prefixed texts","The tests check a handful of values, mostly positive and little-endian.",["u128.go","utils.go","encoder.go","decoder.go"],[("conversions","u128.go Bytes, BigInt, String, DecimalString, HexString, MarshalJSON, UnmarshalJSON"),("signed","u128.go Int128, utils.go twosComplement")])
p("C25","JSON helper types round-trip through JSON",
  "The 64-bit integer, float, boolean and hex-bytes helper types survive JSON exactly: integers beyond 32 bits in magnitude (above 0xffffffff) are written as strings and smaller ones as numbers, both forms are accepted on input for integers and floats, booleans also accept a number (non-zero is true), and hex bytes are lowercase hexadecimal strings. Documents that do not denote such a value are refused, and leave the previous value as it was.",
  ["inputs"],"all values of each helper type, plain and inside structures, and all JSON documents","The tests check a few numbers.",["types.go"],[("JSON methods","types.go MarshalJSON/UnmarshalJSON of Int64, Uint64, JSONFloat64, Bool, HexBytes")])
p("C26","Sighash and case conversion follow the Anchor conventions",
  "An instruction or account discriminator is the first eight bytes of the SHA-256 of its namespace, a colon and its name, for every name, with instruction names put in snake case and account names in Pascal case first. Case conversion splits words as Rust's heck does, so that differently spelled names of the same words agree, and neither panics on nor garbles any text.",
  ["inputs"],"all names and namespaces, including empty, digits, punctuation, acronyms and non-ASCII","The tests list some names.",["sighash.go","heck.go","variant.go"],[("hash","sighash.go Sighash, SighashInstruction, SighashAccount, SighashTypeID"),("words","heck.go ToPascalCase, ToRustSnakeCase, ToSnakeForSighash")])
p("C27","Independent encoders and decoders are safe to use concurrently",
  "Goroutines that each use their own encoder or decoder may at the same time encode the same value, decode the same input, use the same types for the first time and share variant definitions and helper values, without data races. Each gets exactly the result it would have got alone.",
  ["schedules"],"all interleavings of goroutines working on shared read-only values, inputs, types and definitions","The tests are sequential.",["encoder.go","decoder.go","interface.go","variant.go","tags-parser.go","heck.go","sighash.go"],[("no shared mutable state","package-level variables; encoder and decoder fields")])
p("C28","A used encoder or decoder behaves like a fresh one",
  "Whatever an encoder or decoder has done before (other types, primitive calls, refused values, failed writes, failed decodes, resets, switches of encoding), its next operation gives the same bytes, value, error and cursor movement as a fresh one would. The result for a type does not depend on other types with the same printed name having been used before.",
  ["histories"],"all histories of operations on one encoder or decoder","The tests use a new encoder or decoder for each case.",["encoder.go","decoder.go","tags-options.go"],[("per-object state","Encoder.currentFieldOpt/count, Decoder.currentFieldOpt/depth/pos, Reset, SetEncoding")],["currentFieldOpt","depth","pos","count"])
p("C29","Self-marshaling types are called once each, in order, and obeyed",
  "A type with its own marshal and unmarshal methods is encoded and decoded by exactly one call to them per value, in wire order, at the exact stream position, wherever it occurs (fields, options, pointers, elements, map keys and values) and whatever its kind. An error from such a method stops the operation at once and is the cause of the returned error.",
  ["inputs","programs","fault_sequences"],"all placements of self-marshaling types and any one of the calls failing","The tests have a few custom types in simple places.",["encoder_bin.go","encoder_borsh.go","encoder_compact-u16.go","decoder_bin.go","decoder_borsh.go","decoder_compact-u16.go","decoder.go","interface.go"],[("marshaler dispatch","encode* BinaryMarshaler check"),("unmarshaler dispatch","decoder.go indirect, decode* unmarshaler")])
p("C30","Decoding into a used target equals decoding into a fresh one",
  "Decoding into a variable that already holds a value, or the remains of a failed decode, succeeds or fails as into a fresh one and leaves the same wire-visible value. Only what the wire does not carry (hidden fields, unchosen enum variants, missing extension fields) survives. The elements of slices and maps are new ones, in which nothing survives.",
  ["histories","inputs"],"all previous contents of the target and all inputs","The tests decode into zero values.",["decoder_bin.go","decoder_borsh.go","decoder_compact-u16.go","decoder.go"],[("target reset","decode* slice, map and option cases, indirect")])
p("C31","Safe strings are always valid UTF-8",
  "A string read through the UTF-8 safe call or type is valid UTF-8 whatever bytes the input holds: every valid character is kept and every invalid byte is replaced by U+FFFD. Plain strings are returned byte for byte.",
  ["inputs"],"all byte strings as string contents in all encodings","The tests use one invalid string.",["decoder.go","types.go"],[("sanitising","decoder.go SafeReadUTF8String, fixUtf")])
p("C32","Borsh refuses NaN in both directions",
  "No NaN of either float width, whatever its sign and payload, is ever written to or read from Borsh, at any place in a value or through the primitive calls: the operation returns an error. All other floats, infinities and signed zeros included, pass unchanged, and the other encodings carry NaN bit for bit.",
  ["inputs"],"all float bit patterns at all places","The tests try one NaN.",["encoder.go","decoder.go"],[("NaN checks","WriteFloat32/64, ReadFloat32/64")])
p("C33","Values that do not fit are refused, never truncated",
  "A length or number that the format or the target type cannot represent is refused with an error: collections too long for their length prefix, out-of-range lengths, varints too large for a narrow reader, and JSON numbers outside the type's range. Whatever is accepted is represented exactly.",
  ["inputs"],"all lengths and numbers around and beyond every representable limit, on every path that narrows them","The tests stay far from the limits.",["encoder.go","decoder.go","compact-u16.go","types.go","u128.go"],[("length checks","encoder.go WriteLength, compact-u16.go"),("varint checks","decoder.go ReadVarint16/32, ReadUvarint16/32")])
p("C34","Invalid targets and unsupported types give errors, not panics",
  "Decoding into nil, a nil pointer or a non-pointer returns the invalid-target error and consumes nothing. Encoding or decoding a value that contains an unsupported type (platform-sized integers, channels, functions, complex numbers and the like, or a Borsh map whose keys cannot be ordered) at any depth, or encoding a value that contains itself, returns an error, never a panic, crash or silent success, while hidden fields of such types do not matter.",
  ["inputs","programs"],"all invalid targets and all placements of unsupported types","The tests try a non-pointer target.",["error.go","decoder_bin.go","decoder_borsh.go","decoder_compact-u16.go","encoder_bin.go","encoder_borsh.go","encoder_compact-u16.go"],[("target check","decodeWithOption*"),("type switch","encode*/decode* default cases, isSortable")])
p("C35","All entry points of an encoding agree",
  "Marshaling functions, constructors, generic constructors and byte counting give the same bytes, length or refusal for a value, passed by value or by pointer and to any writer. Unmarshaling functions, decoders, reset or repositioned decoders and pointer-to-pointer targets give the same value, error and consumption for an input.",
  ["inputs","configurations"],"all types, values and inputs, valid and damaged, through every entry point","The tests use one entry point per case.",["interface.go","encoder.go","decoder.go","tools.go"],[("entry points","Marshal*, Unmarshal*, New*Encoder, New*Decoder, Reset, SetEncoding, WriteByWrite")])
p("C36","The recording writer shows exactly what was written",
  "The recording writer keeps every write it receives, in order and as it was at that moment, whatever is later done to the buffers or to the bytes it returned. Its bytes are the encoding written to it, its report lists each write with its bytes and length, and the byte formatters name every byte.",
  ["histories","inputs"],"all sequences of writes, encodings and reports, with buffers reused in between","The tests print a report and never reuse a buffer.",["tools.go"],[("recorder","tools.go WriteByWrite, NewWriteByWrite"),("formatting","tools.go FormatByteSlice, FormatDiscriminator")],["writes"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
techs={}
C=[]
tech={
"C07":"crash/hang monitoring of hostile decodes (panic, stack, OOM and CPU-time watchdog)",
"C09":"allocation accounting of the runtime around hostile decodes",
"C10":"online cursor-machine monitor over random read/seek histories",
"C11":"deep memory snapshots, guard bytes and aliasing probes around encode and decode",
"C12":"fault-injecting writer at every write call, monitored output log",
"C27":"Go race detector plus comparison with sequential results under crowds of goroutines",
"C28":"online comparison of a used object with a fresh one over random histories",
"C29":"trace monitor over logged marshaler calls, with injected refusals",
"C36":"trace comparison of a recording writer with an independent log of the same writes",
"C15":"exhaustive execution of the codec under a reference monitor",
}
for x in P:
    i=x["id"]
    C.append({"property":i,"quick_cmd":f"bash /verif/check.sh {i} quick","thorough_cmd":f"bash /verif/check.sh {i} thorough",
      "technique":"runtime monitoring: "+tech.get(i,"reference-model oracle over generated types, values and inputs"),
      "level":"fault_enumeration" if i=="C12" else "exploration",
      "level_note":{"C12":"every write call of each sampled encoding fails once per failure mode; the encodings themselves are sampled","C15":"all lengths and all byte sequences up to three bytes are executed","C27":"interleavings are sampled by the scheduler with injected yields; the race detector generalises over the happens-before order of each run"}.get(i,"executions are sampled from boundary-biased generators; the oracle is exact on each")})
json.dump({"version":1,"setup_cmd":"bash /verif/setup.sh","checks":C,"not_applicable":[]},open('/verif/MANIFEST.json','w'),indent=1)
