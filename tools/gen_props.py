import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": observe, "hook_needed": None}})
WF, FI, FS, RF, RX, MI, MC = ("src/WireFormatter.h", "src/Fields.h", "src/FieldStringBytes.h", "src/RepeatedField.h",
    "src/RepeatedFieldFixedSize.h", "src/MessageInterface.cpp", "src/MessageSizeCalculator.h")
WB, RB, RS = "src/WriteBufferFixedSize.h", "src/ReadBufferFixedSize.h", "src/ReadBufferSection.cpp"
T = "generator/EmbeddedProto/templates/"
GEN = ["generator/EmbeddedProto/Field.py", "generator/EmbeddedProto/TypeDefinitions.py", "generator/EmbeddedProto/Oneof.py", T + "TypeDefMsg.h", T + "TypeOneof.h"]

p("C01", "Scalar values are encoded exactly as the protobuf wire format says",
  "For every scalar field type, every value and every field number, encoding the value (with or without its tag) appends exactly the protobuf wire bytes: the tag varint (field number and wire type), and base-128 varint, zig-zag, little-endian fixed or one-byte bool payload, where a negative int32 or enum is the varint of its 32 bit pattern. "
  "Encoding reports success exactly when the whole encoding fits in the space left in the write buffer and BUFFER_FULL otherwise, and in neither case are bytes that were in the buffer before changed.",
  ["inputs"], "all 2^32 / 2^64 values of each of the 13 scalar types and enums, all field numbers, all amounts of free space in the buffer",
  "The tests encode a handful of values per type into a buffer that is large enough or has one particular size; 2^64 values times every remaining size cannot be sampled.",
  [WF, FI], [("varint, zig-zag, fixed and tag encoders", WF), ("per-type selection of the encoder", FI)], ["bytes received by the write buffer", "returned error"])
p("C02", "Scalar decoding is correct for every byte sequence and leaves the value on error",
  "Decoding a scalar field from any byte sequence yields the value the protobuf wire format assigns to the longest valid prefix and consumes exactly its bytes; for 32 and 64 bit signed integers, zig-zag integers and bool the varint may have up to ten bytes and is reduced to the type, for uint32 and enum up to five. "
  "A varint that is too long gives OVERLONG_VARINT, data that ends early gives END_OF_BUFFER, a wire type other than the field's gives INVALID_WIRETYPE without consuming anything, and in all error cases the field keeps the value it had.",
  ["inputs"], "every byte sequence of every length in front of the decoder, every wire type, every previous value of the field",
  "The tests decode a few well-formed and a few truncated encodings per type; malformed and non-canonical encodings form an unbounded set.",
  [WF, FI], [("varint and fixed decoders with their length limits", WF), ("wire type check", FI)], ["field value", "read position", "returned error"])
p("C03", "Every scalar value survives encoding and decoding",
  "For every scalar type and every value, encoding into a write buffer with enough room and decoding those bytes gives back exactly the same value (bit for bit, also for float and double) and consumes exactly the bytes that were written.",
  ["inputs"], "all values of all scalar types",
  "Round trips are tested on a few sample values only.",
  [WF, FI], [("encoders and decoders are inverse", WF)], ["decoded value", "read position"])
p("C04", "Fixed size write buffers append exactly, accept an exact fit and never overflow",
  "A fixed size write buffer of any capacity behaves as a bounded append-only byte sequence: pushing one byte or a block succeeds exactly when it fits in the remaining space and then appends exactly those bytes in order, otherwise it reports failure and changes nothing; no byte outside its storage is ever written. "
  "Its used, maximum and available sizes always agree with the sequence, clearing empties it, and the size calculator counts exactly the bytes pushed into it without ever refusing.",
  ["inputs", "histories"], "every capacity, every history of push, block push (any length up to 2^32-1) and clear",
  "Tests push a few bytes at one capacity; the exact-fit and wrap-around corners need specific lengths at a specific fill level.",
  [WB, MC], [("bounds test in push", WB), ("size accounting", MC)], ["buffer contents", "sizes", "push result"], [("write_index_", "number of bytes in the buffer", WB)])
p("C05", "Fixed size read buffers deliver the stored bytes once, in order, and no more",
  "A fixed size read buffer of any capacity delivers exactly the bytes stored in it, in order and each once: pop and peek return the next unread byte while there is one and fail without effect afterwards; peek consumes nothing; advance skips the requested number of bytes, or, when fewer are left, all of them, and returns whether that many were left. "
  "The number of stored bytes never exceeds the capacity, storing is refused when full, and no byte outside the storage is accessed.",
  ["inputs", "histories"], "every capacity, every history of push, set_bytes_written, pop, peek, advance (any count up to 2^32-1) and clear",
  "Tests read a short prepared buffer; wrap-around needs counts near 2^32 after some reads.",
  [RB], [("read and write index tests", RB)], ["bytes returned", "results", "sizes"], [("read_index_ / write_index_", "bytes consumed / stored", RB)])
p("C06", "A length-limited section never reads beyond its length or its parent",
  "Reading through a section of n bytes of a parent buffer delivers the same bytes the parent would deliver, never more than n in total and never more than the parent has, and consumes from the parent exactly the bytes read or skipped through the section; once it is exhausted, reading, peeking and advancing by one or more bytes fail without touching the parent. "
  "Its reported size is always n (limited to what the parent reports at the start) minus the bytes read through it and the bytes it was asked to skip, never below zero.",
  ["inputs", "histories"], "every parent content and position, every section length up to 2^32-1, every history of pop, peek and advance, including nested sections",
  "Tests use a mocked parent and a few calls.",
  [RS, "src/ReadBufferSection.h"], [("remaining byte count", RS)], ["bytes delivered", "parent position", "size reported"], [("size_", "bytes of the section not consumed yet", RS)])
p("C07", "The computed serialized size is exactly the number of bytes serialization writes",
  "For every field and message in every reachable state the reported serialized size equals the number of bytes that serialization without a size limit writes, and every length prefix written for an embedded message, string, bytes or packed repeated field equals the number of payload bytes that follow it. "
  "Serialization into a buffer with at least that much space left succeeds and with less it reports BUFFER_FULL.",
  ["inputs", "programs"], "every message state of every field kind and nesting, every amount of free space",
  "Tests compare the size for a few fixed messages only.",
  [MC, "src/Fields.cpp", MI, RF, FS], [("dummy serialization into the size calculator", MC), ("length prefixes", MI), ("packed size", RF)], ["serialized_size()", "bytes written", "length prefixes"])
p("C08", "String and bytes fields hold exactly what was set, within their maximum length",
  "A string or bytes field holds the byte sequence last stored in it: storing a sequence of at most the maximum length stores exactly it, storing a longer one with an explicit length is refused with ARRAY_FULL and leaves the content unchanged, a C string is cut off at the maximum length, and element access outside is limited to the last element or reported as INDEX_OUT_OF_BOUND. "
  "Decoding accepts exactly the sequences up to the maximum length, embedded zero bytes included, replaces the old content, and reports ARRAY_FULL for longer ones and END_OF_BUFFER for truncated ones; encoding writes exactly the content.",
  ["inputs", "histories"], "every content, every length, every maximum length, every history of operations",
  "Tests use one or two short strings per operation.",
  [FS], [("length checks in set, get and deserialize", FS)], ["length and bytes of the field", "returned error", "bytes written"], [("current_length_", "number of bytes held", FS)])
p("C09", "Repeated fields are bounded sequences and never exceed their maximum length",
  "A repeated field behaves as a bounded sequence: adding appends and is refused with ARRAY_FULL without effect when full; storing an array replaces the sequence or is refused with ARRAY_FULL without effect; writing or mutably accessing index i reaches element min(i, maximum-1), leaves all other elements as they were and extends the length to include it; checked reading beyond the length reports INDEX_OUT_OF_BOUND. "
  "Copying or assigning gives an equal sequence that is independent of the source, and clearing gives the empty sequence.",
  ["inputs", "histories"], "every element type, every maximum length, every sequence content, every index up to 2^32-1, every history of operations",
  "Tests exercise short sequences of integers at one maximum length.",
  [RF, RX], [("index limiting and length update", RX)], ["length", "elements", "returned error"], [("current_length_", "number of elements", RX)])
p("C10", "Repeated fields use the protobuf wire format and decode every valid encoding",
  "A repeated field of scalars is written as one length-delimited record with the elements packed in order, a repeated field of messages, strings or bytes as one length-delimited record per element in order, and an empty one writes nothing; decoding appends the elements of each record in order to those already present. "
  "More elements than the maximum length gives ARRAY_FULL, a truncated or malformed record gives an error and never success, and no element beyond the record is read.",
  ["inputs"], "every element type, every sequence content, every byte sequence being decoded, every number of records",
  "Tests decode a few hand written records; truncation can happen at every byte of every element.",
  [RF, RS], [("packed and unpacked encoders and decoders", RF)], ["bytes written", "length and elements after decoding", "returned error"])
p("C11", "Messages serialize to exactly the protobuf encoding of their set fields",
  "Serializing a message appends exactly the concatenation of the protobuf encodings of its fields: a plain field is written exactly when it differs from its default, an optional or oneof member exactly when it is present (also with the default value), an embedded message exactly when it is present or not empty, each with the field number and wire type of the schema and the plain fields in schema order followed by the oneofs. "
  "It reports success exactly when everything fits and BUFFER_FULL otherwise, and does not change the message.",
  ["inputs", "programs"], "every schema built from the supported field kinds and every state of its messages, every amount of free space",
  "Tests serialize a few messages of the test schemas with selected fields set.",
  GEN + [T + "FieldBasic_Serialize.h", T + "FieldEnum_Serialize.h", T + "FieldMsg_Serialize.h", T + "FieldRepeated_Serialize.h", T + "FieldStringBytes_Serialize.h", MI],
  [("generated serialize()", T + "TypeDefMsg.h"), ("embedded message framing", MI)], ["bytes written", "returned error"])
p("C12", "Message decoding stores exactly the fields on the wire, in any order",
  "Decoding a message from any byte sequence processes the records one after the other in whatever order they come: each known field takes the value of its last occurrence (embedded messages are merged, repeated fields appended to), fields that are not on the wire keep their state, and decoding ends successfully exactly when all the data was consumed record by record. "
  "A malformed tag, wire type mismatch, field number zero, over-long varint, truncated known field or too long repeated, string or bytes field gives the corresponding error, and decoding always terminates, consuming at least one byte per record.",
  ["inputs", "programs"], "every byte sequence and every previous message state, for every schema built from the supported field kinds",
  "Tests decode a few well-formed messages and a few truncations.",
  GEN + [T + "FieldBasic_Deserialize.h", T + "FieldEnum_Deserialize.h", T + "FieldMsg_Deserialize.h", MI, WF],
  [("generated deserialize() record loop", T + "TypeDefMsg.h"), ("embedded message framing", MI)], ["message state after decoding", "read position", "returned error"])
p("C13", "Unknown fields are skipped exactly and never disturb the message",
  "A record whose field number is not in the schema is skipped exactly, whatever its number, wire type (varint, 32 bit, 64 bit, length delimited) and content, so that the records after it decode as if it were not there, and the message is not changed by it. "
  "A record with a deprecated group wire type or an unknown wire type is rejected with INVALID_WIRETYPE, and a truncated unknown varint or fixed size record gives END_OF_BUFFER.",
  ["inputs", "programs"], "every unknown field number, wire type and payload at every position among other records",
  "Tests skip one hand written record per wire type.",
  [MI, T + "TypeDefMsg.h"], [("skip_unknown_field", MI)], ["message state", "read position", "returned error"])
p("C14", "Optional presence is tracked per field and at most one oneof member is set",
  "An optional field reports presence exactly when it was set, mutably accessed or received since it was last cleared, independently of all other fields, however many optional fields the message has; at most one member of a oneof is set at any time, it is the one set, mutably accessed or received last, and it holds that value. "
  "Setting another member releases the old one, clearing one that is not set changes nothing, and a failed reception of a oneof member leaves the oneof not set.",
  ["inputs", "histories", "programs"], "every history of set, mutable access, clear, assignment and decoding, for every number and mix of optional fields and oneofs",
  "Tests walk a few histories over messages with few optional fields and oneof members.",
  GEN + [T + "FieldBasic_GetSet.h", T + "FieldEnum_GetSet.h", T + "FieldMsg_GetSet.h", T + "FieldString_GetSet.h", T + "FieldBytes_GetSet.h"],
  [("presence bit array", T + "TypeDefMsg.h"), ("which_ discriminator and placement construction", T + "TypeOneof.h")], ["has_ / get_which_ / get_ of all fields"])
p("C15", "Copies are equal and independent; clear restores the initial state",
  "Copy or move construction and copy or move assignment of a message, from any state into any state, make the target equal to the source in every field value, every presence and every oneof, leave the source unchanged, and the two do not share storage afterwards; assigning a message to itself changes nothing. "
  "After clearing, a message is indistinguishable from a newly constructed one: all fields default, nothing present, nothing set, and it serializes to nothing; each field's own accessors set, return and clear exactly that field.",
  ["inputs", "histories", "programs"], "every pair of source and target states of every schema",
  "Tests copy one or two messages with selected fields.",
  GEN + [T + "FieldBasic_GetSet.h", T + "FieldMsg_GetSet.h", T + "FieldRepeated_GetSet.h", RX, FS],
  [("generated constructors, assignment operators, clear()", T + "TypeDefMsg.h")], ["all observers of both messages", "serialized bytes"])
p("C16", "Text rendering never writes outside the given character array",
  "Rendering a message as text into a character array of any size, for any message state, writes only inside that array, leaves a terminated string in it when its size is not zero, reads only initialised content of the fields, and returns a view that lies within the array.",
  ["inputs", "programs"], "every message state, every array size including too small ones, every indentation",
  "The tests render into one array that is large enough.",
  [FI, FS, RF, T + "TypeDefMsg.h", T + "TypeOneof.h"], [("clamped advance after each formatted print", "src/Defines.h")], ["memory outside the array", "returned view"])
p("C17", "Messages survive serialization and deserialization",
  "For every message in every reachable state, serializing it into a buffer with enough room and decoding the bytes into a cleared message of the same type succeeds, consumes all the bytes and gives a message equal to the original in every field value, presence and oneof (a plain floating point minus zero may come back as zero).",
  ["inputs", "programs"], "every state of every message type built from the supported field kinds",
  "Round trips are tested on a few sample messages.",
  GEN + [WF, FI, FS, RF, MI], [("serialize and deserialize are inverse", T + "TypeDefMsg.h")], ["decoded message", "returned errors"])
p("C18", "No input causes out-of-bounds access, undefined arithmetic or an endless loop",
  "Whatever bytes are decoded, whatever indices, lengths and values are passed to the accessors and whatever state a message is in, the library only accesses memory inside the objects it was given, never reads beyond the data in the read buffer, has no signed overflow or invalid shift, and every operation terminates.",
  ["inputs", "histories", "programs"], "every byte sequence, argument and message state",
  "Sanitizers on tests only see the sampled inputs.",
  [WF, FI, FS, RF, RX, MI, RS, WB, RB, T + "TypeDefMsg.h", T + "TypeOneof.h"], [("index and length limits throughout", "src/")], ["memory accesses"])
p("C19", "No operation of the library allocates memory dynamically",
  "No operation of the library or of generated messages (construction, access, copy, clear, serialization, size computation, deserialization) allocates or frees heap memory, throws, or uses recursion or stack that grows with the input beyond the nesting of the schema.",
  ["inputs", "programs"], "every operation of every message type, every input",
  "Not observable by the assertions of the tests.",
  ["src/", T + "TypeDefMsg.h", T + "TypeOneof.h"], [("fixed size members and placement construction", T + "TypeOneof.h")], ["calls to allocation functions"])
p("C20", "Field numbers and names of generated messages are those of the schema",
  "For every generated message the field number constants equal the numbers in the schema, and looking up the name of a field number gives the name of the schema field for every number in the schema and the fixed text for invalid numbers for every other one of the 2^32 values; enumeration constants have the values of the schema.",
  ["inputs", "programs"], "every 32 bit field number, every schema",
  "Tests look up a few numbers.",
  GEN + [T + "TypeDefEnum.h"], [("generated constants and field_number_to_name", T + "TypeDefMsg.h")], ["returned name", "constants"])
open("/verif/properties.jsonl", "w").write("".join(json.dumps(x) + "\n" for x in P))
