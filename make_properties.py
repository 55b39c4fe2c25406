import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None):
    a={"files":["runtime/src/zserio/"+f if "/" not in f or f.startswith("pmr/") or f.startswith("ppmr/") else f for f in files],"mechanism":mech}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Bit stream write/read sequences behave as one vector of bits",
"Any sequence of writes, alignments and position moves on a bit stream produces exactly the bits that writing each value's bits one after another would produce, and touches no bit outside the written value. Reading the stream back with the matching sequence of reads, alignments and moves returns the same values from every bit position and ends at the same position. Reading does not depend on how the reads before it were sized.",
["inputs","histories"],"every operation sequence up to the depth, every start bit position, widths 1..64",
"the reader and the writer treat aligned and unaligned positions, and reads within or across the cached word, differently; unit tests try a few fixed sequences",
["BitStreamReader.cpp","BitStreamReader.h","BitStreamWriter.cpp","BitStreamWriter.h"],
"byte-wise writer with masking; reader with a 64/32-bit look-ahead cache reloaded at byte boundaries",
[("bit position","next bit to read or write"),("cache","look-ahead word and how many of its bits are still unread")])
p("C02","Every built-in type has its documented wire encoding",
"Each value of each built-in type (bool, fixed and variable width integers, variable-length integers, floats, bytes, strings, bit buffers) is encoded as the format prescribes: most significant bit first, two's complement or sign-magnitude, shortest variable-length form, length prefix as variable size. Decoding inverts encoding, accepts over-long variable-length forms with their numeric value, and rejects an encoded size beyond the maximum of the size type.",
["inputs"],"every value around every length and sign boundary of every type, every 1..3 byte encoding, at every bit offset",
"interoperability with other implementations depends on every magnitude and every continuation pattern, tests list a handful of values and round-trip them with the same library",
["BitStreamReader.cpp","BitStreamWriter.cpp","Types.h","FloatUtil.cpp"],
"variable-length number encoder and the unrolled decoders")
p("C03","The predicted bit size is what is written and what is consumed",
"For every value, of a built-in type, an array, a packed array or a compound object, the bit size computed in advance for a start position equals the number of bits written from that position and the number of bits consumed when reading it back. Offsets computed in advance are the byte positions at which the data is then written.",
["inputs"],"every value of the alphabets, every start bit position 0..7 and sizes up to beyond 512 MiB",
"an off-by-one for one alignment or one size class only shows for particular values at particular positions; buffers are allocated from this number, so a wrong one fails or corrupts",
["BitSize.h","ArrayTraits.h","ArrayView.h","DeltaContext.h","SerializeUtil.h"],
"separate size computation mirrored against the writer")
p("C04","Reading arbitrary or truncated bytes never goes outside the buffer",
"Whatever bytes a buffer holds and wherever it is cut, even within a byte, decoding either returns a value or throws the library's exception: it does not read outside the buffer, crash or loop, and it never reserves memory in advance for a claimed length that the input cannot hold. The position never passes the end, and after a failed read later reads still return the bits at the reported position.",
["inputs","fault_sequences"],"every short byte string over the alphabet, every truncation point, every sequence of reads including failed ones",
"corruption and truncation points are combinatorial; tests contain one or two truncated buffers",
["BitStreamReader.cpp","BitStreamReader.h","ArrayView.h","DeltaContext.h","SerializeUtil.h"],
"end-of-stream checks at cache reload, length checks before bulk reads, array preallocation cap")
p("C05","A writer never writes past its capacity and a counting writer agrees",
"Writing a value that does not fit the remaining capacity throws the insufficient-capacity exception without touching a byte beyond the capacity, and writing one that fits succeeds, for every capacity in bits. A writer without a buffer accepts everything and ends at the same position as a writer with a buffer. After a rejected write the position is within the capacity and further writes that fit are stored correctly.",
["inputs","fault_sequences"],"every capacity in bits up to the bound, every operation sequence up to the depth",
"the last partial byte and the point of overflow in the middle of a multi-part write are edge cases of every operation",
["BitStreamWriter.cpp","BitStreamWriter.h","BitBuffer.h","SerializeUtil.h"],
"capacity checks before each primitive part of a write")
p("C06","Values outside a type's range are rejected, values inside are not",
"A value outside the range of its field's type (bit width, variable-length type, enumeration, size) is rejected with the library's exception when it is validated, checked-constructed or written, and a value inside is always accepted and preserved. The declared minimum and maximum of every numeric type are the ends of its range.",
["inputs"],"every width 1..64 signed and unsigned, values around every boundary",
"128 width/sign combinations with several boundaries each; tests cover some of them",
["Types.h","Types.cpp","SizeConvertUtil.cpp","BitFieldUtil.cpp","BitStreamWriter.cpp","OutOfRangeException.cpp"],
"range tables and checked conversions")
p("C07","Unpacked arrays and their offsets round-trip in every layout",
"An array of any element type and length, laid out as fixed, length-prefixed, implicit-length and optionally byte-aligned, reads back equal to what was written, at any start position. With offsets, alignment is inserted before each element and the offsets initialised in advance match the positions at which the elements are written and read.",
["inputs"],"every array over a small value alphabet up to the length bound, every layout, every start bit position",
"layout x element type x length x alignment is a product space; tests use one array per kind",
["Array traits".replace("Array traits","ArrayTraits.h"),"ArrayView.h","Vector.h"],
"generic array reader and writer parameterised by layout and element traits")
p("C08","Packed arrays decode to the elements that were encoded",
"Packing is lossless: every array of integers, booleans, enumerations, bitmasks or compound elements (whatever their fields), in every length, layout and start position, decodes to the same elements. This holds whether or not delta packing is chosen, for any mixture of equal, small and maximal differences including ones that overflow the element type, and the packed form follows the documented descriptor, first value and deltas.",
["inputs"],"every array over boundary values up to the length bound for every packable element type",
"whether and how packing applies depends on all differences together; tests try chosen sequences",
["DeltaContext.h","ArrayView.h","ArrayTraits.h"],
"delta context: maximum delta bit number, packed flag, first element, delta accumulation",
[("delta context","packing flag, delta width, first/previous element")])
p("C09","The optional container behaves as an optional value",
"Under every sequence of constructions, assignments, moves, swaps, emplacements, resets and accesses, the optional container, in place or on the heap, recursive or not and with any allocator, holds what a plain optional would hold. It compares and hashes accordingly, throws its own exception when an absent value is read, destroys each held object exactly once, and leaks nothing when an operation throws.",
["histories","fault_sequences"],"every operation sequence up to the depth over two or three containers, every fault point",
"state depends on the history of earlier operations and on which of them threw",
["Optional.h","Optional.cpp","AllocatorHolder.h","pmr/Optional.h","ppmr/Optional.h"],
"in-place or heap storage with allocator propagation")
p("C10","The variant container holds exactly one alternative",
"Under every sequence of constructions, assignments, moves, swaps and emplacements, the variant reports the index and value of the last alternative set and refuses access to any other with an exception. Copies are independent, visiting reaches the held alternative, comparison and hashing agree with the held value, and each held object is destroyed exactly once even when constructing an alternative throws.",
["histories","fault_sequences"],"every operation sequence up to the depth, every fault point, small and heap-stored alternatives",
"the small/heap storage decision and failures part-way depend on the previous alternative and the allocator",
["Variant.h","Variant.cpp","UniquePtr.h","AllocatorHolder.h"],
"tagged storage with heap fallback for large alternatives")
p("C11","The type-erased holder keeps its value and its type",
"Under every sequence of sets, copies, moves, swaps, resets and typed reads, the type-erased holder reports a value exactly when one is set, returns it for its own type and throws for any other. Small values in place and large values on the heap behave alike with every allocator, copies are independent and each held object is destroyed exactly once even when copying throws.",
["histories","fault_sequences"],"every operation sequence up to the depth over two or three holders, every fault point",
"storage class, allocator equality and ownership depend on the whole history",
["Any.h","AllocatorHolder.h","pmr/Any.h","ppmr/Any.h"],
"polymorphic holder with small-buffer optimisation")
p("C12","Floating point conversions follow IEEE 754",
"Converting any 16-bit pattern to a float and back is the identity up to the payload of not-a-number values, and any float is narrowed to 16 bits by rounding to the nearest number (halves away from zero, half of the least subnormal to zero), with correct subnormals and signs, numbers beyond the largest becoming infinity and not-a-number staying not-a-number. 32- and 64-bit patterns convert bit-exactly in both directions.",
["inputs"],"all 65536 half patterns, all 2^32 single patterns, boundary grid of 64-bit patterns",
"rounding and subnormal cases are value specific",
["FloatUtil.cpp","FloatUtil.h"],
"bit manipulation of sign, exponent and significand")
p("C13","Equality, ordering and hashing are mutually consistent",
"For every pair and triple of values of a type (built-in types, arrays, optionals, variants, extended values, compound data and views), equality is an equivalence, less-than is a strict weak order consistent with it, the six operators agree, and equal values hash equally. Not-a-number values are exempt.",
["inputs"],"every pair and triple over the alphabet of each type",
"laws quantify over pairs and triples across different shapes; tests compare a few pairs",
["HashCodeUtil.h","Types.h","BitBuffer.h","Optional.h","Variant.h","Bitmasks.h","Span.h"],
"field-wise comparison and hash combination")
p("C14","JSON text is tokenised and parsed as its grammar says",
"For every input text, tokens, values and events are those of the reference grammar, with correct line and column positions, and the result does not depend on where the input is split into chunks. Malformed text is rejected with the parser's exception, and no input makes it crash, read outside the input or hang. The grammar is JSON's plus NaN and the infinities, and an escaped character up to U+00FF.",
["inputs"],"every text up to the length bound over the grammar's characters, every chunk split",
"token boundaries at buffer refills and malformed inputs are combinatorial; tests contain chosen ones",
["JsonTokenizer.cpp","JsonTokenizer.h","JsonDecoder.h","JsonParser.h"],
"chunked tokenizer over a refilled character buffer",
[("tokenizer","buffered chunk, position in it, pending token")])
p("C15","JSON text of a value decodes to the same value",
"Encoding any null, boolean, integer, float, or string to JSON text and decoding it returns the same value, with control characters, quotes, backslashes and multi-byte characters preserved and floats still recognisable as floats and numerically identical. Integers outside the 64-bit range and malformed literals are rejected rather than altered.",
["inputs"],"every integer boundary, every float of a structured grid, every short string over special characters",
"exact round trip is a property of each value, tests compare some literals",
["JsonEncoder.cpp","JsonEncoder.h","JsonDecoder.h"],
"text encoder and the number/string literal decoder")
p("C16","Debug JSON of an object reads back into an equal object",
"Writing any object, including null optionals, empty and nested arrays, choices, unions, enums, bitmasks, bytes and bit buffers, as debug JSON and reading it back gives an equal object, for compact and indented output. Input that does not match the type is rejected with the library's exception, with no crash and no leak.",
["inputs"],"every object over a small alphabet for each field, every indent, every single-token corruption",
"object shapes are a product space; tests use one or two objects",
["DebugStringUtil.h","JsonWriter.h","JsonReader.h","ZserioTreeCreator.cpp","Walker.h","ReflectableUtil.h"],
"tree walker emitting JSON, JSON parser driving a tree creator")
p("C17","Walking a tree reports every node once and filters only what they say",
"Walking any object calls the observer once per node in schema order, with balanced begin and end calls and correct element indexes, absent optional fields as null values, and for arrays every element. Depth, array-length, path-pattern and combined filters suppress exactly the nodes they are defined to suppress and nothing else.",
["inputs","configurations"],"every object shape over the alphabet with every filter configuration",
"filters keep a state across nested calls, so correctness depends on the whole walk",
["Walker.h","WalkerConst.h","IWalkFilter.h","IWalkObserver.h"],
"recursive walk with filter callbacks before and after each node",
[("filters","current depth and current path")])
p("C18","Reflection reads, writes and resizes the object it stands for",
"Under every sequence of reflective reads, writes, resizes, appends, sets of optional fields and path lookups, the reflection shows and changes exactly the corresponding part of the underlying object and nothing else. Conversions succeed exactly when they are lossless or documented, and every other access throws the library's exception and leaves the object unchanged.",
["histories","inputs"],"every operation sequence up to the depth over every reflected kind",
"the type conversions and index checks are a product of kinds and operations",
["ReflectableData.h","ReflectableUtil.h","IReflectableData.h"],
"type-erased accessors generated per type over the real object")
p("C19","Introspection of a view shows what the view holds",
"For every object, introspecting its view returns for each field, parameter, function and element exactly the value the typed view returns, converts only where lossless, and throws the library's exception for kinds, names, paths and indexes that do not apply.",
["inputs"],"every object shape over the alphabet, every accessor and conversion on every node",
"accessor x kind is a product space",
["IntrospectableView.h","IntrospectableDataBase.h","IIntrospectableView.h","GenericAccessor.h"],
"type-erased read-only accessors over views")
p("C20","The tree creator builds what it is told and refuses the rest",
"Every sequence of tree creation calls either builds the object those calls describe, or is refused at the first call that is invalid in the current state with the library's exception. A refused call changes nothing, so a valid continuation still completes.",
["histories"],"every call sequence up to the depth over the call alphabet",
"the state machine's illegal transitions are combinatorial, tests drive a few",
["ZserioTreeCreator.cpp","ZserioTreeCreator.h"],
"state stack of the creator",
[("state stack","whether inside root, compound or array")])
p("C21","SQLite connections and columns keep data and transactions intact",
"Values of every kind bound to a statement and read back from the database are equal, including empty and embedded-zero strings, blobs and nulls. Under every sequence of connect, reset, statement, begin, commit and rollback operations with errors, the connection is opened and closed exactly as owned, committed changes persist and uncommitted ones do not.",
["histories","inputs"],"every operation sequence up to the depth, every boundary value of every column kind",
"transaction and ownership state depends on the sequence of operations and which of them failed",
["SqliteConnection.h","SqliteUtil.h","SqliteFinalizer.h","SqliteException.cpp"],
"RAII connection wrapper and typed column access",
[("transaction","whether one is open"),("ownership","internal or external connection")])
p("C22","SQLite validation sees exactly the tables that exist",
"For every table, in the main, a temporary or an attached database, the validation helpers report exactly its number of rows and exactly its columns with names, declared types, NOT NULL and primary key, and they find every column, also hidden ones, and no other. A query that cannot be answered is reported with the library's exception, and no query changes or keeps open anything in the database.",
["inputs","configurations"],"every table definition over the column alphabet, every sequence of row changes, every failing allocation",
"definitions, places and failures combine; tests try a few definitions",
["ValidationSqliteUtil.h","SqliteConnection.h"],
"queries of the number of rows, the table info and the columns")
p("C23","File helpers store and load exact contents or report failure",
"Writing bytes, bit buffers, strings or serialized objects to a file and reading the file back returns the same data, of every length and name, replacing earlier contents. Whenever the file system refuses or truncates an operation, the helper throws the library's exception instead of returning normally.",
["fault_sequences","inputs"],"every system call of the operation failing or being short in every way of the alphabet",
"failures happen at a particular system call, tests only see healthy files",
["FileUtil.cpp","FileUtil.h","SerializeUtil.h","DebugStringUtil.h"],
"stream based read and write of whole files")
p("C24","Compound objects serialize and deserialize losslessly and safely",
"For every compound object (structures with optionals, arrays and parameters, choices, unions), serializing and deserializing gives an equal object, through bit buffers, byte arrays, files, plain data and views. Cut or corrupted serialized data yields either an object or the library's exception, with no crash, leak or out-of-range read.",
["inputs","fault_sequences"],"every object over the alphabet, every truncation and every single-byte corruption",
"the product of fields, presence and selectors, and every corruption position",
["SerializeUtil.h","DataView.h","View.h","ArrayView.h","Optional.h","Variant.h"],
"generated read/write on top of the runtime's generic helpers")
p("C25","Numbers and values are rendered in messages correctly",
"Converting any integer, boolean, enumeration or float to text gives its decimal value (floats with at most three decimals, magnitudes of 2^63 and more as infinity), and an exception message built from any sequence of parts is their concatenation, cut at the message capacity without overrunning it. Copying or moving an exception keeps its message.",
["inputs"],"every digit-length boundary of every integer width, every float of the grid, every part-length combination around the capacity",
"buffer limits are hit only by particular lengths",
["StringConvertUtil.h","CppRuntimeException.cpp","CppRuntimeException.h"],
"fixed-size buffers filled from the right, fixed-capacity message buffer")
p("C26","Spans and array views give bounded access to their elements",
"A span or array view over any sequence reports its size, yields its elements in order through indexing, forward and reverse iteration and iterator arithmetic, and checked access throws exactly for indexes outside. Subspans cover exactly the requested elements.",
["inputs","histories"],"every length up to the bound, every index, offset and count, every iterator operation sequence",
"off-by-one at the ends is position specific",
["Span.h","ArrayView.h","ItemsAccessor.h"],
"pointer and size pairs, index-based iterators producing element views")
p("C27","Enumerations and bitmasks convert consistently",
"For every enumerator, name, value and ordinal convert to each other and back, unknown values, names and ordinals are rejected, and removed or non-contiguous items keep their identity. Bitmask operators behave as bitwise operators on the underlying type, debug text of a bitmask names exactly the items it contains and reads back as the same value, and the expression operators isset, valueof and numbits give their documented results.",
["inputs"],"every value of the underlying type, every enumerator, every pair of masks",
"the sparse values between enumerators are not tested",
["Enums.h","Bitmasks.h","BuiltInOperators.cpp","JsonWriter.h","ZserioTreeCreator.h"],
"lookup in generated tables")
p("C28","Bit buffers hold exactly their bits",
"A bit buffer constructed, copied, moved, assigned or resized in any sequence holds exactly the given number of bits, and comparison, ordering, hashing and serialization depend on those bits only and not on the unused bits of the last byte. A bit size that does not fit the given bytes is rejected.",
["inputs","histories"],"every bit size up to the bound, every byte pattern of the last byte, every pair",
"the garbage in unused bits is invisible to example tests",
["BitBuffer.h","HashCodeUtil.h","BitStreamWriter.h"],
"byte vector plus bit count with masked last byte",
[("bit size","number of valid bits")])
p("C29","Extended fields are compatible in both directions",
"A value of an extended field is absent after reading data of an older schema version and present after newer data, whatever pair of schema versions wrote and read it, and cut data gives whole fields or the library's exception. An object whose present extended fields follow an absent one is refused when written. Copies, comparison, hashing and writing treat presence as part of the value in every sequence of operations.",
["histories","inputs"],"every operation sequence up to the depth, every presence combination",
"presence depends on history and on the end of the data",
["Extended.h","ExtendedFieldException.cpp"],
"presence flag next to the value")
p("C30","All memory comes from the supplied allocator and goes back to it",
"An object created with an allocator takes every allocation from it, through construction, reading, copying with allocator, JSON reading and reflection, and returns all of it. When any single allocation fails, the failure is reported, nothing leaks, and the objects involved stay usable.",
["fault_sequences","configurations"],"every allocation of every scenario failing in turn, standard, polymorphic and propagating polymorphic allocators",
"the failing allocation index is the fault point; tests never inject it",
["AllocatorHolder.h","RebindAlloc.h","Optional.h","Any.h","Variant.h","UniquePtr.h","pmr/Vector.h","ppmr/PropagatingPolymorphicAllocator.h"],
"allocator propagation through constructors and rebinding")
p("C31","Type information describes the type it belongs to",
"For every type, the type information's kinds, names, sizes, fields, cases, parameters, items and nested type information are those of the schema, and queries that do not apply to the kind throw the library's exception.",
["inputs"],"every query on every type information object",
"queries x kinds is a product; tests check some",
["TypeInfo.h","ITypeInfo.h","TypeInfoUtil.cpp","TypeInfoUtil.h"],
"class hierarchy with throwing defaults")
p("C32","Service and pub/sub data holders carry the payload unchanged",
"Service and publish/subscribe payload holders return the exact bytes of the object or raw data they were created from, for every object and size, with the object's reflection available exactly when created from one. They do not share or lose data when moved.",
["inputs","histories"],"every object over the alphabet and every raw byte size up to the bound",
"holder kinds x payload shapes",
["IService.h","IPubsub.h"],
"object, owned raw and raw-view service data")
p("C33","Numeric wrappers behave as the numbers they wrap",
"In every expression, a numeric wrapper type (boolean, fixed, dynamic or variable width integer, float) gives exactly what its built-in type gives: construction, conversion, increments, compound assignments, comparisons and arithmetic, alone and in sequences, also when an operand is the wrapper itself. Assigning operators denote the wrapper, and the limits of each type are those of its width or format.",
["inputs","histories"],"every pair of 8 bit values and boundary values of every width, under every operator; sequences of operators",
"operators x types x values is a product; tests try one value each",
["Types.h","SizeConvertUtil.cpp"],
"wrapper around one value, converting implicitly, with compound operators")
p("N01","Generated code implements the schema",
"For every schema, the code generated from it has the documented wire format, constraints and defaults.",
["programs"],"every schema",
"the space of schemas is unbounded",
["extension/src/zserio/extension/cpp17/Cpp17Extension.java"],
"code templates")
import os
for q in P:
    for f in q["anchors"]["files"]:
        if not os.path.exists("/repo/"+f): print("missing",q["id"],f)
    assert len(q["title"])<=80,(q["id"],len(q["title"]))
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"properties.jsonl"),"w").write("".join(json.dumps(q)+"\n" for q in P))
