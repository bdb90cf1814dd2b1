#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = dict(files=["src/infi/instruct/" + f for f in files],
             mechanism=[dict(name=n, where="src/infi/instruct/" + w) for n, w in mech],
             observe_at=observe, hook_needed=None)
    if state:
        a["state"] = [dict(name=n, meaning=m, where="src/infi/instruct/" + w) for n, m, w in state]
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=a))

# ------------------------------------------------------------------ Buffer
prop("C01", "Buffer packing puts every field exactly in its declared bits",
     "For every Buffer class whose fields have fixed byte/bit positions (in any order, possibly split over several "
     "ranges), packing writes each field's encoding into exactly the bits declared for it, least significant bit "
     "first inside a byte and ranges filled in the order they are listed. Every bit that belongs to no field is zero, "
     "no field disturbs another, and the result is exactly the declared byte size or, if none is declared, the "
     "smallest whole number of bytes that covers all fields.",
     ["programs", "inputs"], "every fixed-position field layout (byte, bit and multi-range positions) x every "
     "representable value of every field",
     "Tests use a dozen hand-written layouts with one or two values each; they never vary the order in which ranges "
     "and fields are placed, the gaps, or mixed bit offsets.",
     ["buffer/buffer.py", "buffer/io_buffer.py", "buffer/serialize.py", "buffer/reference/range.py"],
     [("pack loop over fields", "buffer/buffer.py Buffer.pack"), ("bit-range assignment", "buffer/io_buffer.py OutputBuffer.set, BitAwareByteArray"),
      ("encoders", "buffer/serialize.py pack_*")], ["bytes returned by pack()"])
prop("C02", "Buffer unpacking decodes exactly the declared bits of any input",
     "For every Buffer class with fixed positions and every sufficiently long input, unpacking gives each field the "
     "value encoded in its declared bits, whatever the other bits, trailing data, earlier contents of the object, or "
     "kind of input object (bytes, byte array, memory view, bit view) are. The input is left unmodified, values stay unchanged when "
     "the input or the object is later reused, and unpacking then packing a fully covered layout gives back the input.",
     ["programs", "inputs", "histories"], "every fixed-position layout x every byte string at least as long as the layout x any previous use of the object",
     "Tests unpack a handful of captured SCSI/SES pages; bits outside the fields and reused objects are not varied.",
     ["buffer/buffer.py", "buffer/io_buffer.py", "buffer/serialize.py", "buffer/field_reference_builder.py"],
     [("unpack loop and fresh context per call", "buffer/buffer.py Buffer.unpack"), ("bit-range extraction", "buffer/io_buffer.py InputBuffer.get, BitView"),
      ("decoders", "buffer/serialize.py unpack_*")], ["attribute values after unpack()", "the input object"])
prop("C03", "Variable-size Buffers round trip: unpack inverts pack",
     "For every Buffer class built from the supported field kinds - including variable-size strings and byte arrays, "
     "length and total-size prefixes, fields placed after others, nested buffers, lists of scalars, strings or "
     "buffers, type selectors and conditional fields - unpacking the packed bytes into a fresh object restores every "
     "packed field's value. Packing the restored object yields the identical bytes.",
     ["programs", "inputs"], "every well-formed (self-describing) dynamic layout x every field value in its domain",
     "Tests round-trip about ten fixed classes with one value each; combinations of kinds, empty and long values are not reached.",
     ["buffer/buffer.py", "buffer/macros.py", "buffer/serialize.py", "buffer/field_reference_builder.py", "buffer/reference/after_field.py", "buffer/reference/total_size.py"],
     [("position references", "buffer/field_reference_builder.py"), ("list/buffer/str codecs", "buffer/serialize.py")],
     ["attribute values", "bytes returned by pack()"])
prop("C04", "Positions and values given by references resolve consistently",
     "A field position, element count or automatic value written as a reference (to another field, its length or end, "
     "the total size, the input length, a method, or arithmetic, minimum or maximum over these) takes, on pack and on "
     "unpack, exactly the value those quantities have for the object or input at hand. The outcome does not depend on the names "
     "of the fields or the order in which they are declared, and a definition that depends on itself is reported as a "
     "cyclic-reference error (or a buffer error caused by one) instead of recursing or producing bytes.",
     ["programs", "inputs"], "every acyclic/cyclic reference graph over the fields of a Buffer x every assignment of names x values",
     "Tests use one naming and declaration order per class, and a single hand-written cycle.",
     ["buffer/reference/reference.py", "buffer/reference/total_size.py", "buffer/reference/after_field.py", "buffer/reference/builtins.py", "buffer/reference/field_or_attr.py", "buffer/field_reference_builder.py"],
     [("memoised dereferencing with cycle detection", "buffer/reference/reference.py Reference.deref"),
      ("per-operation context", "buffer/reference/contexts.py")], ["bytes from pack()", "attribute values after unpack()", "raised error type"],
     [("cached_results / call_nodes", "values resolved and references being resolved in one pack/unpack", "buffer/reference/reference.py Context")])
prop("C05", "Buffer sizes agree with the bytes produced and consumed",
     "The static byte size of a Buffer class (when it has one), the size computed for an instance, the size returned by unpack and "
     "the length of the packed bytes all describe the same extent, fractional sizes being rounded up to whole bytes "
     "where bytes are consumed or produced. A list or nested buffer advances by exactly the bytes its "
     "elements occupy, so what follows it is decoded from the right place; a declared larger size pads with zeros and a "
     "declared size that is too small is refused.",
     ["programs", "inputs"], "every static, fractional, declared and dynamic layout x values x element counts",
     "Tests check byte_size of a few classes; consistency between the four notions of size is only sampled.",
     ["buffer/buffer.py", "buffer/reference/total_size.py", "buffer/serialize.py"],
     [("static size computation", "buffer/buffer.py BufferType.calc_byte_size"), ("instance size", "buffer/buffer.py Buffer.calc_byte_size")],
     ["byte_size attribute", "calc_byte_size()", "return of unpack()", "len(pack())"])
prop("C06", "Buffers reject what cannot be packed or unpacked, naming the field",
     "Packing an integer that does not fit its field, a value of the wrong type, or a byte array shorter than its fixed position "
     "raises a buffer error that carries the class and the field name, and never returns bytes in which the value is "
     "altered or spills into a neighbour. Unpacking an input too short for a fixed-size integer, float or string "
     "raises such an error too and never yields an invented value, and overlapping positions inside one field are refused.",
     ["inputs", "programs"], "every field kind and width x every out-of-range value and every truncation length",
     "Tests check one truncated string, one cyclic reference and a few wrong calls.",
     ["buffer/buffer.py", "buffer/serialize.py", "buffer/io_buffer.py", "errors.py"],
     [("error wrapping with attribute name", "buffer/buffer.py Buffer.pack/unpack"), ("range checks", "buffer/serialize.py, buffer/io_buffer.py")],
     ["exception type and its class/field attributes"])
prop("C07", "Conditions, defaults and before/after hooks apply to exactly their field",
     "A field whose pack condition is false contributes no bytes and no size, and one whose unpack condition is false "
     "becomes None (in a class whose positions are all fixed the size stays, and the field's bits are zero); all others are unaffected. Fields not given to the constructor take their default, given ones the "
     "passed value, and unknown names are refused; a set-before-pack value is stored on the object and packed, and a "
     "set-after-unpack function determines the attribute from the decoded value.",
     ["programs", "inputs"], "every combination of conditions, defaults, constructor arguments and hooks over fields of a Buffer",
     "Tests cover a single condition and hook per class, never combinations or their effect on sizes.",
     ["buffer/buffer.py", "buffer/field_reference_builder.py", "buffer/macros.py"],
     [("condition references", "buffer/field_reference_builder.py create_field"), ("hooks", "buffer/field_reference_builder.py set_field_pack_value_ref / set_field_unpack_value_ref"),
      ("constructor", "buffer/buffer.py Buffer.__init__")], ["attributes", "bytes from pack()"])
prop("C08", "Buffer inheritance: a subclass is the union of its bases' fields",
     "A Buffer class that inherits differently named fields (through any depth, from several bases or plain mix-in classes, with or without fields of its own, "
     "at higher or lower positions) packs, unpacks and sizes exactly like a single class declaring all those fields directly, and prints all of them. Defining a "
     "subclass changes nothing about its base classes or siblings.",
     ["programs", "inputs"], "every partition of a field layout over an inheritance chain x values",
     "One test with a single inherited field.",
     ["buffer/buffer.py"], [("field collection over the MRO", "buffer/buffer.py Buffer._all_fields, BufferType.__new__")],
     ["pack/unpack/byte_size/repr of equivalent flat and inherited classes"])
prop("C09", "Buffer objects and operations are independent of each other",
     "Any interleaving of creating, assigning, packing, unpacking, sizing and printing several objects of several "
     "Buffer classes, including operations that fail part-way, gives every object the same results as running its own operations alone. Packing is repeatable and "
     "does not alter the object (beyond automatic values), its nested values or any class; and packed results, "
     "unpacked values and defaults are never shared between objects.",
     ["histories", "inputs"], "every sequence of operations over a pool of objects of one or more classes",
     "Tests create an object, do one operation and drop it.",
     ["buffer/buffer.py", "buffer/reference/reference.py", "buffer/reference/contexts.py", "buffer/serialize.py"],
     [("per-operation contexts", "buffer/reference/contexts.py"), ("field descriptors shared by class", "buffer/buffer.py BufferType")],
     ["attribute values, bytes and errors along the history"],
     [("field references", "class-level descriptors shared by all instances", "buffer/reference/field.py")])
prop("C10", "Bit views and bit-aware byte arrays behave like a list of bits",
     "Indexing, slicing, iterating, sizing and converting a bit view, and assigning, deleting, inserting, appending, "
     "concatenating and zero-filling a bit-aware byte array at any 1/8-byte offsets, have exactly the effect of the "
     "same operation on a plain sequence of bits (least significant bit first). No operation reveals or alters bits outside the "
     "view, and values that do not fit the target are refused.",
     ["histories", "inputs"], "every sequence of operations x offsets and lengths in eighths of a byte x contents",
     "Tests try a few dozen hand-picked operations on one or two bytes.",
     ["buffer/io_buffer.py"], [("bit addressing", "buffer/io_buffer.py BitView"), ("mutation", "buffer/io_buffer.py BitAwareByteArray")],
     ["contents, length and bytes of the view after each operation"],
     [("buffer/start/stop", "backing bytes and bit window", "buffer/io_buffer.py BitView")])
prop("C11", "Byte-range arithmetic agrees with sets of bit positions",
     "For ranges and lists of ranges (closed or open-ended, in eighths of a byte), length, containment, overlap, "
     "closing, maximum, offset mapping, concatenation and the has-overlaps verdict equal what is computed by "
     "enumerating the bit positions they denote. Overlap is symmetric, ordering is consistent and sorting is by start, and the "
     "verdicts do not depend on the order of the list.",
     ["inputs"], "every list of ranges",
     "Tests check a few pairs of ranges.",
     ["buffer/range.py"], [("range class and list", "buffer/range.py SequentialRange, SequentialRangeList")], ["return values"])
prop("C12", "bytes_ref / .bits expressions denote exactly the bits they say",
     "Any combination of byte indices, byte slices, lists of them, concatenations and .bits[...] selections "
     "resolves to exactly the sequence of bits obtained by indexing the flattened bit sequence of its parent, in "
     "order. Bit selections reaching outside the parent are refused.",
     ["programs", "inputs"], "every nesting of index/slice/list/concatenation/.bits expressions",
     "Tests check half a dozen constant expressions.",
     ["buffer/reference/range.py", "buffer/range.py"], [("range references", "buffer/reference/range.py")],
     ["resolved list of ranges", "bytes of a field placed there"])
prop("C13", "Reference expressions compute what the Python expression computes",
     "An arithmetic or comparison expression over numeric references, including reflected, nested, negated, "
     "cast, length, minimum, maximum and function-call forms, evaluates to the value (or error) of the same Python expression over "
     "the referenced values. Within one operation every reference is evaluated at most once and always yields the "
     "same value, cycles raise the cyclic-reference error, a failure leaves no residue, and separate operations never see each other's values.",
     ["programs", "inputs"], "every expression tree over references x operand values, every dependency graph",
     "Tests evaluate a few sums.",
     ["buffer/reference/reference.py", "buffer/reference/func_call.py", "buffer/reference/builtins.py"],
     [("expression nodes", "buffer/reference/reference.py NumericBinaryExpression etc."), ("memoisation", "buffer/reference/reference.py Reference.deref")],
     ["value of deref, number of evaluations, error type"],
     [("cached_results", "memo of one context", "buffer/reference/reference.py Context")])
prop("C14", "Buffer scalar encodings: width, endianness, sign, text and padding",
     "Every integer width, sign and byte order, 32/64-bit floats, text in any supported encoding with either justification, "
     "padding and stripping bytes, byte arrays and JSON values are encoded as the format "
     "definition says (two's complement for 8, 16, 32 and 64 bits and unsigned for other widths, byte order for whole bytes, IEEE 754, padded to the field size) and decoded back to the same "
     "value. The same holds for the predefined list element types and for values read from non-aligned bits.",
     ["inputs", "configurations"], "every field kind x width x byte order x sign x value",
     "Tests pack a few small positive integers and ASCII strings.",
     ["buffer/serialize.py", "buffer/macros.py"], [("codecs", "buffer/serialize.py"), ("predefined types", "buffer/macros.py")],
     ["bytes from pack()", "attribute values after unpack()"])

# ------------------------------------------------------------------ Struct
prop("C15", "Struct wire format: fields in order, and reading inverts writing",
     "Writing a Struct produces the concatenation of its fields' encodings in declaration order, each encoded by its "
     "own marshal's width, byte order, sign, padding, size prefix, count, mapping or constant, for any nesting of structs, "
     "arrays, strings, buffers, optional, selected and lazy parts. Reading those bytes yields a struct with equal values, "
     "and writing that struct gives identical bytes.",
     ["programs", "inputs"], "every Struct class over the available fields x every value",
     "Tests pin a few structs with one value each.",
     ["struct/__init__.py", "numeric.py", "string.py", "array.py", "mapping.py", "padding.py", "struct/const.py", "struct/optional.py"],
     [("field list container", "struct/__init__.py FieldListContainer"), ("marshals", "numeric.py string.py array.py mapping.py padding.py")],
     ["bytes written", "attributes read"])
prop("C16", "Reading a Struct consumes exactly its own bytes, in order",
     "Reading from a stream consumes exactly the bytes the value occupies and nothing more, whatever follows, for streams with or without position "
     "reporting, so structs written back to back are read back one by one in "
     "order. Reading never depends on, or changes, bytes after the struct, and writing only appends.",
     ["inputs", "histories"], "every sequence of structs in one stream followed by arbitrary bytes",
     "Tests read single structs from exact strings.",
     ["struct/__init__.py", "array.py", "string.py", "struct/selector.py", "struct/lazy.py", "utils/read_ahead_stream.py"],
     [("marshal reads", "*.create_from_stream"), ("read-ahead", "utils/read_ahead_stream.py")], ["stream position and requested reads"])
prop("C17", "Struct size reports match the bytes: sizeof, bounds, fixed size",
     "The reported size of a value equals the number of bytes written for it, lies within the class's reported minimum and maximum, "
     "and a class reported as fixed-size writes that very number of bytes for every value; a class of fixed-size parts only is reported so. The reported bounds do "
     "not depend on the instance and enclose every value the class can read or write, also for nested, optional, "
     "selected, lazy, array and pointer-sized parts.",
     ["programs", "inputs"], "every Struct class x every value",
     "Tests check sizes of a few structs.",
     ["base.py", "struct/__init__.py", "array.py", "string.py", "struct/selector.py", "struct/optional.py", "struct/bit.py"],
     [("sizeof/min_max_sizeof", "base.py FixedSizer and overrides")], ["sizeof", "min_max_sizeof", "is_fixed_size", "len of written bytes"])
prop("C18", "Struct bit fields pack and unpack exactly their own bits",
     "Sequential bit fields occupy consecutive bits from the least significant bit of the first byte, and positional bit fields exactly the "
     "listed bit slices (low part first), for any widths, splits and order; all other bits are written as zero and ignored when read. "
     "Writing then reading restores every in-range value, out-of-range values never disturb neighbouring fields, and "
     "groups that do not fill whole bytes are refused when declared.",
     ["programs", "inputs"], "every partition of a bit group into fields, flags, padding or slices x values",
     "Tests use a few fixed partitions.",
     ["struct/bit.py", "utils/bitstringio.py", "struct_macros.py"], [("bit stream", "utils/bitstringio.py"), ("bit containers", "struct/bit.py")],
     ["bytes written", "attributes read"], [("position/value", "bit cursor and accumulated bytes", "utils/bitstringio.py BitStringIO")])
prop("C19", "Lazy groups are observationally the same as eager ones",
     "A Struct in which any group of fields is declared lazy gives the same values, bytes, sizes and errors as the "
     "same struct without it, under any order of reading, "
     "assigning, writing and sizing, including defaults, constructor arguments, partial assignment and copies of other instances being used in between. "
     "Reading a lazy group later gives the values from its own bytes even if the stream has moved on or closed; errors about them may come as late as the first access or write.",
     ["histories", "programs", "inputs"], "every sequence of attribute reads, writes, serialisations over lazy structs",
     "Two tests touch lazy containers, reading fields once.",
     ["struct/lazy.py"], [("deferred parsing", "struct/lazy.py LazyFieldListContainer")], ["attributes, bytes, sizes along the history"],
     [("_lazy_container_*", "unparsed bytes attached to the instance", "struct/lazy.py")])
prop("C20", "Selectors choose the struct by peeked content without losing bytes",
     "A selector reads ahead whatever it needs to decide, then the selected struct is read from the same starting point, so it "
     "sees the same bytes as if read directly and the stream ends right after it. Keys without a mapping use the "
     "default or are refused, leaving read-ahead bytes unconsumed is refused with a library error, and the chosen struct writes back the same bytes.",
     ["inputs", "programs", "histories"], "every key marshal x mapping x selected struct x stream content; every sequence of peek/read calls",
     "Tests cover one function selector with a fixed two-way choice and no mapping selector.",
     ["struct/selector.py", "utils/read_ahead_stream.py"], [("read-ahead stream", "utils/read_ahead_stream.py ReadAheadStream"), ("selectors", "struct/selector.py")],
     ["type and values of the object read", "stream position", "error type"],
     [("buffer/read_ahead_mode", "bytes peeked and not yet consumed", "utils/read_ahead_stream.py")])
prop("C21", "Structs refuse truncated, mismatched or unrepresentable data",
     "Every strict prefix of a written struct (without trailing lazily parsed groups) is refused with an error, as is a constant that differs, a mapping code or key "
     "that is not listed, a number outside its integer or float field's range, a string or buffer that does not fit its fixed size and an array of the wrong fixed length. "
     "Refusal happens on writing or reading instead of silently changing the value, and an object is never returned from partial data.",
     ["inputs", "fault_sequences"], "every truncation point and every out-of-domain value for every struct class",
     "Tests try one short input and one wrong constant.",
     ["numeric.py", "string.py", "array.py", "mapping.py", "padding.py", "struct/const.py", "struct/bit.py"],
     [("short read checks", "numeric.py, string.py, padding.py"), ("const/mapping checks", "struct/const.py, mapping.py")], ["error raised"])
prop("C22", "Struct construction: defaults, arguments, inheritance, isolation",
     "A new Struct object has, for each field, the passed argument, else a value set by the class, else an own copy of the default; "
     "arguments the user's constructor asks for reach it, also when reading from a stream and in structs nested at any depth, and constants cannot be overridden. "
     "A subclass that redefines or extends the field list behaves like a freshly declared class, and no two objects "
     "share mutable state through defaults.",
     ["programs", "inputs", "histories"], "every class hierarchy, default and constructor call",
     "Tests check a few inheritance shapes.",
     ["struct/__init__.py", "struct/const.py"], [("generated __init__", "struct/__init__.py StructType._create_struct_class_init"), ("prepare_instance", "struct/__init__.py Field")],
     ["attributes after construction", "arguments seen by user constructors"])
prop("C23", "Printing a Struct or Buffer is total and reflects context settings",
     "Printing any struct or buffer object - freshly created, partially filled, read lazily, with absent optional parts or nested "
     "values - never fails, never changes the object, and names every named field with its value (lazy parts that were not read yet may be shown as lazy), applying integer "
     "and float format settings of the class or call context to the numbers of that object. Context values given to a call reach every nested "
     "marshal and win over class context, and the caller's context object is not modified.",
     ["programs", "inputs", "configurations"], "every struct/buffer class x set of assigned fields x context",
     "Tests print a few fully assigned structs.",
     ["struct/__init__.py", "base.py", "numeric.py", "struct/bit.py", "buffer/buffer.py"], [("to_repr chain", "struct/__init__.py"), ("contexts", "base.py ReadOnlyContext/WritableContext")],
     ["repr text", "context seen by marshals"])
prop("C24", "Size bounds (MinMax) form a clipped interval arithmetic",
     "A size bound built from a pair, a single minimum, another bound or nothing always satisfies 0 <= min <= max <= the platform's "
     "maximum, equals the clipped input, and inverted bounds are refused. Addition is commutative, associative up to "
     "clipping and has the zero bound as identity, is monotone, and a bound is unbounded exactly when its maximum is the platform maximum.",
     ["inputs"], "every pair of integers, including negative and beyond-platform ones",
     "Tests check a handful of small pairs.",
     ["base.py"], [("clipping constructor and addition", "base.py MinMax")], ["min, max, is_unbounded, equality"])
prop("C25", "A Buffer used as a Struct part behaves the same as on its own",
     "Reading, writing and sizing a fixed-size Buffer through the struct adapter - alone, in a struct field or in arrays between other "
     "fields - gives exactly the bytes and values of packing and unpacking the Buffer directly, consuming its size in whole bytes from the stream. "
     "A Buffer without a fixed size cannot be read from a stream and is refused.",
     ["programs", "inputs"], "every fixed-size Buffer class x position in a stream x values",
     "One test with a single 3-byte buffer.",
     ["buffer/compat.py"], [("adapter", "buffer/compat.py StructTypeAdapter")], ["bytes, values, stream position"])
prop("C26", "Threads working on different objects do not disturb each other",
     "When several threads create, pack, unpack, read, write, assign, size and print objects of their own, of classes they share, every operation has the "
     "same result as when that thread runs alone, however their execution interleaves: an operation keeps its progress, context, "
     "streams and caches apart from every other operation, never on the class, its fields or the shared marshals.",
     ["schedules", "histories", "inputs"], "every interleaving of operations of several threads on different objects of shared classes",
     "Tests are single-threaded; the state of an operation that leaks into shared descriptors only shows under particular interleavings.",
     ["buffer/buffer.py", "buffer/reference/contexts.py", "buffer/reference/reference.py", "buffer/serialize.py", "struct/__init__.py", "struct/selector.py", "struct/bit.py",
      "struct/lazy.py", "array.py", "utils/read_ahead_stream.py"],
     [("per-operation contexts and streams", "buffer/reference/contexts.py; struct/selector.py; struct/bit.py"), ("stateless marshals and field descriptors", "base.py Marshal; struct/__init__.py FieldBase")],
     ["results, bytes, errors and attribute values of each thread"],
     [("shared descriptors", "the field references and marshals of a class, used by all threads", "buffer/reference/field.py")])
prop("C27", "Ill-formed declarations are refused, well-formed ones accepted",
     "A declaration that cannot be laid out is refused with an error when it is made, never accepted silently: bit groups that do not fill whole bytes or mix "
     "sequential and positional fields or hold variable-size parts, bit slices that are inverted, negative or stepped, parts of a negative size, lazy groups with variable-size parts at any depth, constants without a marshal, mappings with a value "
     "listed twice or over a variable-size marshal, selectors over things that are no Structs, defaults that do not fit their fixed size, padding that is not one byte, a "
     "Buffer field without or with two conflicting positions, negative, inverted, stepped or non-numeric positions, overlapping pieces, list elements that are no types and "
     "dependencies that are no fields. Every well-formed declaration is accepted, alone or in a subclass, and a refused subclass leaves its base class as it was.",
     ["programs"], "every declaration of a Struct or Buffer class, well-formed or broken in one way",
     "Tests declare a few well-formed classes and provoke hardly any of the declaration errors; which declarations pass depends on sizes, nesting and order.",
     ["struct/bit.py", "struct/lazy.py", "struct/selector.py", "struct/__init__.py", "struct_macros.py", "string_macros.py", "array_macros.py", "mapping.py", "padding.py",
      "buffer/field_reference_builder.py", "buffer/macros.py", "buffer/range.py", "buffer/reference/range.py"],
     [("size checks of bit, lazy and mapped parts", "struct/bit.py; struct/lazy.py; mapping.py; struct/selector.py"), ("default checks", "string_macros.py; array_macros.py"),
      ("position checks", "buffer/range.py; buffer/reference/range.py; buffer/field_reference_builder.py")],
     ["error or class returned by the declaration", "behaviour of the base class"])
prop("C28", "Contexts are mappings whose copies are independent, unchanged by use",
     "A context answers get with the value stored under a key - None and other false values included - and with the given default only for absent keys; a writable one "
     "follows put, update and remove like a dict. A writable copy of a context, contexts made empty and the dict a context returns are independent: changing "
     "one never shows in another, in a dict that was merged in or in the shared empty context. Reading, writing, printing or sizing structs with a context never changes it, whatever "
     "the marshals inside do to the context they are given.",
     ["histories", "inputs"], "every history of operations over several contexts, also while structs are read and written with them",
     "Tests use contexts only as a way to pass a format string; sharing shows only over histories of several contexts.",
     ["base.py", "struct/__init__.py"], [("ReadOnlyContext/WritableContext", "base.py"), ("call contexts", "struct/__init__.py StructBase; base.py Marshal")],
     ["get results", "dict of each context", "caller's dicts", "context seen by marshals"],
     [("stored values", "the dictionary of a context", "base.py")])

prop("C29", "Users' marshals, containers and element types compose like built-in ones",
     "Marshals, field containers and structs with overridden marshalling written by users - as fields, array elements, size and count prefixes, mapped values, selector keys, "
     "constants, optional and lazy parts - and element types of a buffer's list compose like built-in ones: bytes, values, consumption, sizes and bounds are those of their "
     "parts in order. Each value is read and written by its marshal once and in order (selector keys may also be peeked), with the call's settings and the enclosing struct in its context and the arguments given to the read; the same parts used "
     "on their own do the same; "
     "an error a marshal raises reaches the caller and leaves nothing behind; a failing to_repr never breaks printing.",
     ["inputs", "faults"], "every composition of user-written parts, values, settings and position of a failing call",
     "Tests compose the built-in marshals; the protocol between composite and part shows only with parts that vary in every respect the protocol allows.",
     ["base.py", "array.py", "string.py", "mapping.py", "struct/__init__.py", "struct/selector.py", "struct/lazy.py", "buffer/serialize.py", "buffer/macros.py"],
     [("marshal protocol", "base.py Marshal"), ("prefixed arrays and strings", "array.py, string.py"), ("containers", "struct/__init__.py, struct/lazy.py"),
      ("list element types", "buffer/serialize.py")],
     ["bytes", "values", "stream position", "calls the parts receive", "exceptions", "sizeof and bounds"],
     [("stream contents", "the stream given by the caller", "base.py"), ("field values", "the object packed or created", "struct/__init__.py")])

prop("C30", "Copies of structs and buffers are equal and independent",
     "A deep copy (copy.deepcopy) of a Struct or Buffer object in any state - new, filled, just read with its lazy groups not looked at, used, or after a failed write - has the same "
     "type, text, size, values and bytes as the object, and from then on neither sees changes of the other, also not those made in place. A shallow copy (copy.copy) has the same text and "
     "bytes, and assigning fields of either leaves the other as it was. Both hold for copies of copies.",
     ["histories", "inputs"], "every object state and every history of copying, changing and writing objects and their copies",
     "Tests never copy objects, although defaults and constants are handed out as copies; state kept outside the object or shared through it shows only after later changes.",
     ["struct/__init__.py", "struct/lazy.py", "struct/bit.py", "struct/const.py", "buffer/buffer.py"],
     [("per-object state", "struct/__init__.py Struct; struct/lazy.py; buffer/buffer.py Buffer"), ("copied defaults and constants", "struct/__init__.py copy_if_supported; buffer/buffer.py")],
     ["bytes", "values", "repr", "sizeof"],
     [("field values and unread lazy bytes", "the object's attributes", "struct/lazy.py, buffer/buffer.py")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, sort_keys=True) + "\n")
print(len(P), "properties")
