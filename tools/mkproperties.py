#!/usr/bin/env python3
"""Writes properties.jsonl (one property per line). Edit here, then run."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": anchors})

BP = "src/binary_parser/mod.rs"
prop("C01", "No input crashes the parser or the users of its result",
 "For every byte slice, parsing returns either a message or an error: it never panics, aborts, overflows a default 2 MiB thread stack or runs forever, in debug as in release builds. The same holds for dropping, cloning, comparing, formatting and serde-deserializing whatever was returned. Running out of memory for a value the bytes really denote is the only exception.",
 ["inputs", "configurations"], "all byte slices: random, mutated well-formed messages, truncated ones, and structural bombs (nesting through every construct, huge ranks, counts, null runs, long numeric texts); debug and release builds",
 "The tests parse about thirty fixed well-formed messages; none is hostile, deeply nested, truncated or malformed.",
 [BP, "src/record/binary_array.rs", "src/data_type/decimal.rs", "src/value/mod.rs", "src/value/object.rs"],
 [("recursive descent with a nesting limit", BP), ("splitting of multi-dimensional arrays", f"{BP}: parse_binary_array"), ("bounded decimal text", "src/data_type/decimal.rs")],
 ["exit status / signal of a child process that parses, then drops, clones, compares, formats and deserializes"])
prop("C02", "Memory and work stay proportional to the input",
 "Peak heap use and executed work while parsing a message, or while deserializing one into a type that keeps nothing, are bounded by a constant factor of the input length (the class and member names of a class counted once per instance) plus the number of null elements that null-run records place inside containers that declared room for them. A declared length, count, rank, dimension or string size that is not backed by data costs nothing.",
 ["inputs"], "all byte slices, in particular every scaling family (n elements, n classes, n references, n libraries, rows x columns, nested) and every declared-but-absent count",
 "No test measures memory or work, and all test inputs are under 500 bytes.",
 [BP, "src/record/binary_array.rs", "src/common/class_info.rs", "src/record/object_null_multiple.rs"],
 [("null runs are checked against the declared length", BP), ("elements are only stored once parsed", BP)],
 ["a counting global allocator (peak live bytes, largest request)", "executed basic blocks and copied or compared bytes, counted by compiler instrumentation"])
prop("C03", "Primitive values are decoded exactly",
 "Every primitive of the 15 NRBF primitive types comes back as the value variant of that type with exactly the encoded value: all integers at full range and with their sign, little-endian, every floating-point bit pattern including NaN payloads and negative zero, booleans only from 0 and 1, characters from their UTF-8 encoding. This holds wherever a primitive may stand: typed or untyped class member, element of a primitive, object or multi-dimensional array, method argument or return value, and whatever bytes precede or follow it.",
 ["inputs"], "all values of all 15 primitive types at all positions, next to all neighbours",
 "Tests decode one or two values per type, all as the only member of a boxed class; Char, Decimal, DateTime and TimeSpan are never decoded, and values whose bytes look like record tags only in one lucky case.",
 ["src/data_type/", "src/record/member_primitive_untyped.rs", "src/record/member_primitive_typed.rs", "src/record/value_with_code.rs", BP],
 [("per-type parsers", "src/data_type/*.rs"), ("type-code dispatch", "src/record/member_primitive_untyped.rs, value_with_code.rs"), ("conversion to public values", "into_value in src/record/*.rs")],
 ["RemotingMessage::parse result compared with the encoded value bit for bit"])
prop("C04", "Length-prefixed strings are exact, validated and zero-copy",
 "A length-prefixed string of any length, with the length spelled in any legal 1 to 5 byte form, is returned as exactly the encoded text, and every string returned anywhere in a message is a slice of the input buffer, not a copy. A string whose bytes are not UTF-8, whose length exceeds the remaining input, or whose length prefix has more than 31 bits or five bytes is rejected.",
 ["inputs"], "all strings (all Unicode planes, embedded NULs, lengths around 0, 2^7, 2^14, 2^21 and 2^28), all length prefixes, all positions where a string may stand, all invalid UTF-8 sequences",
 "Tests cover four ASCII lengths of the bare string reader and a handful of short ASCII strings; no multi-byte text, no invalid UTF-8, no non-minimal or oversized prefix, and no test looks at where a slice points.",
 ["src/data_type/length_prefixed_string.rs", "src/record/binary_object_string.rs", "src/record/string_value_with_code.rs"],
 [("7-bit length decoding", "src/data_type/length_prefixed_string.rs: parse_len"), ("UTF-8 validation", "src/data_type/length_prefixed_string.rs: parse")],
 ["text and address range of every &str in the parsed message"])
prop("C05", "Single-dimension arrays keep length, order and nulls",
 "An accepted one-dimensional array (of primitives, strings, objects, or a one-dimensional binary array) has exactly as many elements as its declared length, in stream order, where a null run of k stands for k consecutive nulls at its place. An array whose elements or null runs do not add up to exactly its declared length is rejected.",
 ["inputs"], "all lengths from 0 on, all element kinds, all ways to split nulls into single nulls, 8-bit runs and 32-bit runs, all over- and undershooting element and null counts",
 "Tests hold five arrays of at most ten elements, with one null run that ends an array.",
 [BP, "src/common/array_info.rs", "src/record/array_single_object.rs", "src/record/array_single_primitive.rs", "src/record/array_single_string.rs", "src/record/object_null_multiple.rs", "src/record/object_null_multiple_256.rs"],
 [("element loops that count expanded nulls", f"{BP}: parse_array_single_*, parse_binary_array"), ("null run records", "src/record/object_null*.rs")],
 ["RemotingMessage::parse result compared with the array that was encoded"])
prop("C06", "Multi-dimensional arrays come back row-major with their shape",
 "A binary array of rank r with non-zero dimensions d1..dr is returned as arrays nested r deep, the k-th level having exactly dk elements each, with the elements in row-major stream order; lower bounds never change the result. This holds for every array type code, element type, and for null runs that cross rows. An array whose dimensions multiply beyond the address range, are negative, or do not match the elements and null runs present is rejected.",
 ["inputs"], "all ranks 1 to 32, all dimension vectors, all lower bounds, all six array type codes, all eight element types",
 "Tests hold one 1x2 and one 10x4 array (of zeros), so neither order nor the dimension order is really observed beyond one row.",
 [BP, "src/record/binary_array.rs", "src/enumeration.rs"],
 [("dimension product", f"{BP}: parse_binary_array"), ("regrouping from the innermost dimension out", f"{BP}: parse_binary_array")],
 ["shape and element order of the returned nested arrays, every element carrying its own row-major index"])
prop("C07", "Class instances keep name, library and each member's own value",
 "An accepted class instance carries exactly the class name, the name of the library it was declared with (none for a system class) and, under each declared member name, exactly the value encoded for that member, whichever of the four class records declares it, whatever the members' types, and however deep it is nested. A null run of k stands for the next k members, and one that exceeds the remaining members is rejected. A typed member that holds an inline instance of another class or library than declared is rejected.",
 ["inputs"], "all class shapes: 0 to many members, the four class records, all member types, nested instances, members that are null, in null runs, inline or references",
 "Tests hold one class with four inline strings, one boxed member per primitive type and one generic list; no nesting, no class or object typed member, no null member.",
 [BP, "src/common/class_info.rs", "src/common/member_type_info.rs", "src/common/additional_type_info.rs", "src/record/class_with_members.rs", "src/record/class_with_members_and_types.rs", "src/record/system_class_with_members.rs", "src/record/system_class_with_members_and_types.rs", "src/value/object.rs"],
 [("pairing of member names with values", f"{BP}: parse_classes"), ("class check for typed members", f"{BP}: parse_member_reference")],
 ["class, library and members of every returned object compared with what was encoded"])
prop("C08", "Repeated instances reuse exactly the metadata they name",
 "An instance record that gives a metadata id instead of class information is read with the class name, library, member names and member types of the earlier class record that carries that id, and of no other, also when several classes are interleaved, nested in one another or used by their own members. If no earlier class record carries that id, or the id is the instance's own, the message is rejected.",
 ["inputs", "histories"], "all sequences of class declarations and instances: several classes with the same or different shapes, instances in any order, nested, inside arrays, back to back",
 "No test contains a repeated instance: the record kind is never parsed by any test.",
 [BP, "src/record/class_with_id.rs"],
 [("registry of class metadata by object id", f"{BP}: parse_classes")],
 ["objects returned for messages with many interleaved classes, each with unique names and values"],
 [("class registry", "class metadata seen so far, by object id", f"{BP}: BinaryParser.classes")])
prop("C09", "References resolve to the object with that id or fail",
 "Every member reference is replaced by exactly the value of the record that carries the referenced id, whether that record stands earlier or later in the stream and whatever ids are used. If no record carries the id, two records carry the same id, or objects refer to each other in a cycle, the message is rejected instead of being filled with another value. A string may be referenced any number of times. Objects that nothing refers to do not change the result. (Messages nested deeper than a fixed limit of at least 32 levels may be rejected.)",
 ["inputs", "histories"], "all object graphs that are trees with shared strings, up to the nesting limit, with records in depth-first or breadth-first order, before or after the referring record, any assignment of positive ids; all dangling, duplicate and cyclic ids",
 "Tests resolve seven references, each to the record that follows directly, numbered 1, 2, 3...; no earlier record, no shared string, no dangling id, no renumbering.",
 [BP, "src/record/member_reference.rs", "src/record/binary_object_string.rs"],
 [("table of parsed objects", f"{BP}: resolve_members, parse_referenceable")],
 ["value found at each reference, every record carrying a unique value"],
 [("object table", "parsed and not yet consumed objects by id", f"{BP}: BinaryParser.objects")])
prop("C10", "Libraries bind by id, are declared once and may stand where allowed",
 "A class declared with library id n carries the name of the one library record with id n that precedes its use. A library record is accepted before any class, array, member, method call, method return or call array, and its placement and numbering do not change the result; a class that names an undeclared library, a second library record with an id already used, and a library id that is not positive are rejected.",
 ["inputs", "histories"], "all numbers, names, ids and placements of library records allowed by the record grammar, next to all record kinds",
 "One test contains one library record, directly before a class.",
 [BP, "src/record/binary_library.rs", "src/combinator.rs"],
 [("library table and duplicate check", f"{BP}: parse_binary_library")],
 ["library of every returned object; accept or reject of each placement"],
 [("library table", "library names by id", f"{BP}: BinaryParser.binary_libraries")])
prop("C11", "Method calls and returns report what the message carries",
 "A method call is returned with exactly its method name, type name, call context and arguments, and a method return with exactly its inline return value, call context and output arguments, where the flags decide which fields are present and whether arguments are inline, are the call array, or are its first item. Absent fields are absent, not empty. A call array whose id is not the root id, or that is missing although the flags announce arguments in it, is rejected.",
 ["inputs"], "all legal combinations of argument, context and return flags, all argument counts and value types, call arrays with and without further objects and libraries",
 "Tests hold one call and one return, covering two of the flag combinations, with one argument.",
 ["src/record/binary_method_call.rs", "src/record/binary_method_return.rs", "src/record/array_of_value_with_code.rs", "src/record/value_with_code.rs", "src/record/string_value_with_code.rs", "src/remoting_message.rs", BP],
 [("conditional fields by flag", "src/record/binary_method_call.rs, binary_method_return.rs"), ("choice of argument source", f"{BP}: parse_method_call, parse_method_return")],
 ["fields of the returned MethodCall / MethodReturn"])
prop("C12", "Contradictory message flags are rejected, consistent ones accepted",
 "Message flags are accepted only if at most one flag of each of the argument, context and return categories is set, and if none of the pairs argument-exception, return-exception, return-signature and signature-exception of categories is set together. Every other combination of defined flags is not rejected for its flags.",
 ["inputs"], "all 32768 combinations of the 15 defined flags, in method calls and in method returns",
 "Tests use two flag words out of 32768, both consistent.",
 ["src/record/message_flags.rs"],
 [("category masks and exclusivity checks", "src/record/message_flags.rs: parse")],
 ["accept or reject of a message that is well-formed apart from its flags, and the reason given"])
prop("C13", "A message is accepted only whole",
 "An accepted message starts with a header of version 1.0 and ends with the end record as its very last byte, every byte in between belonging to exactly one record. Hence no proper prefix of an accepted message is accepted, nothing may follow the end record, and any other major or minor version or a negative root id is rejected.",
 ["inputs"], "all well-formed messages, all their proper prefixes, all non-empty suffixes appended, all version numbers and root ids",
 "No test feeds a truncated or extended message or another version; there is no negative parsing test at all.",
 ["src/record/serialization_header.rs", "src/record/message_end.rs", BP],
 [("header checks", "src/record/serialization_header.rs"), ("end record and trailing data check", f"{BP}: parse_remoting_message")],
 ["accept or reject of every prefix, extension and header change of a corpus of generated messages"])
prop("C14", "The root id selects the value returned",
 "A message without a method call or return yields the value of the object whose id is the header's root id, wherever that object stands among the records, and never another object; if no such object exists, or it became part of another object (strings, which can be shared, excepted), the message is rejected. The other objects and the header id do not change the result.",
 ["inputs"], "all positions and kinds (class, each array kind, string) of the root object among any number of other objects, all ids, all root ids naming nothing",
 "In all tests the root is id 1, the first record and the only root candidate.",
 [BP, "src/record/serialization_header.rs"],
 [("lookup of the root id after all records were read", f"{BP}: parse_remoting_message")],
 ["the value returned, each candidate carrying a unique value"])
prop("C15", "Codes, ids and counts outside the format are rejected",
 "A message is rejected if any of its record type, primitive type, member type or array type codes is not one the format defines for that place, if any object or reference id is not positive, if any length, rank, dimension, member count or argument count is negative, if a null run is not positive, or if a member or array element has the primitive type null or string. A value is never silently substituted for it.",
 ["inputs"], "every byte of every code, id and count field of generated messages, replaced by every illegal value",
 "There is no test for any malformed field.",
 ["src/enumeration.rs", "src/record/mod.rs", "src/combinator.rs", "src/record/object_null_multiple.rs", "src/record/object_null_multiple_256.rs", "src/record/member_primitive_untyped.rs"],
 [("enumeration parsers", "src/enumeration.rs, src/record/mod.rs"), ("range-checked ids and lengths", "src/combinator.rs")],
 ["accept or reject after a targeted change of one field whose position and kind are known from the encoder"])
prop("C16", "Deserializing delivers the parsed value to any type",
 "Deserializing a message presents to the requested type exactly the value that parsing returns: every primitive with its own type and value, strings borrowed from the input, arrays in order, library classes as maps of all their members, null as unit or none, any class as a struct by member name, and a newtype struct as the value it contains. A fixed-size target of another length, an out-of-range number, a method call or return, or bytes that do not parse give an error, never a partial or altered value.",
 ["inputs", "programs"], "all parsed values, nested arbitrarily, and all target types: self-describing, integers of every width, options, sequences, tuples, maps, structs",
 "Tests deserialize one value per primitive type and two small arrays; nothing is nested and options are only tried inside one struct.",
 ["src/lib.rs", "src/remoting_message.rs", "src/value/mod.rs", "src/value/object.rs"],
 [("value, array and object deserializers", "src/value/mod.rs, src/value/object.rs"), ("message deserializer", "src/remoting_message.rs")],
 ["the sequence of serde visitor calls recorded by a monitor type, compared with the parsed value"])
prop("C17", ".NET wrapper classes deserialize as what they wrap",
 "A boxed system primitive (a class of one of the twelve boxed primitive names, without library, holding only its value member) deserializes as that primitive, and a generic list deserializes as the first size elements of its item array, in order. A list whose size is negative or exceeds its items, a list without its three members, and a boxed class with missing, additional or unfit members (no such number, character or boolean) are errors; a class of the same name from a library is not unwrapped.",
 ["inputs"], "all twelve boxed types and all their values, all list sizes against all capacities, all element types, at the root and nested in arrays, members and other lists, and all malformed member sets",
 "Tests unwrap one value per boxed type at the root and one list of two of four strings; sizes beyond the items, nesting and malformed wrappers are not tried.",
 ["src/value/object.rs", "src/data_type/mod.rs", "src/value/mod.rs"],
 [("wrapper dispatch by class name", "src/value/object.rs: deserialize_any"), ("list window", "src/value/object.rs: ListDeserializer"), ("single member check", "src/data_type/mod.rs: impl_primitive")],
 ["values delivered to recording and concrete target types"])
prop("C18", "Dates, time spans and decimals mean what .NET wrote",
 "A DateTime reports as ticks the low 62 bits and as kind the top two bits of what .NET wrote (1 UTC, 2 local, 0 none), for every instant from 0001-01-01 to 9999-12-31; a TimeSpan reports its signed 64-bit tick count; serde sees the encoded 64-bit number of both. A decimal in .NET's canonical text form keeps exactly its digits, sign and scale; text that is not a number, or too large for a decimal, is rejected.",
 ["inputs"], "all ticks in the documented range with all kinds, all 64-bit time spans, all decimals of up to 28 digits, every scale from 0 to 28 and the 96-bit extremes, all non-numeric texts",
 "No test contains a DateTime, TimeSpan or Decimal.",
 ["src/value/date_time.rs", "src/value/time_span.rs", "src/value/decimal.rs", "src/data_type/datetime.rs", "src/data_type/timespan.rs", "src/data_type/decimal.rs", "src/value/mod.rs"],
 [("splitting ticks and kind", "src/value/date_time.rs"), ("decimal text conversion", "src/data_type/decimal.rs")],
 ["DateTime::ticks, DateTime::kind, TimeSpan::value, and the text or number handed to serde"])
prop("C19", "Parsing is a pure function of the bytes",
 "Parsing the same bytes always gives the same result: it does not depend on messages parsed before, on other threads parsing or deserializing at the same time, on where the buffer lies or on what lies around it, and it never changes the buffer. Results can be used from any thread while the buffer lives.",
 ["histories", "schedules", "inputs"], "all sequences and concurrent schedules of parse and deserialize calls over accepted and rejected messages, all buffer alignments and surroundings",
 "Each test parses one message once, and compares it only with itself.",
 [BP, "src/remoting_message.rs", "src/lib.rs"],
 [("parser state is created per call", "src/remoting_message.rs: parse"), ("results borrow only from the input", "src/remoting_message.rs, src/value/")],
 ["digest of each result, recorded per call with thread and sequence number", "ThreadSanitizer and Miri reports"])
prop("C20", "Features and build profiles do not change results",
 "With and without the serde feature, and in debug and release builds, parsing gives the same result for every input: the same value or the same error text; and deserializing gives the same in debug and release builds.",
 ["configurations", "inputs"], "the four combinations of serde feature and build profile, over well-formed, mutated and random messages",
 "The test suite runs in one configuration: debug with all features.",
 ["Cargo.toml", "src/lib.rs", "src/value/mod.rs", "src/data_type/mod.rs", BP],
 [("feature-gated code only adds deserialization", "cfg(feature = \"serde\") in src/")],
 ["digest of the result of each input, from one process per configuration"])
prop("C21", "No undefined behaviour and no access outside the input",
 "While parsing, using, deserializing and dropping any message, no memory outside the input slice and the values' own allocations is read or written, no invalid value (such as a string that is not UTF-8) is created, and all memory is released.",
 ["inputs", "schedules"], "all byte slices, well-formed, truncated at each byte, mutated and random, in exactly sized heap buffers; single and concurrent use",
 "The tests run without sanitizer or interpreter, on static buffers where an over-read would go unnoticed.",
 ["src/", "src/data_type/length_prefixed_string.rs", BP],
 [("safe Rust only, slices bounded by the parser combinators", "src/")],
 ["AddressSanitizer/LeakSanitizer and Miri reports", "guard pages directly after the input"])
prop("C22", "Errors name the rule that was broken",
 "When exactly one rule is broken in an otherwise well-formed message, the error's text names that rule: unsupported major or minor version, negative root id, trailing data, missing root object, duplicate or undeclared library, duplicate object id, unknown metadata id, invalid object id, length or null count (in a class record: invalid class information), unexpected class of a typed member, invalid or contradictory message flags, invalid arguments or call array id, unknown type code, or the primitive that was expected. Deserializing reports the same text as a parsing error.",
 ["inputs"], "all places of generated messages where each of these rules can be broken, alone",
 "No test looks at a parse error.",
 ["src/error.rs", "src/combinator.rs", "src/lib.rs", BP],
 [("error catalogue and texts", "src/error.rs"), ("failures that are not overridden by other alternatives", "src/combinator.rs: into_failure")],
 ["Display text of the returned error, and of the from_slice error"])
prop("C23", "Equality and copies follow content",
 "Two parse results compare equal exactly when they have the same content: the same kind of message with the same names, context, arguments and return value; values of the same type with the same value (floats as IEEE numbers, decimals by the number they denote, dates with their kind); arrays of the same length, element by element; objects of the same class, library and member names, member by member, in whatever order or encoding the bytes gave them. Equality is symmetric and != is its opposite; values built by hand compare likewise. A clone, also one made over another value, has the content of its original and keeps it when the original is gone. Errors from equal bytes are equal.",
 ["inputs"], "all pairs of accepted messages and values in them: with the same content in other encodings, ids and places, and with one difference of any kind at any depth and position",
 "Tests compare each result with one expected value; nothing shows that a differing value is unequal, and clone is never called.",
 ["src/value/mod.rs", "src/value/object.rs", "src/value/date_time.rs", "src/value/decimal.rs", "src/value/time_span.rs", "src/remoting_message.rs", "src/error.rs"],
 [("PartialEq and Clone of the result types", "src/value/, src/remoting_message.rs, src/error.rs")],
 ["==, != and clone of results, against their contents read member by member"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
