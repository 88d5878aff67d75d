#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files), state=[dict(zip(("name","meaning","where"),s)) for s in state],
                     mechanism=[dict(zip(("name","where"),m)) for m in mech],
                     observe_at=list(observe), hook_needed=hook)))
RO="binread_derive/src/codegen/read_options.rs"; ST="binread_derive/src/codegen/read_options/struct.rs"
EN="binread_derive/src/codegen/read_options/enum.rs"; IM="binread/src/binread_impls.rs"; LIB="binread/src/lib.rs"
HE="binread/src/helpers.rs"; FP="binread/src/file_ptr.rs"; PU="binread/src/punctuated.rs"; SR="binread/src/strings.rs"
ER="binread/src/error.rs"; PR="binread/src/private.rs"; PV="binread/src/pos_value.rs"; AT="binread/src/attribute.rs"

p("C01","A failed read leaves the reader where it started",
 "Whenever reading a type with a derived BinRead implementation returns an error - end of input, an I/O error of the reader, a failed seek, a bad magic, a failed assertion, a map function's error, no matching enum variant, or a failure inside a nested or pointed-to value - the reader is left at exactly the position it had when that read began. This holds for structs, tuple and unit structs, data enums, unit-like enums and mapped types, whatever part of the object failed and however deeply the failure was nested.",
 ["inputs","programs","fault_sequences"],"every derived type, every input, every position at which the input can end or the reader can fail",
 "Tests check the position after a handful of failures at one place each; the guarantee is over every failure point of every shape of type.",
 [RO,EN,ST,"binread/src/io/mod.rs"],[("start position is saved on entry and restored on any error",RO),("each failed enum variant seeks back to the enum start",EN)],
 [("reader position","stream position of the caller's reader","binread/src/io/mod.rs")],["Seek::stream_position after BinRead::read*/read_options returns Err"])

p("C02","Fields are read back to back and nothing else is consumed",
 "When no positioning directive is used, a successful read takes the bytes of each part directly after those of the previous part, in declaration order, through nested structs, tuples, arrays, vectors, Option, Box, PosValue, PhantomData and (), and leaves the reader one past the last byte of the last part. Every value is determined by exactly those bytes, no byte beyond them is required to exist or influences the result, and PosValue reports the position at which its value starts.",
 ["inputs","programs"],"every composition of readable types, every start position and every input, including inputs that end exactly where the object ends",
 "Tests parse a few fixed layouts at position 0 and rarely look at the final reader position or at inputs that end exactly at the object's end.",
 [IM,ST,PV,LIB],[("sequential field reads",ST),("element-by-element reads of tuples, arrays, vectors, Box, Option",IM),("position captured before the value",PV)],
 [("reader position","offset of the next byte","binread/src/io/mod.rs")],["value returned","stream position after Ok"])

p("C03","Positioning directives move the reader exactly as documented",
 "seek_before, pad_before and align_before (in that order) position the reader before a field, pad_size_to, pad_after and align_after (in that order) after it, pad_size_to counting from where the field's data started and never moving backwards, alignment being to a multiple of the absolute stream position, and restore_position putting the reader back to where it was before the field's positioning and data. Skipped bytes are never interpreted, none of these directives takes effect when the field's `if` condition is false, and a seek that fails is reported as an Io error.",
 ["inputs","programs"],"every combination of the directives on one or several fields, every start position, size and constant or computed argument",
 "Tests use one fixed combination with one fixed start position; interactions between the directives, and with if/try/nesting and odd start positions, are unsampled.",
 [ST,AT],[("seek/pad/align before and after the value, size mark, save and restore",ST)],
 [("reader position","offset of the next byte","binread/src/io/mod.rs"),("size mark","where the field's data started",ST)],["values of later fields","stream position after Ok"])

p("C04","Byte order follows the documented precedence everywhere",
 "Every multi-byte number (integers up to 128 bits, floats, wide-string units, pointers, numeric magics, repr and map sources) is decoded in the byte order of the innermost applicable directive: field, else enum variant, else the struct or enum itself, else the byte order supplied by the containing field or by the caller, else the host's. is_big/is_little choose by their condition, a byte-order directive on a type overrides whatever the containing object or caller asked for, and a directive on one field never affects its siblings.",
 ["inputs","programs","configurations"],"every placement of byte-order directives over nested types, variants and fields, every caller byte order, every condition value and every byte pattern",
 "Tests exercise a few placements with palindromic-free constants; the precedence relation over all placements and carriers is not enumerated.",
 [RO,ST,EN,IM,"binread/src/endian.rs","binread/src/options.rs","binread_derive/src/parser/types/cond_endian.rs"],[("options copied with the endian replaced",RO),("from_be/from_le by options.endian",IM)],
 [("ReadOptions.endian","byte order in force","binread/src/options.rs")],["value returned","options seen by custom BinRead implementations"])

p("C05","Magic numbers gate parsing",
 "A magic on a struct, enum, variant or field must equal the bytes found (numeric magics in the byte order in force there) for parsing to go on, and then exactly the magic's bytes have been consumed before the next part is read. Otherwise the read fails with BadMagic carrying the position where the magic was expected and the value found there (or the I/O error when it could not be read), nothing after the magic is parsed or evaluated, and a variant's own magic replaces the enum's.",
 ["inputs","programs"],"every literal kind and placement of a magic, every byte order, every input that matches, differs in any byte, or is cut short",
 "Tests check matching magics and one mismatch; placement, byte order, partial matches and truncation combinations are not covered.",
 [ER,RO,ST,EN,"binread_derive/src/parser/types/magic.rs"],[("read a value of the literal's type and compare",ER),("magic emitted before pre-assertions and fields",RO)],
 [],["Error::BadMagic pos and found","value returned"])

p("C06","Assertions are checked in order, once, and only fail when false",
 "A read succeeds only if every applicable pre_assert, field assert, variant assert and type-level assert held when reached: pre_asserts after the magic and before any field, field asserts right after their field, type-level asserts after all fields, variant asserts before the enum's own, each group in the order written. The first false one ends the read with AssertFail (custom or default message) or Custom (the given error value) at the object's start position, no later part is read or evaluated, and messages and error values are evaluated only for the assertion that fails.",
 ["inputs","programs"],"every set and placement of assertions over every type shape, every combination of their outcomes",
 "Tests fail one assertion at a time on one shape; order between groups, laziness and reported position are combinations the tests do not reach.",
 [RO,ST,EN,PR,"binread_derive/src/parser/types/assert.rs"],[("conditions compiled in order, error built by closure",RO),("__private::assert",PR)],
 [],["Error::AssertFail / Error::Custom","side effects of the error arguments"])

p("C07","A data enum yields its first matching variant or a faithful error",
 "Reading an enum with data returns the first variant, in declaration order, whose magic, pre-assertions, fields and assertions all succeed when read from the enum's start, exactly as if the earlier variants had not been tried. If none succeeds, the error is EnumErrors listing every variant by name, in order, with that variant's own error (the default), or a single NoVariantMatch when return_unexpected_error is given, positioned at the enum's start.",
 ["inputs","programs"],"every enum, nesting of enums, and input, including those on which earlier variants fail after consuming data or following pointers",
 "Tests use enums whose variants are told apart by their first byte; late failures, shared prefixes and nested enums are not sampled.",
 [EN,"binread_derive/src/parser/types/enum_error_mode.rs"],[("try variants in order, rewinding between them",EN),("collect (name, error) pairs",EN)],
 [("error basket","errors of the variants tried so far",EN)],["variant returned","Error::EnumErrors / NoVariantMatch","stream position"])

p("C08","Unit-like enums map values to variants exactly",
 "A unit-like enum with repr reads one number of that type in the byte order in force and returns the variant whose discriminant equals it; one with variant magics reads one value of the magic's type and returns the first variant whose magic equals it and whose pre_asserts hold. Any other value gives NoVariantMatch at the enum's start, and in every case exactly that one number or magic is consumed on success.",
 ["inputs","programs"],"every repr type (signed and unsigned), explicit and implicit discriminants, every magic literal kind, every input value",
 "Tests check a few listed discriminants; the guarantee is over all values including neighbours, negative discriminants and swapped byte order.",
 [EN,"binread_derive/src/parser/top_level_attrs.rs"],[("compare with each discriminant, or match on the magic read",EN)],
 [],["variant returned","Error::NoVariantMatch"])

p("C09","Counted collections hold exactly the requested elements",
 "A Vec, read_bytes, the count helper and Punctuated return exactly the requested number of elements, in stream order, each read with the field's byte order and arguments; Punctuated reads one separator between elements (and one after the last in its trailing form) and keeps them all; a zero count consumes nothing. The read fails with the error of the first element or separator that cannot be read, and an inner vector never silently reuses the outer vector's count.",
 ["inputs","programs"],"every element type, count (constant or computed from data), nesting, and truncation point",
 "Tests read a few fixed counts; zero counts, nested vectors, truncated elements and separators in every position are not covered.",
 [IM,HE,PU,ST],[("0..count element reads",IM),("helpers::count, read_bytes",HE),("Punctuated::separated[_trailing]",PU)],
 [("ReadOptions.count","requested number of elements","binread/src/options.rs")],["value returned","stream position"])

p("C10","until helpers stop exactly at their terminator",
 "until returns the elements up to and including the first one satisfying the predicate, until_exclusive the same without that element, both consuming through it and both failing if an element cannot be read first. until_eof returns all complete elements up to the end of input and succeeds only because the input ended: any other error of an element is returned unchanged.",
 ["inputs","programs","fault_sequences"],"every element type, predicate and stream, including a match on the first element, none before the end, a partial last element, and a non-EOF failure in any element",
 "Tests use one terminated stream per helper; absence of the terminator, partial tails and mid-stream failures are unsampled.",
 [HE],[("loop on predicate / on UnexpectedEof",HE)],
 [],["value returned","error returned","stream position"])

p("C11","Null-terminated strings end at the first null unit",
 "NullString, NullWideString and the NonZero vectors return exactly the units before the first zero unit and leave the reader just after it, whatever the units' values, the byte order and the number of bytes; wide units are two bytes and only an aligned zero unit terminates. If the input ends or fails before the terminator, the read fails with that I/O error instead of returning a truncated string, and the conversions to String lose nothing when the text is valid and otherwise replace or reject as documented.",
 ["inputs","fault_sequences"],"every byte sequence, byte order, start position and end-of-input or failure position",
 "Tests read three terminated ASCII strings; missing terminators, zero low or high bytes and invalid text are unsampled.",
 [SR],[("take bytes until zero",SR),("u16 reads until zero",SR)],
 [],["value returned","stream position","Error::Io kind"])

p("C12","File pointers resolve at the right place and give the position back",
 "A FilePtr field consumes only its pointer and, once the object has been parsed, holds the value read at (offset directive or inherited offset, else 0) plus the pointer, in the byte order and with the arguments and count of the field, resolved recursively through pointers, vectors, arrays, tuples, Option, Box and PosValue. Resolving never changes where the following data is read or where the reader ends up, and an unreadable target makes the read of the containing object fail with that error.",
 ["inputs","programs"],"every pointer width within the seekable range, signed or unsigned, every offset, container, nesting, target position (before, inside, after, overlapping or past the end)",
 "Tests follow a few forward pointers; backwards, overlapping, chained, signed and out-of-range targets and containers are unsampled.",
 [FP,IM,ST,PV],[("seek, read, after_parse, seek back",FP),("after_parse forwarding in containers",IM),("save and restore around post-processing",ST)],
 [("FilePtr.value","None until resolved",FP),("ReadOptions.offset","base of relative offsets","binread/src/options.rs")],["pointed-to value","stream position after Ok"])

p("C13","Post-processing happens exactly once, at the documented moment",
 "after_parse is called exactly once for every value read into a field without a map or parse_with: with deref_now/postprocess_now right after that field is read, otherwise after all fields of the object have been read and before the object's type-level assertions, in declaration order, with the options and arguments the field was read with (except that offset_after replaces the offset). Containers pass it on to every element in order, and values that were not read (default, ignore, calc, a failed try, an absent Option) receive no call. An error it returns is the error of the read it belongs to, and wherever it leaves the reader, an object whose calls are deferred ends where its fields ended.",
 ["inputs","programs"],"every mix of deferred and immediate fields, containers, conditions and nesting",
 "Tests observe post-processing only through FilePtr values; count, order and options of the calls are not observed.",
 [ST,IM,PR,LIB],[("generated after_parse calls",ST),("container forwarding",IM),("try_after_parse",PR)],
 [],["calls seen by a user-defined BinRead implementation"])

p("C14","try never fails the object and never loses the position",
 "A field marked try becomes Some of the value exactly when reading it would have succeeded, and otherwise None, with the reader back where that read began so that the following fields read the same bytes as if the field were absent. Only a failure to read the value is swallowed: a failing magic, assertion, positioning directive, map function or deferred post-processing of that field still fails the object.",
 ["inputs","programs","fault_sequences"],"every type that can be read by the field (primitives, tuples, arrays, vectors, strings, derived types, custom parsers) and every position at which its read can fail",
 "The test uses an empty input and a u32; partially consumed multi-part values are the case that matters and is not tested.",
 [ST,PR],[("result.ok() around the read",ST),("try_after_parse",PR)],
 [],["value returned","values of the following fields","stream position"])

p("C15","Conditional and computed fields read nothing when they should not",
 "A field with a false `if` takes its alternate (evaluated only then) or the default value, and a calc, default or ignore field its computed or default value, without reading, seeking or being limited by the input; a true `if` behaves as if the directive were absent. temp fields are read and usable by later expressions exactly as ordinary fields but do not appear in the result, and every expression sees the already-parsed values of earlier fields and the imports.",
 ["inputs","programs"],"every mix of conditional, computed, defaulted and temporary fields, every truth value and input",
 "Tests cover single uses; combinations with each other and with truncated input are unsampled.",
 [ST,"binread_derive/src/codegen/mod.rs","binread_derive/src/lib.rs","binread_derive/src/parser/types/condition.rs","binread_derive/src/parser/types/read_mode.rs"],[("wrap_condition / read_value",ST),("removal of temp fields","binread_derive/src/lib.rs")],
 [],["value returned","stream position","side effects of alternates"])

p("C16","Mapping functions and custom parsers see exactly the right data",
 "A map or try_map field (or type) reads one value of the function's input type with the field's (or type's) byte order, count, offset and arguments, applies the function exactly once, and stores its result; an error from try_map becomes an Io error if it is an I/O error and otherwise a Custom error holding that error value. A parse_with function is called exactly once with the reader at the field's position, the field's options and the field's arguments, its value stored and its error returned unchanged.",
 ["inputs","programs"],"every input type, function, directive combination on fields, structs and enums",
 "Tests apply one or two closures; options and arguments reaching the source read or parser, and error values, are not observed.",
 [RO,ST,PR],[("map_value / read_value",ST),("type-level map",RO),("get_map_err",RO)],
 [],["value returned","Error::Custom / Error::Io","options and arguments seen by the parser"])

p("C17","Arguments and options reach exactly the values they are meant for",
 "The values given by args or args_tuple arrive unchanged and in order as the imports (or import_tuple) of the field's type, for every element of a Vec or array and for the target of a FilePtr, and expressions may use any earlier field or import. count, offset and byte order set on a field apply to that field's value (and what it contains, until overridden) and never to sibling fields or to the enclosing object.",
 ["inputs","programs"],"every argument list, nesting of containers and derived types, and combination of options",
 "Tests pass one or two arguments one level down; leakage of options to siblings and propagation through containers are not observed.",
 [RO,ST,IM,"binread_derive/src/parser/types/imports.rs","binread_derive/src/parser/types/passed_args.rs"],[("options copied per field",RO),("args built per field",ST)],
 [("ReadOptions","byte order, count, offset","binread/src/options.rs")],["values computed from imports","options and arguments seen by a user-defined BinRead implementation"])

p("C18","Results do not depend on how the reader delivers bytes",
 "For the same bytes, the value or error and the final position are the same whether the reader returns everything at once, any number of bytes per call, or interrupts calls with ErrorKind::Interrupted at any point. A reader that fails at some position makes every read that needs that byte fail with exactly that I/O error, and reads that do not need it are unaffected.",
 ["schedules","inputs","fault_sequences"],"every fragmentation and interruption schedule, every failure position and error kind, over every kind of read",
 "Tests read from an in-memory cursor that always delivers everything; one unit test interrupts one read.",
 [IM,SR,HE,ER,"binread/src/io/mod.rs","binread/src/io/no_std.rs"],[("read_exact everywhere, bytes() for strings",IM)],
 [],["value or error returned","stream position"])

p("C19","Optional features do not change what is parsed",
 "A type parses identically - same values, same errors, same positions, same calls - with the default features, with const_generics, with debug_template (whether or not a template is being written) and without std.",
 ["configurations","inputs","programs"],"every supported feature set, every type that compiles under it, every input",
 "The tests run in one feature configuration, and most inputs are fixed.",
 ["binread/Cargo.toml",IM,FP,SR,ER,"binread_derive/src/codegen/read_options/debug_template.rs","binread/src/io/no_std.rs"],[("cfg-gated code paths",IM),("handle_error wrappers","binread_derive/src/codegen/read_options/debug_template.rs")],
 [],["value, error, position under each feature set"])

p("C20","The no_std I/O layer behaves like std's",
 "Without std, Cursor, Read::read, read_exact, bytes, Seek::seek and stream_position of binread::io return the same results and leave the same position as their std::io counterparts for every sequence of operations at any position of u64, including seeks past the end, seeks before the start (rejected, position unchanged), reads at and beyond the end, short reads and interruptions.",
 ["histories","inputs"],"every sequence of read/read_exact/bytes/seek/set_position operations on every content, with any fragmentation of the underlying reader",
 "Unit tests run a handful of operations once; SeekFrom::End, negative seeks and sequences are not exercised.",
 ["binread/src/io/cursor.rs","binread/src/io/no_std.rs","binread/src/io/error.rs","binread/src/io/mod.rs"],[("Cursor read/seek","binread/src/io/cursor.rs"),("read_exact loop, Bytes iterator","binread/src/io/no_std.rs")],
 [("Cursor.pos","current position","binread/src/io/cursor.rs")],["results and position after every operation"])

p("C21","All entry points parse the same way",
 "For the same bytes, position, byte order and arguments, read_options, read, read_args, read_type, read_be, read_le, read_ne and their _args forms give the same value, error and position, differing only in the byte order each names (native when none is given) and in that the reader-extension methods also post-process the top-level value. Consecutive reads on one reader each start where the previous one ended.",
 ["inputs","programs","histories"],"every readable type, byte order, argument list, and sequence of calls",
 "Tests use one entry point per type.",
 [LIB,ER,HE],[("default methods of BinRead and BinReaderExt",LIB)],
 [],["value, error and position"])

p("C22","Directive sets are accepted or rejected by rule, not by accident",
 "Deriving accepts a set of directives exactly when no two of them conflict (two byte orders, two value sources, map with try_map, two argument or import forms, deref_now with offset_after, a single-valued directive repeated, repr with magic, two error modes) and each is allowed at that place, and rejects every other set with a compile error naming the problem. Order, grouping into attributes, alias spelling and `k = v` versus `k(v)` form never change acceptance or the meaning of what is accepted.",
 ["programs","configurations"],"every set of directives on a field, struct, enum or variant, in every order and spelling",
 "trybuild tests reject about twenty single examples; the conflict relation over pairs, orders and spellings is not enumerated.",
 ["binread_derive/src/parser/mod.rs","binread_derive/src/parser/field_level_attrs.rs","binread_derive/src/parser/top_level_attrs.rs","binread_derive/src/parser/macros.rs","binread_derive/src/parser/meta_types.rs","binread_derive/src/parser/keywords.rs"],[("TrySet and validate","binread_derive/src/parser/field_level_attrs.rs")],
 [],["rustc diagnostics","parsed values"])

p("C23","Hostile input yields an error, never a crash or a hang",
 "Whatever the bytes - any declared count, pointer or length that fits the format, any truncation, any garbage, any missing terminator - reading a type whose own expressions do not panic - types that contain themselves included - returns either a value or an error in time and memory proportional to the input actually available. It does not panic, overflow, abort on allocation, or loop without consuming input. (Elements that are repeated until a condition or the end of input are taken to consume input, a counted collection of elements of no size at all is as long as its count says, and what file pointers lead to counts as input as often as it is pointed at.)",
 ["inputs"],"every input for every derived type, in debug builds (overflow checks on) as well as release",
 "Tests feed well-formed data; huge counts, pointers beyond the end, and unterminated data are not sampled.",
 [HE,PU,SR,IM,ST,FP],[("element-wise reads fail at end of input",IM),("buffers sized by counts from the data",HE)],
 [],["return of every call within the operation budget"])

p("C24","The debug template describes what was parsed, where it was parsed",
 "With debug_template on and an output set, every scalar, null-terminated string, pointer, vector and array that is read writes one entry when its read begins, giving the byte order in force, the absolute position, the type, the name of the field it is read for (`magic` for magic values, `ptr_to_` and the name for the word of a pointer, a generated name where there is no field) and for vectors and arrays the element type and number of elements, in the order in which things are read. What is read inside a vector or array, a byte-string magic or as the word of a pointer is already described and adds no entry; the target of a pointer is described where and when it is read. A struct opens an entry when its parsing begins and closes it exactly once when it ends, whether it succeeds or fails, so that entries nest as the reads do.",
 ["inputs","programs","configurations"],"every type, every input and failure point",
 "No test looks at what a template contains: the feature is only ever compiled and run without an output.",
 ["binread/src/binary_template.rs","binread_derive/src/codegen/read_options/debug_template.rs",IM,FP,SR],[("write_named / write_vec calls",IM),("struct start/end","binread_derive/src/codegen/read_options/debug_template.rs")],
 [],["template text"])
p("C25","A fault of the device is reported or recovered from, never swallowed",
 "Whichever single operation on the reader fails with an I/O error - a read, or a seek made for a directive, a pointer, a position that is recorded, or for going back - the read behaves as if the step that needed the operation had failed: the error is the result, unless an enclosing enum alternative or `try` field recovers from it exactly as it would from any other error of that step; if the operation that fails is the one that goes back to a saved position, that error is the result and nothing is built or tried on a reader whose position is not known. When every operation fails from some point on, the call in progress ends with that I/O error, as does every later call that needs the reader. No operation that fails goes unnoticed, none is turned into a different error or a value, and nothing panics.",
 ["fault_sequences","inputs","programs"],"every operation of every read of every type, failing once or from then on",
 "No test uses a reader whose seeks fail, or that fails in the middle of a read; which operation fails is a dimension of its own for every type and input.",
 [RO,EN,ST,FP,IM,ER,PV,HE],[("`?` on every stream_pos/seek/read",RO),("going back after a failed variant, try field or object",EN)],
 [("saved positions","where a recovery starts",RO)],["value or error of the call, position, calls to user code, failed operations of the device"])
p("C26","Reading does not depend on names or on how the type is declared",
 "A type that can be declared can be read, and what is read depends on its fields and directives alone, as long as `binread` and the names of the standard prelude keep their meaning. Its own name and the names of its fields, imports, type parameters and lifetimes, and whatever other types, modules and macros are in scope beside it (a constant or unit struct spelled like a local variable excepted, which Rust takes for a pattern), do not matter: none of them is captured by, or clashes with, what the derive macros expand to, with or without debug_template. A generic type - with type, lifetime and const parameters, bounded in the parameter list or in a where clause - reads, at every instantiation, as the type in which the parameters are replaced by their arguments; a declaration produced by a macro_rules! macro, with types, expressions and identifiers passed as fragments, reads as the declaration it stands for, and so does one in a nested module or with restricted visibility. An expression in a directive keeps its grouping whether or not it is written in parentheses.",
 ["programs","inputs"],"all declarations of all types",
 "Derive macros are used on types the authors have not seen; a clash with a user's name or a lost bound is a compile error or a silently different value in somebody else's crate.",
 ["binread_derive/src/codegen/mod.rs","binread_derive/src/codegen/sanitization.rs",RO,ST],[("generate_impl: generics, bounds and the names of the impl","binread_derive/src/codegen/mod.rs"),("generated identifiers and paths","binread_derive/src/codegen/sanitization.rs")],
 (),["acceptance by rustc","value or error, position, calls to user code, of every instantiation"])
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root,"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
