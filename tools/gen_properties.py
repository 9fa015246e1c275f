import json
P=[]
def p(id,title,st,over,text,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,title
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state:a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
M="src/decode/module.rs";H="src/decode/helpers.rs";I="src/decode/integer.rs";INS="src/decode/instructions.rs"
SEC=["src/decode/sections/%s.rs"%s for s in "code custom data data_count element export function global import memory start table tag type".split()]
TY=["src/decode/types/%s.rs"%s for s in "comptype externtype globaltype heaptype limits memtype rectype reftype resulttype tabletype tagtype valtype".split()]
ALL=[M,H,I,INS,"src/decode/indices.rs"]+SEC+TY
CLI=["wadec-cli/src/main.rs"]
DM=["wadec::decode_module return value"]
p("C01","Malformed modules are always rejected",
 "A byte string that is not derivable from the WebAssembly 3.0 binary grammar, including its side conditions (section order and sizes, integer ranges, UTF-8 names, function/code and data counts), is never turned into a module: decoding returns an error. This holds wherever in the module the defect sits and however many well-formed parts surround it.",
 ["inputs"],"every byte string outside the binary grammar",
 "The suite rejects about 120 hand-made files, each with one defect in one place; the official conformance suite is not available in the build. The set of malformed inputs is infinite.",
 ALL,[("per-production decoders that validate markers, ranges and sizes","src/decode/**"),("end-of-module side conditions",M+": decode_module")],DM)
p("C02","Well-formed modules are always accepted",
 "Every byte string derivable from the WebAssembly 3.0 binary grammar whose structured instructions nest no deeper than 1,000 levels (optimised build, 8 MB of stack) decodes successfully, whichever permitted encodings (padded integers, alternative segment and type forms, interleaved custom sections) it uses and however long its lists are. Modules that are well-formed but would fail validation are accepted too.",
 ["inputs","programs"],"every well-formed module up to nesting depth 1,000, with every legal choice of encoding",
 "The suite accepts about 45 fixtures, nearly all with minimal encodings, tiny lists and shallow nesting.",
 ALL,[("per-production decoders","src/decode/**")],DM)
p("C03","Decoded module components match the bytes",
 "After a successful decode, the imports, exports, functions' type indices, tables, memories, tags, globals, start function, element segments, data segments, data count and custom sections of the result are exactly those encoded, same number, same order, same field values, with absent sections giving empty components. Shorthand encodings (tables without initializer, index-list element segments, implicit table 0 or memory 0) yield the contents the specification defines for them.",
 ["inputs","programs"],"every accepted module",
 "Fixture tests compare a few dozen concrete modules; they do not vary counts, field values and combinations of sections.",
 [M]+SEC,[("section decoders fill the module",M+": decode_module"),("segment and table shorthands","src/decode/sections/element.rs, data.rs, table.rs")],["wadec::Module public fields"])
p("C04","Every instruction decodes to its opcode, operands and nesting",
 "In any expression (function body, global, table, element or data offset) each encoded instruction appears in the result as the instruction the specification assigns to its opcode, with its immediates in their right roles and values, in the original order, and with blocks, loops, conditionals (with or without an else branch) and exception handlers nested as encoded. Opcodes the specification leaves unassigned are rejected.",
 ["inputs","programs"],"every instruction sequence and every immediate value, in every expression context",
 "Fixtures show most opcodes once with small operands; swaps of equal-typed operands, boundary operands, padded sub-opcodes and deep nestings are not covered.",
 [INS,H,"src/core/instruction.rs"],[("opcode dispatch and immediate decoding",INS+": Instruction::parse")],["instruction lists in wadec::Module"])
p("C05","LEB128 integers: exactly the legal encodings, exactly their values",
 "Wherever the format holds an integer (u32 indices, counts, sizes and sub-opcodes; u64 offsets and limits; s32 and s64 constants; s33 type indices), the decoder accepts exactly the encodings of at most the permitted length whose unused bits are a proper zero or sign extension, yields the encoded value for them, and rejects all others. Re-encoding any integer with a different legal length changes no decoded value.",
 ["inputs"],"every byte sequence in every integer position",
 "Unit tests try about 25 sequences per helper; final-byte patterns, all lengths, and all positions in the format are not enumerated.",
 [I,"src/decode/indices.rs",INS,"src/decode/types/limits.rs"],[("LEB128 decoders",I)],DM+["decoded operand values"])
p("C06","Raw payload bytes are preserved bit for bit",
 "Float constants (every NaN payload, signed zeros, subnormals), 128-bit vector constants, shuffle masks, lane bytes, data segment contents and custom section contents are reproduced in the result bit for bit and at their exact length, for every content and every size, including empty and very large ones.",
 ["inputs"],"every payload content and length",
 "Fixtures contain a handful of short payloads and no NaN payload beyond the canonical ones.",
 [H,INS,"src/decode/sections/custom.rs","src/decode/sections/data.rs"],[("decode_f32/f64, decode_byte_vector, read_to_end",H)],["wadec::Module public fields"])
p("C07","Types decode to the type the bytes denote",
 "Value, reference, heap, storage, field, composite, sub-, recursive-group, table, memory, global and tag types decode to exactly the denoted type: shorthand and long forms give the same type, nullability, finality, mutability, supertypes, field order, address width and both limits are kept, concrete type indices keep their value, and every other marker byte is rejected.",
 ["inputs","programs"],"every type expression in every position where a type may occur",
 "Fixtures use each constructor a few times in one position; products of constructors, positions and boundary indices are not covered.",
 TY,[("type decoders with one-byte lookahead","src/decode/types/*.rs")],["types in wadec::Module"])
p("C08","Sections: prescribed order, no duplicates, exact sizes",
 "Non-custom sections are accepted only in the prescribed order and at most once each, custom sections may appear anywhere any number of times, unknown section ids are rejected, and a section is accepted only if its content takes exactly the declared number of bytes. The result's list of section headers and of non-custom section kinds is exactly the sequence in the input with the declared sizes.",
 ["inputs","histories"],"every sequence of sections, with every size deviation and every placement of custom sections",
 "Tests contain one out-of-order, one duplicate and a few size-mismatch files; ordered pairs and triples of sections with custom sections between them are not covered.",
 [M,"src/core/module.rs"]+SEC,[("validate_section_kind_expected, Read::take and limit()",M)],DM+["Module.section_headers, Module.parsed_section_kinds"],[("parsed_section_kinds","non-custom sections seen so far","src/core/module.rs")])
p("C09","Functions pair with code bodies and locals expand faithfully",
 "A module is accepted only if it has as many code bodies as declared functions (either section may be absent when empty), each body fills exactly its declared size, and each function's declared locals total less than 2^32. The i-th function then has the i-th declared type, the i-th body, and its local groups expanded in order to one entry per local (groups of zero contribute none).",
 ["inputs","programs"],"every combination of function and code sections, body sizes and local groups",
 "Tests have one mismatch each; zero-sized groups, sums crossing the limit, per-body size deviations in later bodies and many-function modules are not covered.",
 [M,"src/decode/sections/code.rs","src/decode/sections/function.rs"],[("length comparison and locals expansion",M+": decode_module"),("entry size limit and locals sum","src/decode/sections/code.rs")],["Module.funcs"]+DM)
p("C10","Data count and data indices stay consistent",
 "If a data count section is present, the module is accepted only if it equals the number of data segments (zero when there is no data section). If any function body uses an instruction that names a data segment, at any nesting depth and in any branch, the module is accepted only if a data count section is present; otherwise the section is optional.",
 ["inputs","programs"],"every placement of data-naming instructions and every count/segment combination",
 "Tests place the instruction in two or three nestings; the four instructions times all nesting shapes, positions and functions are not covered.",
 [M,H,"src/decode/sections/data_count.rs"],[("instruction_contains_data_index",H),("end-of-module checks",M+": decode_module")],DM)
p("C11","No input can crash the decoder",
 "For every input, decoding returns a module or an error: it never panics, aborts, overflows an arithmetic operation or the stack. Rendering the result (debug output of a module; message, cause chain and debug output of an error) does not panic either.",
 ["inputs"],"every byte string",
 "Tests decode fixed files only; none explores hostile lengths, depth or garbage, and release builds hide arithmetic overflow.",
 ALL,[("Result-based error handling, forbid(unsafe_code)","src/lib.rs")],["process termination status","panic hook"])
p("C12","Memory use is proportional to the bytes received",
 "Peak memory while decoding is bounded by a constant plus a constant factor times the number of bytes the input actually supplied, no matter what counts and lengths it merely declares. Once a result (module or error) is dropped, everything its decode allocated has been released.",
 ["inputs"],"every input, including truncated ones with hostile declared lengths",
 "No test observes allocation.",
 [H,M,"src/decode/sections/code.rs"],[("incremental growth of decoded lists",H+": decode_list, decode_byte_vector"),("locals expansion",M)],["global allocator of the monitoring process"])
p("C13","Decoding work grows linearly with the input",
 "The number of machine operations performed to decode an input, and the number of read calls issued, grows at most in proportion to its length (up to a logarithmic factor), for every shape: flat or nested code, long lists, many sections, many functions. The expansion of declared locals counts as input.",
 ["inputs","programs"],"every family of inputs of growing size",
 "No test measures work; all fixtures are tiny.",
 ALL,[("single streaming pass","src/decode/**"),("one data-index scan per body",H+": decode_expr")],["instruction counts under valgrind","read calls at the supplied reader"])
p("C14","The result does not depend on how the bytes are delivered",
 "Decoding gives the same module or the same error whether the reader hands out its bytes at once, one at a time, in arbitrary chunks, or with interruptions in between. Only the byte sequence matters.",
 ["inputs","schedules"],"every input and every partition of it into reads, with transient interruptions anywhere",
 "All tests read from files or in-memory cursors, which always fill the buffer.",
 [M,H,"src/decode/sections/custom.rs"],[("read_exact/read_to_end everywhere",H+": read_byte; "+M)],["std::io::Read passed to decode_module"])
p("C15","Reader failures are always reported, never taken for the end",
 "If the reader reports a failure of any kind (other than a transient interruption) at any byte offset, including exactly where a section or the module could end, decoding returns an error whose cause chain exhibits that failure. An input cut short is likewise rejected unless the prefix is itself a complete well-formed module.",
 ["inputs","fault_sequences"],"every input, every failure offset and every error kind; every truncation point",
 "Tests use truncated files for some productions only and never inject a failing reader.",
 [M,H,INS]+SEC,[("io::Error propagation through every error enum","src/decode/**"),("end-of-input detection",M+": decode_section_header")],["std::io::Read passed to decode_module","error source chain"])
p("C16","The decoder consumes its input exactly",
 "A successful decode has read the input to its end and observed that end. While processing a section the decoder takes no byte past that section's declared end, and a function body takes none past its own declared end, so a failed decode has consumed at most the bytes up to the end of the section (or header) at fault.",
 ["inputs"],"every accepted and rejected input",
 "Tests look only at the returned value.",
 [M,"src/decode/sections/code.rs"],[("Read::take per section and per body",M+"; src/decode/sections/code.rs")],["bytes handed out by the reader"])
p("C17","Each decode is independent of every other decode",
 "The result for an input depends only on that input: repeating it, decoding it after any history of successful or failed decodes, interleaved with a suspended decode, or concurrently with others on other threads gives the same module or error, and no data race occurs.",
 ["histories","schedules"],"every history of decodes on one thread and every concurrent schedule on several",
 "Tests decode each fixture once.",
 ALL,[("no shared mutable state; static lookup tables","src/decode/**")],DM+["ThreadSanitizer reports"])
p("C18","Custom sections are inert",
 "Inserting, removing or altering custom sections between other sections changes neither whether the rest of the module is accepted nor anything in the decoded module except the custom sections themselves and the list of section headers.",
 ["inputs","programs"],"every module and every placement of custom sections with every name and content",
 "Fixtures contain custom sections in one or two places.",
 [M,"src/decode/sections/custom.rs"],[("custom sections exempt from ordering",M+": validate_section_kind_expected")],["wadec::Module public fields"]+DM)
p("C19","Errors say where decoding failed",
 "When decoding fails inside a section's content, the error identifies that section, and the zero-based positions it reports for the enclosing list elements, outermost first, are those of the element at fault.",
 ["inputs"],"every rejected input with a single fault, at every position in every list",
 "Tests check positions for one hand-made file per error, nearly always position 0.",
 [H,M]+SEC,[("DecodeListError::ParseElement position",H),("one error type per section",M+": DecodeModuleError")],["DecodeModuleError variant","messages of the error source chain"])
p("C20","Error chains reach the root cause",
 "Following an error's cause links from the top leads to its root cause without gaps: for an invalid marker, flag or opcode the final message states the offending byte or value, for an ill-formed integer or name it states that, and for missing or unreadable input it is the I/O error itself (or a transparent wrapper that shows it).",
 ["inputs"],"every rejected input with a single fault",
 "Tests destructure error values but never follow source(), which is what users of the library and the command-line tool see.",
 ALL,[("thiserror source links and messages","every error enum")],["std::error::Error::source chain and Display"])
p("C21","Mismatch errors report the true numbers",
 "An error about a size or count (section size, body size, function/code count, data count, number of locals, duplicate or out-of-order section) carries the numbers and kinds actually declared and actually found in the input.",
 ["inputs"],"every input whose only fault is such a mismatch",
 "Tests check the numbers for one file per error.",
 [M,"src/decode/sections/code.rs"],[("fields of DecodeModuleError and DecodeCodeError",M+"; src/decode/sections/code.rs")],["fields of the returned error"])
p("C22","The command-line tool's verdict matches the library",
 "The tool exits with status 0 exactly when the library decodes the given bytes and with a non-zero status otherwise (also when the input cannot be opened or read), for a file, for '-', and for standard input by default. On success without verbose output it prints nothing; on failure nothing goes to standard output and the report starts with 'ERROR:' on standard error; it never panics, even when its standard output or standard error cannot be written (the exit status is then not specified if there was something to print).",
 ["inputs","configurations"],"every input, delivered as a file or through a pipe, with every combination of options",
 "The tool has no tests.",
 CLI,[("main and abort","wadec-cli/src/main.rs")],["exit status, stdout and stderr of the wadec process"])
p("C23","The command-line report is complete",
 "On failure the tool prints the library's error message followed by every cause in the error's chain, numbered in order from 0 under the heading 'Caused by:', and with verbose output (only) also the error's debug form under the heading 'DEBUG OUTPUT:'. On success with verbose output it prints the debug form of the complete decoded module.",
 ["inputs","configurations"],"every input with and without verbose output",
 "The tool has no tests.",
 CLI,[("main and abort","wadec-cli/src/main.rs")],["stdout and stderr of the wadec process"])
p("C24","Names are exactly the valid UTF-8 byte strings",
 "Import module and item names, export names and custom section names are accepted exactly when their bytes are valid UTF-8 (no overlong forms, surrogates, out-of-range or truncated sequences) of exactly the declared length, for any length, and appear in the result unchanged, without trimming or normalisation.",
 ["inputs"],"every byte string in every name position",
 "Fixtures contain three invalid names and only ASCII valid ones.",
 [H,"src/decode/sections/import.rs","src/decode/sections/export.rs","src/decode/sections/custom.rs"],[("decode_name",H)],["names in wadec::Module"]+DM)
p("C25","Errors name the item at fault, not its neighbour",
 "The messages of an error's cause chain name the thing at fault and no neighbouring thing: an index error the kind of index (function, type, table, label, ...), a name error which name (module or item name), a limits error whether minimum, maximum or flag, a function type error whether parameters or results, an instruction error the family of the innermost instruction and which immediate, an integer error the width and signedness of the integer and whether it has too many bytes or excess bits, and an error inside an expression which expression (offset, initialiser or body). A marker byte that is missing altogether need not be named.",
 ["inputs"],"every rejected input with a single fault, at every kind of item",
 "Tests destructure error values for a few items; no test looks at which of several neighbouring items a message names, and most of the neighbours have no failing fixture.",
 ALL,[("map_err at each read, and the messages of the error enums","src/decode/**")],["messages of the error source chain"])
p("C26","Lists of accepted values in messages are true and complete",
 "Where a message about an invalid byte or value says which values were expected, every value it lists is one that is accepted at that place, no accepted value of the listed kind is missing, and a meaning or name given to a listed value is the meaning the decoder gives it.",
 ["inputs"],"every invalid byte or value at every kind of marker, flag and kind byte",
 "Tests never read the messages.",
 ALL,[("the messages of Invalid... variants","every error enum"),("marker lists in the messages","src/decode/types/*.rs; src/decode/sections/*.rs; "+INS)],["last message of the error source chain"])
p("C27","Decoding never has undefined behaviour",
 "For every input and every safe reader, also one that inspects the buffer it is given, claims to have delivered more bytes than were asked for, is interrupted, fails or panics at any point, decoding and dropping its result performs no undefined behaviour: no read of uninitialised, freed or out-of-bounds memory, no invalid value, no double drop. A misbehaving reader may at worst cause a panic or an error.",
 ["inputs","fault_sequences"],"every input through every implementation of Read written in safe code",
 "Tests use well-behaved readers and run without sanitizers or Miri, so that undefined behaviour without visible consequence passes.",
 ALL+["src/lib.rs"],[("unsafe code is forbidden crate-wide","src/lib.rs"),("read buffers are initialised before they are handed to the reader",H)],["reports of AddressSanitizer, MemorySanitizer and Miri"])
p("C28","The result is the same on every platform and in every build profile",
 "For every input (given stack enough for its nesting) the module or error is the same on 32-bit and 64-bit machines, little- and big-endian, in development builds (with assertions and overflow checks) and in release builds: same verdict, same decoded values, same messages along the cause chain.",
 ["inputs","configurations"],"every input on every word size, byte order and build profile",
 "The tests run on one platform in one profile.",
 ALL,[("fixed-width integers and explicit little-endian decoding",I+"; "+H),("conversions between u32/u64 and usize",M+"; "+H)],DM)
p("C29","Equality and debug output tell decoded modules apart",
 "Two decodes of the same bytes give modules that compare equal (unless a NaN constant occurs, which is unequal to itself) and have the same debug output. Two decoded modules that differ in any part (a section header, custom section, type, name, index, limit, local, instruction, immediate, payload byte) compare unequal, as a whole and in that part, and have different debug output; only the payload of NaNs, and for equality the sign of zero, may go unnoticed.",
 ["inputs"],"every pair of well-formed inputs",
 "Tests compare decoded parts with the very operators whose faithfulness is at stake, and never compare two different modules.",
 ["src/core/module.rs","src/core/mod.rs","src/core/instruction.rs","src/core/indices.rs","src/core/custom_section.rs","src/core/types/mod.rs"],[("PartialEq and Debug of the syntax types","src/core/**")],["==, != and {:?} of wadec::Module and its parts"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
