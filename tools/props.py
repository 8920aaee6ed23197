prop("C04", "Conversion is a pure function of its arguments",
     "The result of a conversion depends only on the input bytes, the output format and the settings, and computing it has no effect outside the returned value: no files, environment, clock, randomness, threads, network, global mutable state or printed output in the default build.",
     ["inputs", "histories"], "every input, format and settings value, and any history of earlier calls",
     "Tests call the function a few times with fixed arguments; they cannot observe an effect or a dependency they do not look for.",
     ["src/lib.rs", "src/function/mod.rs", "src/serialization/stream.rs", "src/serialization/writer.rs"],
     [("no statics, no interior mutability, std effects only allocation", "whole crate call graph from unify")],
     "effect analysis over the resolved whole-program call graph (std bodies included)",
     "Decides the property for everything reachable from the public entry points, including the std code that is monomorphised for them; allocation and panics are not effects here. " + MIR)
prop("C05", "No error is swallowed",
     "Every error value that any step of a conversion produces ends the conversion and is returned to the caller (possibly mapped to the error of the caller's level); no step's error is dropped, replaced by a default or turned into a success.",
     ["inputs"], "every input that makes any internal step fail, at any point of the byte stream",
     "The tests provoke a handful of errors directly at the failing primitive; whether each of the hundreds of call sites forwards the error is not observed.",
     ["src/lib.rs", "src/format/mod.rs", "src/function/mod.rs", "src/function/upcast.rs", "src/function/convert.rs", "src/function/builder.rs", "src/serialization/stream.rs", "src/serialization/writer.rs"],
     [("? propagation of LunifyError at each call site", "all functions that call a fallible step")],
     "typestate dataflow on error-carrying results along every control-flow path",
     "Decides, for each call site of a function that can return the crate's error, that on every path on which it is an error the enclosing function returns an error; closures and iterator adaptors of Result are followed. " + MIR)
prop("C06", "Unsafe code stays confined to the endianness probe",
     "No memory-unsafe operation is executed by a conversion of any input: the only unsafe operation of the crate is the read of one byte of a local 32-bit constant that determines the host's byte order.",
     ["inputs", "programs"], "every input and every use of the public interface",
     "Memory unsafety that goes unnoticed in one run does not fail a test; absence over all code needs every operation to be examined.",
     ["src/format/mod.rs"],
     [("host byte order probe", "Format::default")],
     "unsafe-operation census with provenance and bounds check of each raw access (MIR)",
     "Decides that every raw-pointer access, unsafe call, transmute and static-mut access in the crate's own code is the in-bounds, initialised, aligned probe; std's own unsafe code is trusted. " + MIR)
prop("C07", "Debug output does not change behaviour",
     "Enabling the debug feature only adds printed text: for every input the returned bytes or error are the same as without it.",
     ["inputs", "configurations"], "every input, in both feature configurations",
     "The test suite is built in one configuration and compares no outputs across configurations.",
     ["Cargo.toml", "src/lib.rs", "src/format/mod.rs", "src/function/mod.rs", "src/function/builder.rs", "src/function/convert.rs"],
     [("cfg(feature = \"debug\") blocks that only print", "src/**")],
     "program slicing of both feature builds and step-by-step comparison of the remaining control-flow graphs",
     "Decides equality of the two builds after removing statements that only feed printing; assumes formatting a value through a shared reference has no effect and that stdout accepts the text. " + MIR)

GVN = "abstract interpretation of the typed MIR to gated value terms (joins at merges, inductive loop summaries), compared case by case with reference terms"
GNOTE = "Decides equality of the computed and the reference terms for every case of the decisions either depends on; an inequality is reported only with the operation, the case and a valuation that tells the terms apart, anything else the analysis can not settle is reported as UNDECIDED (none on the committed tree). " + MIR + " Loops and collections are assumed shorter than 2^40."
prop("C10", "Truncated input is always reported as too short",
     "Reading any field of any kind at any position of any input returns InputTooShort exactly if the input ends before the field does (including for declared lengths near the integer limits), and otherwise succeeds and advances the position by exactly the size of the field.",
     ["inputs"], "every input, position, declared width, byte order and declared length",
     "The tests read a few complete and a few cut fields of one to eight bytes from the start of a buffer.",
     ["src/serialization/stream.rs", "src/serialization/macros.rs"],
     [("bounds check before the position moves", "ByteStream::{byte, slice, string, integer, size_t, instruction, number}")],
     GVN, GNOTE)
prop("C17", "Integers keep their value, sign, width and byte order",
     "An integer, size_t or instruction word is read as exactly the value its bytes denote in the declared width, signedness and byte order, and a value that fits is written as exactly the bytes that denote it in the output's width and byte order.",
     ["inputs", "configurations"], "every value and position, both byte orders, both widths",
     "The tests use small positive values, for which sign extension and most byte positions do not matter.",
     ["src/serialization/stream.rs", "src/serialization/writer.rs", "src/serialization/macros.rs"],
     [("from_slice!/to_slice! for each (width, endianness)", "src/serialization/macros.rs")],
     GVN, GNOTE)
prop("C18", "Values that do not fit the output width are an error",
     "Writing an integer, size_t or instruction word that the output's declared width can not represent returns an error; a value is never cut off silently.",
     ["inputs", "configurations"], "every value and every output width",
     "The tests only write values that fit.",
     ["src/serialization/writer.rs", "src/serialization/macros.rs"],
     [("range check before narrowing", "ByteWriter::{integer, size_t, instruction}")],
     GVN, GNOTE)
prop("C19", "Numbers convert exactly or not at all",
     "A number constant is read as exactly the number its bytes denote in the declared representation; written as an integer it is the same number, or FloatPrecisionLoss if it has a fraction, or IntegerOverflow if the integer type can not hold it; an integer written as a float is the same number or IntegerOverflow; the bytes are those of the output's representation.",
     ["inputs", "configurations"], "every float (including infinities, NaN and subnormals) and every integer, every combination of input and output representation",
     "The tests convert 9, 10 and 10.5.",
     ["src/number.rs", "src/serialization/stream.rs", "src/serialization/writer.rs"],
     [("exactness test before the conversion", "Number::{as_integer, as_float}"), ("representation selected by is_number_integral and number_width", "ByteStream::number, ByteWriter::number")],
     GVN, GNOTE + " Integers beyond 2^24 written to a 32-bit float representation are rounded to the nearest float, like any other number.")
prop("C20", "Strings keep their bytes",
     "The bytes of every string constant, source name and debug name are written exactly as they were read, including bytes that are no text in any encoding, preceded by their number in the output's width and byte order (or IntegerOverflow if that width can not hold it).",
     ["inputs", "configurations"], "every string content and length, every combination of input and output formats",
     "The tests use ASCII strings only.",
     ["src/serialization/stream.rs", "src/serialization/writer.rs"],
     [("one byte per character in both directions", "ByteStream::string, ByteWriter::string")],
     GVN, GNOTE)

ABSN = " The bodies of functions are abstracted here: reading one advances the input by an arbitrary number of bytes or fails, writing one appends arbitrary bytes or fails."
prop("C08", "Only input with a known signature is accepted",
     "A conversion returns IncorrectSignature exactly if the input is not longer than, or does not start with, the Lua 5.0 signature and likewise for the Lua 5.1 signature of the settings; otherwise reading continues directly behind the signature that matched.",
     ["inputs", "configurations"], "every input and every pair of signatures, of any length",
     "The tests use the default signature and one custom one on complete files.",
     ["src/lib.rs", "src/serialization/stream.rs"],
     [("prefix comparison of both signatures", "unify, ByteStream::remove_signature")],
     GVN, GNOTE + ABSN)
prop("C09", "The header is accepted exactly if it is supported",
     "Behind the signature: version 0x50 or 0x51, (5.1) format byte, byte order 0 or 1, integer, size_t and instruction width 4 or 8, (5.0) the four operand sizes of the Lua 5.0 layout, number width 4 or 8, (5.1) integral flag, (5.0) the test number, whose integral part tells floats from integers. The first field that is missing gives InputTooShort and the first one that is wrong gives the error of that field with the offending value; otherwise the function is read from directly behind the header, with exactly the declared version and format.",
     ["inputs", "configurations"], "every input behind any signature, every Lua 5.0 layout",
     "The tests sample one invalid value per field and a few valid headers.",
     ["src/lib.rs", "src/format/mod.rs", "src/format/version.rs", "src/format/endianness.rs", "src/format/width.rs", "src/serialization/stream.rs"],
     [("field-by-field header parser", "Format::from_byte_stream, TryFrom<u8> of LuaVersion, Endianness, BitWidth")],
     GVN, GNOTE + ABSN + " The contents of UnsupportedInstructionFormat are not compared.")
prop("C11", "Bytes behind the function are an error",
     "A conversion of input with a supported header returns InputTooLong exactly if bytes remain behind the main function, before anything is written, and otherwise does not.",
     ["inputs"], "every input and every length of the main function",
     "The tests only convert files without trailing bytes.",
     ["src/lib.rs", "src/serialization/stream.rs"],
     [("end-of-input test behind the main function", "unify, ByteStream::is_empty")],
     GVN, GNOTE + ABSN)
prop("C12", "Input is passed through only if nothing has to change",
     "Input with a supported header is returned byte for byte without being read further exactly if it is Lua 5.1, every field of its format is the output format's, and the Lua 5.1 input settings equal the output settings (signature, stack limit, fields per flush, layout); in every other case it is converted.",
     ["inputs", "configurations"], "every header, output format and settings",
     "The branch is compiled out of the test build, so no test reaches it.",
     ["src/lib.rs", "src/format/mod.rs"],
     [("is_unchanged", "unify")],
     GVN, GNOTE + ABSN)
prop("C13", "The output starts with the requested header",
     "Converted output is the output settings' signature, the version byte 0x51 and the seven format bytes (format, byte order, integer, size_t, instruction and number width, integral flag) of the requested output format, followed by the main function and nothing else, whatever the input's format is.",
     ["inputs", "configurations"], "every output format and signature, both input versions, both byte orders",
     "One test compares the seven bytes for one format.",
     ["src/lib.rs", "src/format/mod.rs", "src/format/endianness.rs", "src/format/width.rs", "src/serialization/writer.rs"],
     [("header writer", "unify, Format::write, From<Endianness|BitWidth|LuaVersion> for u8")],
     GVN, GNOTE + ABSN)
prop("C21", "Lua 5.1 instruction words keep opcode and operands across layouts",
     "A Lua 5.1 instruction word read with the input's instruction layout and written with the output's has the same opcode and the same value in every operand the interpreter reads (registers, register-or-constant operands keep both kind and index, signed jumps are re-biased, unused fields are padding); an opcode above 37 is InvalidOpcode, an operand that the output's field can not hold is ValueTooBigForOperand.",
     ["inputs", "configurations"], "every 64-bit instruction word, for a set of input and output layouts with different orders, positions and widths",
     "The tests encode and decode one sample per operand kind with the default layout.",
     ["src/function/instruction/lua51.rs", "src/function/instruction/macros.rs", "src/function/instruction/interface.rs", "src/function/instruction/settings.rs", "src/function/instruction/operand"],
     [("operand types of each opcode", "lua_instructions! in lua51.rs"), ("get/put of operands by mode", "src/function/instruction/operand"), ("field positions", "OperandLayout::{get, put}, InstructionLayout::from_specification")],
     GVN, GNOTE + " The word is symbolic, the layouts are a fixed set (6 pairs quick, 36 thorough). Size hints of NEWTABLE and non-register values in register operands are not compared.")
WNOTE = " The reader's and writer's calls of the byte-level primitives, the instruction codec, convert and upcast are replaced by symbols here (they have their own checks); counts are symbolic (any number of elements up to 2^40) and, to name a difference exactly, also 0, 1 and 2."
prop("C03", "Nesting of functions is limited",
     "A function nested more than 200 levels below the main function is FunctionsNestedTooDeep; up to 200 levels are accepted; the recursion of reading and writing is bounded by that limit.",
     ["inputs"], "every nesting depth, in both input versions",
     "The tests nest at most one level.",
     ["src/function/mod.rs", "src/lib.rs"],
     [("level counter", "Function::from_byte_stream, Function::get_functions")],
     GVN + "; cycles of the call graph", GNOTE + WNOTE)
prop("C14", "Every field of a Lua 5.1 function is kept",
     "Reading a Lua 5.1 function takes exactly the items of the format in order (source, lines, counts, instructions, constants, functions, lines, locals, upvalues), and the output function has each of them in its place with the same value and number of elements: names, line ranges, parameter and upvalue counts, vararg flags, every constant with its type and value, every nested function, every local variable and upvalue name; instructions, line numbers and stack size are the converted ones. A constant of any other type is InvalidConstantType.",
     ["inputs"], "every number of elements in every list and every value of every item",
     "One test file per version is converted and only checked to run or compared with one recorded output.",
     ["src/function/mod.rs", "src/function/constant.rs", "src/function/local.rs"],
     [("reader of each list", "Function::{from_byte_stream, get_instructions, get_constants, get_functions, get_line_info, get_local_variables, get_upvalues}"), ("writer", "Function::write, strip_instructions")],
     GVN, GNOTE + WNOTE)
prop("C15", "Every field of a Lua 5.0 function is kept or translated",
     "Reading a Lua 5.0 function takes exactly the items of that format in order (source, line, counts, line numbers, locals, upvalues, constants, functions, instructions), and the output function has each in its Lua 5.1 place with the same value; the last line is the first, a non-zero vararg flag additionally gets the bit VARARG_ISVARARG; instructions, line numbers, constants and stack size are those of the translation, which gets the function's own parameter count, vararg flag, constants and stack size. A constant of any other type is InvalidConstantType.",
     ["inputs"], "every number of elements in every list and every value of every item",
     "One Lua 5.0 test file is converted without debug information being compared.",
     ["src/function/mod.rs", "src/function/constant.rs", "src/function/local.rs"],
     [("reader of each list", "Function::{from_byte_stream, get_constants, get_functions, get_line_info, get_local_variables, get_upvalues}"), ("writer", "Function::write, strip_instructions"), ("vararg flag", "Function::from_byte_stream")],
     GVN, GNOTE + WNOTE)
PNOTE = ("Programs are enumerated by shape (opcodes, jump distances, page sizes, number of values); their registers, constants, numbers, lines and declared stack sizes are symbolic, so one obligation covers every value of them. "
         "Programs of other shapes are outside the claim. ")
UPC = ["src/function/upcast.rs", "src/function/builder.rs"]
prop("C22", "Lua 5.0 instruction words become the right Lua 5.1 words",
     "A Lua 5.0 instruction word read with the Lua 5.0 layout becomes the Lua 5.1 word or words with the same meaning in the output layout: the same instruction with the same registers, constants and numbers where Lua 5.1 has it (operands from the Lua 5.0 stack limit upwards are constants), TESTSET for TEST, SETLIST for SETLIST and SETLISTO, the replacements for FORLOOP, TFORLOOP and TFORPREP; an opcode above 34 is InvalidOpcode, an operand that the output's field can not hold is ValueTooBigForOperand.",
     ["inputs", "configurations"], "every 64-bit instruction word of each opcode, for a set of input and output layouts and stack limits",
     "The tests upcast a few instructions built by hand and one compiled file with the default layouts.",
     ["src/function/instruction/lua50.rs", "src/function/instruction/lua51.rs", "src/function/instruction/macros.rs", "src/function/instruction/operand", "src/function/upcast.rs"],
     [("opcode table of Lua 5.0", "lua_instructions! in lua50.rs"), ("constant or register by stack limit", "ModeGet<lua50::Instruction> for ConstantRegister"), ("translation", "upcast")],
     GVN, "The words of the jump instructions have a fixed distance, those of TFORLOOP one variable; SETLIST stands alone (C30 covers constructors). " + GNOTE)
prop("C27", "Every Lua 5.0 instruction is replaced by what does the same in 5.1",
     "Translated to Lua 5.1, every instruction of a Lua 5.0 function yields exactly the instructions specified for it: FORLOOP saves and restores the loop variable, TFORLOOP calls the iterator with copies and moves its results, TFORPREP turns a table into next and the table, a variadic function fills its arg table first; everything else stays as it is. A loop whose jump leads forward is UnexpectedForwardJump.",
     ["programs"], "every register, constant and number operand of every instruction kind, and combinations of them in one function",
     "The tests compare single instructions with one choice of operands.",
     UPC, [("per-opcode translation", "upcast"), ("table of variadic arguments", "upcast, is_variadic")], GVN, PNOTE + GNOTE)
prop("C28", "Every output instruction keeps the source line it was made for",
     "The line information of a translated function has exactly one line per output instruction: that of the instruction it was generated for, for an inserted instruction that of the instruction it is inserted in front of; missing lines are 0 and excess lines are ignored.",
     ["programs", "inputs"], "every line number, and fewer or more lines than instructions",
     "One test looks at the line numbers of two instructions.",
     UPC + ["src/function/convert.rs"], [("line per instruction", "FunctionBuilder::{set_line_number, instruction, insert_extra_instruction, remove_instruction}")], GVN, PNOTE + GNOTE)
prop("C29", "The declared stack size covers every register, or it is an error",
     "The maximum stack size of a translated function is the largest of the declared one and what its output instructions write to; if an instruction needs more registers than the output's stack limit or than the byte of the header can hold, the result is StackTooLarge with the number needed.",
     ["programs", "inputs", "configurations"], "every register operand, declared stack size and stack limit",
     "The tests check one program that is too big.",
     UPC + ["src/function/instruction/macros.rs", "src/function/instruction/lua51.rs"], [("registers written by an instruction", "Instruction::stack_destination"), ("limit", "FunctionBuilder::finalize")], GVN, PNOTE + GNOTE)
prop("C30", "Table constructors keep every value when the page size changes",
     "The output of a table constructor is the same constructor with the pages of the output: every value is computed into the register that the page it belongs to expects, each full page is stored by one SETLIST with the right number and page directly behind its last value, the last page where the input stores it, open constructors stay open, and nothing else of the function changes.",
     ["programs", "configurations"], "constructors of every length, with values of every kind and named fields between them, with any pages of input and output",
     "The tests use constructors of constants only.",
     UPC + ["src/function/convert.rs", "src/function/instruction/operand/mode.rs"], [("pages", "upcast and convert, SETLIST"), ("first value of a page", "FunctionBuilder::value_index"), ("move of registers", "Instruction::move_stack_accesses")], GVN, PNOTE + GNOTE)
prop("C31", "Lua 5.1 instructions stay as they are if the pages do",
     "If the input's and the output's pages are of the same size, instructions, lines and stack size of a Lua 5.1 function are unchanged, whatever they are; every instruction other than SETLIST is unchanged in any case.",
     ["programs", "configurations"], "every list of instructions and lines and every page size; every operand of every instruction",
     "The tests do not convert instructions other than LOADK and SETLIST.",
     ["src/function/convert.rs"], [("early return", "convert")], GVN, GNOTE)
prop("C32", "Jumps keep their targets",
     "In the output every jump leads to the first instruction generated for the instruction it led to in the input (or to a SETLIST inserted in front of it), a loop to the instruction that restores its loop variable, wherever instructions are inserted or removed in between.",
     ["programs"], "every jump distance inside the function, forwards and backwards, over instructions that grow",
     "The tests check a handful of jumps over a fixed number of inserted instructions.",
     UPC, [("distance after insertion", "FunctionBuilder::{jump_destination, adjusted_jump_destination, finalize, insert_jump_target}")], GVN, PNOTE + GNOTE)
prop("C33", "The constants of the input keep their places",
     "The constants of a translated Lua 5.0 function are those of the input at the same indices, followed by exactly those that the replacements need and the input lacks (nil, type, table, next); each loop's temporary has a name that no other constant of the function has; and each generated instruction refers to the constant it needs.",
     ["programs", "inputs"], "constant lists with and without the needed constants, with similar ones, and with the names of temporaries",
     "The tests of the constant manager do not look at translated functions.",
     UPC + ["src/function/constant.rs"], [("search before adding", "ConstantManager::{constant_for_str, constant_nil}"), ("unique names", "ConstantManager::create_unique")], GVN, PNOTE + GNOTE)
prop("C01", "No input makes a conversion panic",
     "Converting any bytes with any output format and settings of usable size returns bytes or an error; it never panics: no arithmetic overflow, out-of-range index or slice, division by zero, unwrap of nothing or explicit panic, whether the input is a valid, truncated or malicious chunk.",
     ["inputs", "configurations"], "every operation that can panic, in every state in which a conversion can reach it",
     "Tests run valid chunks; a panic needs one particular malformed field, distance or count.",
     ["src/lib.rs", "src/format/mod.rs", "src/function", "src/serialization"],
     [("checked arithmetic, indexing and unwraps", "all functions reachable from unify"), ("bounds of the input", "ByteStream::slice"), ("targets of jumps", "FunctionBuilder::{jump_destination, adjusted_jump_destination, finalize}")],
     "abstract interpretation (gated value numbering) of the MIR: each panicking operation's condition is discharged in the states that reach it",
     "Reading, writing, formats, single instruction words and the structure of functions: any input. Translation of instructions: well-formed and malformed programs of the enumerated shapes (all pairs of instructions with extreme jumps, pages and counts) with symbolic operands; the evidence lists how many of the panicking operations reachable from unify the analysis visited. Stack exhaustion by nesting is C13, allocation is not covered. " + GNOTE)
prop("C23", "Exactly the usable instruction layouts are accepted",
     "A layout specification is accepted exactly if each of Opcode, A, B and C occurs once, each with a size within its bounds (Opcode 6 to 31, A 7 to 31, B and C 8 to 31 bits), all together fit 64 bits and B and C are adjacent; otherwise the result is InvalidInstructionLayout. An accepted layout has its fields in the order and with the sizes given, and Bx over B and C.",
     ["configurations"], "every sequence of four operands and every size of each",
     "The tests try a few layouts.",
     ["src/function/instruction/operand/layout.rs"], [("validation", "InstructionLayout::from_specification")], GVN,
     "All 256 operand sequences, sizes symbolic. " + GNOTE)
prop("C24", "A field of a word is read and written exactly",
     "Reading a field of an instruction word returns exactly the bits at its position, writing a value places exactly its bits there and fails with ValueTooBigForOperand if the value needs more bits than the field has; the bias of signed operands is half of their largest value.",
     ["inputs", "configurations"], "every field size and position within 64 bits, every instruction word and every value",
     "The tests look at one size and position.",
     ["src/function/instruction/operand/layout.rs"], [("field access", "OperandLayout::{new, get, put}"), ("bias", "InstructionLayout::from_specification")], GVN,
     "Sizes 1 to 62 at every position; word and value symbolic. " + GNOTE)
prop("C34", "The defaults are those of the stock interpreters",
     "Default settings and format describe the unmodified Lua 5.0 and 5.1 interpreters on this machine: signature ESC Lua, 250 registers, pages of 32 (5.0) and 50 (5.1) values, their instruction layouts, format 0, 32-bit int and instructions, the machine's pointer size and byte order, 64-bit floating point numbers.",
     ["configurations"], "every field of the default values",
     "Tests use the defaults on both sides, so a wrong default cancels out.",
     ["src/function/instruction/settings.rs", "src/lib.rs", "src/format/mod.rs", "src/function/instruction/operand/layout.rs"],
     [("defaults", "Default for Settings, lua50::Settings, lua51::Settings, OutputSettings, Format")], "abstract interpretation of the Default implementations, compared with the constants of the Lua sources", GNOTE)
prop("C02", "A count in the input alone reserves no memory and causes no work",
     "The memory that a conversion asks for at once never exceeds a fixed multiple of what it has read or built already plus a constant, and every loop whose number of repetitions is a count of the input reads part of the input in each of them; a short malicious input that announces billions of elements is refused as too short without allocating for them.",
     ["inputs"], "every count and length in the input",
     "Tests use inputs whose counts are right; a huge announced count only shows in memory use.",
     ["src/function/mod.rs", "src/serialization/stream.rs", "src/serialization/writer.rs", "src/function/upcast.rs", "src/function/convert.rs"],
     [("lists of the function", "Function::{get_instructions, get_constants, get_functions, get_line_info, get_local_variables, get_upvalues}"), ("strings", "ByteStream::string"), ("copies of results", "upcast, TFORLOOP")],
     "abstract interpretation (gated value numbering): size of each request and inductive summary of each loop against the position in the input",
     "Covers every capacity, reserve, resize, vec![x; n] and sized collect that the analyses reach, and every loop of the function reader. Constants: 2^20 elements and 64 per element in memory. Loops of the translation that an operand controls (TFORLOOP) are bounded as well; a LOADNIL split at the ends of pages may add instructions as far as its B field allows and is not part of the claim. " + GNOTE)
prop("C25", "Translated programs of any length behave as the original",
     "For every Lua 5.0 chunk, running the translated chunk in Lua 5.1 has the observable behaviour of the original in Lua 5.0.",
     ["programs", "inputs"], "every program of any length and every run of it",
     "The tests run a handful of scripts.", UPC + ["src/function/convert.rs"], [("translation", "upcast, convert, FunctionBuilder")],
     na="Needs the semantics of both virtual machines and an induction over the builder's list with shifting indices for programs of any length; no sound static argument of this kind is in reach. The decidable parts are C22 and C27 to C33 (instruction by instruction and for all shapes up to a bound).")
prop("C26", "Local variables are visible where the source declares them",
     "The ranges of instructions in which a local variable is visible to the debugger cover the instructions generated for its scope.",
     ["programs"], "every function with local variables whose instructions grow or shrink",
     "No test looks at local variables after a translation.", ["src/function/mod.rs", "src/function/local.rs"], [("copied ranges", "Function::{from_byte_stream, write}")],
     na="lunify copies the ranges unchanged by design (C14 and C15 decide that they are copied), so they do not follow inserted instructions; which ranges would be right for generated code is not specified, and there is no rule a static check could compare with.")
prop("C35", "Conversion takes time proportional to the input",
     "The time of a conversion is bounded by a low polynomial of the size of the input.",
     ["inputs"], "every input", "Tests use small inputs.", UPC + ["src/function/mod.rs"], [("insertion", "FunctionBuilder::insert_extra_instruction")],
     na="A bound on running time needs amortised cost analysis of insertions into lists and of searches through constants and jumps, over programs of any length; C02 decides the part that can be decided from the source (no loop or allocation is driven by a count or operand alone), C03 bounds the recursion.")
