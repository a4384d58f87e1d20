#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements are easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=["v0100/" + f for f in files],
                          mechanism=[dict(name=n, where="v0100/" + w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where="v0100/" + c) for a, b, c in state]
    P.append(d)

# ---------------------------------------------------------------- compiler
p("C01", "Integer constant expressions fold to the C-mandated value",
  "Wherever an integer constant expression is used (static initializer, array bound, enumerator, case label, bit of an immediate operand) the compiler uses exactly the value that the C rules give for the operand types at the target's int width: promotions, signedness, wrap-around, shifts, comparisons, logical and conditional operators, casts and sizeof included. A constant division or remainder that is undefined (zero divisor, or the most negative value by -1) is rejected with a non-zero exit status, and is not rejected otherwise.",
  ["inputs", "programs", "configurations"],
  "all operand values of the int/unsigned (and narrow, via casts) types, all unary/binary/ternary operators, 16-bit and 32-bit int targets",
  "The tests fold a few dozen literal combinations; the operand space is 2^64 per operator and the wrong results sit at sign, width and truncation boundaries.",
  ["smlrc.c"],
  [("evaluation and typing of expressions", "smlrc.c:exprval"), ("division checks", "smlrc.c:divCheckAndCalc"),
   ("shift checks", "smlrc.c:shiftCountCheck"), ("truncation to type", "smlrc.c:simplifyConstExpr")],
  ["data directives in the assembly output", "exit status"])
p("C02", "Floating constants are correctly rounded and folded per IEEE single precision",
  "A decimal floating literal is compiled to the single-precision value nearest to the decimal number written (ties to even), and operators, comparisons and conversions to and from the integer types applied to floating constants at compile time give the IEEE-754 single-precision round-to-nearest result. Overflow never silently yields a finite wrong number.",
  ["inputs"],
  "all single-precision operand pairs for +,-,comparison,negation, conversions to and from int/unsigned; bounded-significand operands for * and /; decimal literals of up to 112 significant digits and the stated exponents",
  "The tests contain a handful of literals; rounding, sticky-bit, subnormal and tie cases occur at specific bit patterns only.",
  ["fp.c", "smlrc.c"],
  [("decimal to float", "fp.c:d2f"), ("add/sub/mul/div/compare/convert", "fp.c"), ("literal scanning", "smlrc.c:GetNumber")],
  ["data directives in the assembly output"])
p("C03", "32-bit x86 code computes the C value of integer and pointer expressions",
  "For every well-defined C expression over char, signed/unsigned char, short, unsigned short, int, unsigned and pointer operands, the code generated for the 32-bit x86 target leaves in every assigned object and returns exactly the value C prescribes, for every value of the operands and every placement of them (locals, parameters, globals, array elements, structure members, through pointers, immediate constants). Side effects happen once, and no other object changes.",
  ["inputs", "programs"],
  "all operand values; programs: expression shapes over all operators up to the stated depth, all operand types and storage placements, all constant values in the constant positions",
  "The tests run programs on a few values; a wrong sign extension, condition code or register clobber shows for particular operand values or operator/placement combinations only.",
  ["smlrc.c", "cgx86.c"],
  [("instruction selection", "cgx86.c:GenExpr0/GenExpr1"), ("typing", "smlrc.c:exprval"), ("promotion", "smlrc.c:promoteType")],
  ["assembly output executed over symbolic register/memory contents"])
p("C04", "16-bit, huge-model and unreal-model code computes the C value of expressions",
  "For every well-defined integer or pointer expression the code generated for the 16-bit tiny/small target (16-bit int), and for the DOS huge and unreal targets (32-bit int, segmented or flat data addressing), leaves in every assigned object and returns exactly the value C prescribes at that target's widths, for all operand values and placements, addressing the right physical memory in the segmented models.",
  ["inputs", "programs", "configurations"],
  "all operand values; expression shapes over all operators to the stated depth; memory models small, huge and unreal",
  "DOS tests run a handful of programs under an emulator; width- and address-dependent faults need particular values and operator combinations.",
  ["smlrc.c", "cgx86.c"],
  [("16/32-bit and segmented code paths", "cgx86.c:GenExpr0/GenExpr1/GenReadIdent/GenWriteIdent")],
  ["assembly output executed over symbolic contents"])
p("C05", "MIPS code computes the C value of expressions",
  "For every well-defined integer, pointer or float expression, and for the statements and calls built from them, the code generated by the MIPS compiler (single-precision operations taken at their IEEE meaning) leaves in every assigned object and returns exactly the value C prescribes for all operand values and placements, and preserves the stack pointer, frame pointer and return address.",
  ["inputs", "programs"],
  "all operand values; expression shapes over all operators to the stated depth, operand types and placements",
  "MIPS tests run a few whole programs in an emulator on fixed inputs.",
  ["smlrc.c", "cgmips.c"],
  [("MIPS instruction selection", "cgmips.c:GenExpr0/GenExpr1"), ("register allocation for temporaries", "cgmips.c")],
  ["assembly output executed over symbolic contents"])
p("C06", "Statements transfer control exactly as C prescribes",
  "For if/else, while, do-while, for, switch (case order, default position, fall-through, duplicate and negative labels, values of all widths), break, continue, goto, return, and the short-circuit and conditional operators, in any nesting, the generated code executes the same sequence of side effects and yields the same result as the C abstract machine, for every input value. A duplicate case label, a misplaced break/continue/case/default or a jump to an undefined label is rejected.",
  ["inputs", "programs"],
  "all values of the controlling inputs; statement shapes and nesting to the stated depth; x86 16/32-bit and MIPS targets",
  "Tests execute specific paths; control flow errors appear for specific combinations of nesting and controlling values.",
  ["smlrc.c", "cgx86.c", "cgmips.c"],
  [("statement parser and label management", "smlrc.c:ParseStatement/ParseBlock"), ("conditional jumps", "cgx86.c:GenJumpIfZero/GenJumpIfNotZero/GenJumpIfEqual")],
  ["assembly output executed over symbolic inputs", "exit status"])
p("C07", "Function calls pass every argument and return with the stack balanced",
  "For every call with any number and mix of char/short/int/unsigned/pointer/float/structure arguments, direct or through a function pointer, fixed or variadic, nested or recursive, the callee sees exactly the argument values the caller passed, the caller sees exactly the returned scalar or structure, and every generated function restores the stack pointer and frame pointer and leaves the caller's locals intact.",
  ["inputs", "programs"],
  "all argument values; signatures up to the stated number of parameters and structure sizes; x86 16/32-bit and MIPS",
  "Tests call a few signatures; mis-sized or mis-ordered argument slots depend on the signature and on the calling context (nested calls, pushed temporaries).",
  ["smlrc.c", "cgx86.c", "cgmips.c"],
  [("argument pushing and stack cleanup", "smlrc.c:exprval/exprUnary"), ("prolog/epilog", "cgx86.c:GenFxnProlog/GenFxnEpilog"), ("MIPS prolog", "cgmips.c")],
  ["assembly output executed over symbolic arguments"])
p("C08", "Object layout and static initializers match the declared types",
  "sizeof, structure member offsets, array element addresses and alignment follow the C layout rules of the target, consistently between declarations, member access, initializers and generated data. Every statically initialized object - nested aggregates, partial and brace-elided initializers, inferred array bounds, strings, addresses of one object or function plus or minus a constant, float and integer conversions - contains exactly the bytes C prescribes, with everything not mentioned zero.",
  ["inputs", "programs"],
  "all initializer values; aggregate shapes up to the stated nesting and member counts, all scalar member types, pack settings; 16/32-bit targets",
  "Tests initialize a few aggregates and look at some members; padding, truncation and partially braced shapes form a large space.",
  ["smlrc.c", "cgx86.c"],
  [("initializers", "smlrc.c:InitVar/InitScalar/InitArray/InitStruct"), ("layout", "smlrc.c:GetDeclSize/GetDeclAlignment")],
  ["data sections of the assembly output"])
p("C09", "Float expressions are lowered to the right runtime operations in the right order",
  "Every run-time float expression, comparison, conversion between float and any integer type, truth test, assignment, argument and return value is compiled into exactly the single-precision operations C prescribes, on the right operands in the right order, with integer operands converted by their own signedness, for all operand bit patterns.",
  ["inputs", "programs"],
  "all operand bit patterns (operations uninterpreted); float/integer operand type combinations for all operators to the stated depth",
  "Tests print results of a few float expressions; operand swaps and conversions with the wrong signedness agree on most sampled values.",
  ["smlrc.c", "cgx86.c"],
  [("calls to FP helpers", "smlrc.c:exprval (FXNFADD etc.)")],
  ["assembly output executed with runtime FP helpers modelled as IEEE operations"])
p("C10", "Character constants and string literals have the bytes written",
  "Every character constant and string literal - any mix of plain characters, simple escapes, octal and hexadecimal escapes, adjacent-literal concatenation, narrow or wide - denotes exactly the code units C prescribes with one terminating zero, and reaches the assembly output intact whatever those characters are. Out-of-range escapes and unterminated literals are rejected.",
  ["inputs", "configurations"],
  "all literals up to the stated number of characters/escapes over all byte values; char signedness and wide-char size options",
  "Tests use a few strings; quoting in the assembly output and escape termination depend on the following characters.",
  ["smlrc.c", "cgx86.c"],
  [("escape decoding", "smlrc.c:GetCharValue/GetString"), ("string emission", "cgx86.c:GenDumpChar / smlrc.c")],
  ["data sections of the assembly output", "value of character constants"])
p("C11", "Integer literals have the right value and type or are rejected",
  "Every decimal, octal or hexadecimal integer literal, with or without suffix, is given the mathematical value written and the type C assigns for the target's int width (an unsuffixed decimal that does not fit int, or any literal that does not fit unsigned, is rejected). Malformed numbers and invalid suffixes are rejected, never silently misread.",
  ["inputs", "configurations"],
  "all digit strings up to the stated length, all suffixes, 16- and 32-bit int",
  "A few literals are sampled; overflow detection has to be right at every boundary for three radices and two widths.",
  ["smlrc.c"],
  [("number scanning", "smlrc.c:GetNumber")],
  ["data directives in the assembly output", "exit status"])
# ---------------------------------------------------------------- preprocessor
p("P01", "#if evaluates integer expressions with C arithmetic",
  "The preprocessor evaluates every #if/#elif expression - literals of any radix and suffix, non-negative character constants, defined, undefined names as 0, all unary, binary, logical and conditional operators with C precedence, short-circuit and intmax/uintmax signedness rules - to the C value, and so selects the right group. Undefined or malformed expressions (evaluated division by zero, overflow, bad tokens) are diagnosed and do not crash or misselect.",
  ["inputs", "programs"],
  "all operand values at the native width of the preprocessor's arithmetic; operator shapes to the stated depth",
  "Tests use #if only with small constants in system headers.",
  ["ucpp/eval.c", "ucpp/arith.c", "ucpp/arith.h"],
  [("expression evaluation", "ucpp/eval.c:eval_expr/eval_opun/eval_opbin"), ("arithmetic", "ucpp/arith.c")],
  ["preprocessed text", "exit status"])
p("P02", "Conditional groups include exactly the selected text",
  "For every nesting of #if/#ifdef/#ifndef/#elif/#else/#endif exactly the text and directives of the selected groups are processed and everything else is skipped without effect, and unbalanced or misordered conditionals are always diagnosed with a message (valid ones never are), and with a non-zero exit status when found in a group that is being processed or left open at the end of the main file. #define/#undef/#ifdef agree at every point with the definitions in force.",
  ["inputs", "programs", "histories"],
  "all truth values of the conditions; nesting and directive sequences to the stated length",
  "Tests exercise header guards only; the state space of nested skipped groups is exponential.",
  ["ucpp/cpp.c"],
  [("conditional stack", "ucpp/cpp.c:handle_cpp/handle_if/handle_else/handle_endif")],
  ["preprocessed text", "exit status"])
p("P03", "Macro expansion follows the C standard's algorithm",
  "Object-like, function-like and variadic macros, with arguments fully expanded except next to # and ##, stringizing, pasting, rescanning with later text, and no re-expansion of a name inside its own expansion, expand to exactly the token sequence the C standard prescribes (where the standard leaves the result unspecified or undefined, only memory safety is claimed). Wrong argument counts, invalid redefinitions and unterminated invocations are diagnosed.",
  ["programs", "inputs"],
  "sets of macro definitions and invocations up to the stated number of tokens, drawn from all token shapes",
  "Tests use a handful of simple macros; interaction of rescanning, nesting, # and ## is combinatorial.",
  ["ucpp/macro.c", "ucpp/nhash.c"],
  [("substitution", "ucpp/macro.c:substitute_macro"), ("definition", "ucpp/macro.c:handle_define")],
  ["preprocessed text"])
p("P04", "Comments, line splices and literals are tokenized as C prescribes",
  "The preprocessor removes comments (each acting as one space), joins spliced lines, and passes every other token of the input - numbers, names, operators, string and character literals with any contents - through unchanged, in order and without merging or splitting tokens, with line markers that give each token its original line number (a token next to a splice may count for any of the lines it spans). Malformed numbers such as 1e+ and lines that begin with # are outside this property. Unterminated comments or literals are diagnosed.",
  ["inputs"],
  "all short inputs over the stated alphabet of special characters",
  "Tests feed ordinary source code; odd juxtapositions of quotes, slashes, stars, backslashes and newlines never occur in it.",
  ["ucpp/lexer.c", "ucpp/cpp.c"],
  [("tokenizer state machine", "ucpp/lexer.c:read_token"), ("output", "ucpp/cpp.c:print_token")],
  ["preprocessed text"])
# ---------------------------------------------------------------- linker
p("L01", "Every relocation resolves to the symbol's final address",
  "For every object-file relocation kind the compiler and assembler produce (absolute and PC-relative, 16- and 32-bit, against global, local and section symbols, with any addend) the linked image contains, in every output format, the field value that makes the code or data refer to the intended target at its run-time address, and nothing outside the relocated fields is altered. In formats relocated at load time the emitted relocation records are exactly those needed for the image to stay correct at any load address.",
  ["inputs", "programs", "configurations"],
  "all addend values and symbol offsets, numbers of objects/sections/relocations to the stated bound, every output format",
  "Tests link programs whose relocations have a few typical addends and addresses; carry, sign, range and format-specific base errors depend on values.",
  ["smlrl.c"],
  [("relocation", "smlrl.c:Relocate/RelocateRel32"), ("format writers", "smlrl.c:RwFlat/RwElf/RwPe/RwMach/RwAout/RwDosExe")],
  ["linked image"])
p("L02", "Symbol resolution picks exactly the right definitions and archive members",
  "Each undefined reference is bound to the first global definition of that name among the linked objects and archive members in command-line order; objects and archive members are linked in exactly when they (transitively) resolve an otherwise undefined symbol, regardless of order. An undefined symbol, a duplicate definition in the linked set or a missing entry point makes the link fail with a message, non-zero status and no output; local symbols never satisfy or conflict with global ones.",
  ["programs", "configurations"],
  "all definition/reference patterns over the stated number of objects, archive members and names",
  "Tests link against one library in one order; the resolution graph space is not sampled.",
  ["smlrl.c"],
  [("symbol search", "smlrl.c:FindAllSymbols/FindSymbolByName/DeferSymbol"), ("duplicates", "smlrl.c:CheckDuplicates")],
  ["exit status", "linked image"])
p("L03", "Sections are merged in the documented order with consistent boundary symbols",
  "Input sections of the same name are concatenated in input order with each piece's alignment respected and its bytes intact, sections of the image do not overlap, are ordered code, read-only data, data, bss, and the linker-defined start/stop and stack symbols equal the true bounds of the regions they name. Zero-initialized sections read as zero at run time.",
  ["inputs", "programs", "configurations"],
  "all section sizes and alignments within the stated bounds, section sets to the stated count, every output format",
  "Only a few fixed section layouts occur in tests.",
  ["smlrl.c"],
  [("section layout", "smlrl.c:FindAllSections/Pass"), ("start/stop symbols", "smlrl.c:FindSymbolAddress")],
  ["linked image", "map file"])
p("L04", "Executable headers describe exactly the image that was written",
  "For every output format (flat, DOS MZ, ELF, PE, Mach-O, a.out for DPMI) the sizes, offsets, addresses, permissions, entry point, stack and relocation-table fields in the headers are mutually consistent and describe exactly the bytes in the file, so that a loader following the format's specification maps every section at the address it was linked for and starts at the entry point. An image that does not fit the format's limits is rejected rather than written truncated.",
  ["inputs", "configurations"],
  "all section sizes (including 0, page-boundary and limit values), stack sizes and origins within the stated bounds",
  "Tests run the resulting files of a few sizes; header fields that loaders only use for some sizes are never exercised.",
  ["smlrl.c", "demz.c"],
  [("format writers", "smlrl.c:RwFlat/RwElf/RwPe/RwMach/RwAout/RwDosExe"), ("MZ stub removal", "demz.c:main")],
  ["linked image"])
# ---------------------------------------------------------------- driver, tools
p("D01", "The driver runs the right stages with every option and reports every failure",
  "For every combination of inputs and options the driver runs preprocess, compile, assemble, link or archive for exactly the right files in order, passes each file name and option through to the right tool as a single argument even if it contains spaces, quotes or other shell characters (Unix hosts), and stops at the first stage that fails. On failure it exits with a non-zero status and leaves no partial output or temporary file (object files completed for earlier inputs may stay); on success it leaves exactly the requested output and no temporaries.",
  ["inputs", "configurations", "fault_sequences"],
  "all file lists and option combinations to the stated length; every stage succeeding or failing; file names over the stated alphabet",
  "Tests only run successful builds with simple names.",
  ["smlrcc.c"],
  [("command construction", "smlrcc.c:Compile/Link/AddOption"), ("escaping", "smlrcc.c:Escape"), ("cleanup", "smlrcc.c:error/DeleteFiles")],
  ["commands executed", "files left behind", "exit status"])
p("D02", "Archives round-trip through the driver and the linker",
  "An archive created from any object files contains every member unchanged, with correct headers, name (short or long), size and even-byte padding, and the linker finds in it exactly those members with exactly those contents.",
  ["inputs"],
  "all member sizes, contents and name lengths within the stated bounds",
  "The only archive the tests use is the C library.",
  ["smlrcc.c", "smlrl.c"],
  [("archive writer", "smlrcc.c:Archive"), ("archive reader", "smlrl.c:loadMeta")],
  ["archive bytes"])
p("N01", "Assembly conversion to FASM keeps every line in its section in order",
  "The NASM-to-FASM converter outputs, for any sequence of section switches and lines, every source line except comment-only ones exactly once, grouped by section with the relative order within each section preserved, sections in the documented order, and with each NASM-specific directive replaced by the equivalent FASM one and everything else byte-for-byte unchanged (except the exact mix of blanks and tabs in front of a line). Inputs beyond its limits are rejected rather than silently truncated.",
  ["inputs", "programs"],
  "all sequences of section switches/lines to the stated count over section names and directive kinds",
  "Tests convert ordinary compiler output with few sections.",
  ["n2f.c"],
  [("section bookkeeping", "n2f.c:addSection/main"), ("directive replacement", "n2f.c")],
  ["output text", "exit status"])
# ---------------------------------------------------------------- C library
p("S01", "Memory and string functions behave as the C standard says",
  "For all contents, lengths, alignments, embedded bytes with the high bit set and (where allowed) overlaps, the mem* and str* functions return what the C standard prescribes, write exactly the bytes it prescribes and read or write nothing outside the objects it permits them to touch.",
  ["inputs"],
  "all byte contents of buffers up to the stated size, all lengths and offsets",
  "Tests check a few strings; signed-char comparisons, zero lengths and overlap directions are value-dependent.",
  ["srclib/memcpy.c", "srclib/memmove.c", "srclib/memcmp.c", "srclib/memset.c", "srclib/memchr.c", "srclib/strcmp.c", "srclib/strncmp.c", "srclib/strcpy.c", "srclib/strncpy.c", "srclib/strcat.c", "srclib/strncat.c", "srclib/strchr.c", "srclib/strrchr.c", "srclib/strstr.c", "srclib/strspn.c", "srclib/strcspn.c", "srclib/strpbrk.c", "srclib/strtok.c", "srclib/strlen.c"],
  [("the functions", "srclib/str*.c, srclib/mem*.c")], ["return values and memory"])
p("S02", "Text-to-integer conversion is exact, saturating and position-correct",
  "strtol, strtoul, atoi and atol accept exactly the subject sequences the C standard defines for every base (0, 2-36), with white space, sign and prefix handling, return the exact value or the saturated limit with ERANGE, and set the end pointer to the first unconverted character (the start when there is no conversion).",
  ["inputs"],
  "all strings up to the stated length, all bases",
  "A few strings are sampled; overflow boundaries differ per base.",
  ["srclib/strtol.c", "srclib/strtoul.c", "srclib/atoi.c", "srclib/atol.c"],
  [("conversion loops", "srclib/strtol.c, srclib/strtoul.c")], ["return value, end pointer, errno"])
p("S03", "The printf family formats exactly as C prescribes and never overruns",
  "For every supported conversion with any flags, width, precision and length modifier, and every argument value, the printf family outputs exactly the characters C prescribes and returns their count. snprintf never writes more than the given size, always terminates when the size is non-zero, and returns the length the full output would have had.",
  ["inputs"],
  "all argument values; all flag combinations, widths/precisions in the stated ranges; all buffer sizes in the stated range",
  "Tests compare a few formats; flag/width/precision/sign interactions are combinatorial and value-dependent.",
  ["srclib/doprint.c", "srclib/snprintf.c", "srclib/sprintf.c", "srclib/vsprintf.c", "srclib/vsnprint.c"],
  [("format engine", "srclib/doprint.c:__doprint")], ["output characters and return value"])
p("S04", "The scanf family matches, converts and stops exactly as C prescribes",
  "For every supported directive with any width, suppression and length modifier, and every input text, the scanf family consumes exactly the matching input, stores exactly the converted values, leaves the first unmatched character unread and returns the number of assignments (or EOF on input failure before the first conversion).",
  ["inputs"],
  "all input texts up to the stated length for each directive kind",
  "Tests cover a few well-formed inputs.",
  ["srclib/doscan.c", "srclib/sscanf.c"],
  [("scan engine", "srclib/doscan.c:__doscan")], ["stored values, return value, unread input"])
p("S05", "The heap never hands out overlapping, misaligned or out-of-range blocks",
  "For every history of malloc, calloc, realloc and free, each live block is suitably aligned, lies wholly inside the heap, overlaps no other live block or allocator bookkeeping, keeps its contents until freed (realloc preserving the common prefix, calloc zeroing, size overflow refused), and freed space becomes available again by coalescing. A request is refused only when no free region can hold it.",
  ["histories", "inputs"],
  "all request sizes; histories to the stated length from any reachable heap shape within the stated arena",
  "Tests allocate a little; allocator corruption needs particular size/order combinations.",
  ["srclib/malloc.c", "srclib/free.c", "srclib/realloc.c", "srclib/calloc.c", "srclib/mm.h"],
  [("boundary-tag allocator", "srclib/malloc.c, srclib/free.c, srclib/realloc.c")], ["returned pointers, heap memory"])
p("S06", "qsort sorts any array and bsearch finds any present key",
  "For every array contents, element count and size, and every consistent comparison, qsort leaves a sorted permutation of the elements, touches nothing outside the array and terminates; bsearch on a sorted array returns a matching element exactly when one exists.",
  ["inputs"],
  "all element values; counts and sizes to the stated bounds",
  "A few arrays are tested; duplicates and partition boundaries are value-dependent.",
  ["srclib/qsort.c", "srclib/bsearch.c"], [("sort", "srclib/qsort.c"), ("search", "srclib/bsearch.c")], ["array contents, returned pointer"])
p("S07", "Calendar conversion is exact and mutually inverse over the whole time range",
  "gmtime/localtime give the proleptic Gregorian date, time, weekday and yearday of every time value in the supported range, through the year 2105, and NULL past it. mktime converts valid calendar fields exactly back and returns -1 for fields that denote no date or a time that is not representable. strftime and asctime print those fields as C prescribes.",
  ["inputs"],
  "all 32-bit time values; all field values in the stated ranges",
  "Tests check at most today's date; leap-year and range boundaries are rare.",
  ["srclib/brktime.c", "srclib/bldtime.c", "srclib/mktime.c", "srclib/gmtime.c", "srclib/strftime.c", "srclib/asctime.c"],
  [("break down", "srclib/brktime.c"), ("build", "srclib/bldtime.c")], ["struct tm fields, time value, text"])
p("S08", "Buffered streams deliver every byte in order under any operation sequence",
  "For every sequence of reads, writes, ungetc, seeks, flushes and closes on a stream, with any buffer size or mode and any short or failing low-level reads and writes, the bytes the program reads and the bytes that reach the file are those of an unbuffered file at the same positions; end-of-file and error indicators, ftell and return counts are as C prescribes. After a failed write only its report (return value and error indicator) is promised; ungetc is promised right after a successful read, and text-mode seeks to the start, the current position and the end.",
  ["histories", "inputs", "fault_sequences"],
  "operation sequences to the stated length, all byte values, low-level transfer counts and failures",
  "Tests write some output; interleavings of buffered reads, writes, pushback, seeks and short transfers are not explored.",
  ["srclib/fread.c", "srclib/fwrite.c", "srclib/fillbuf.c", "srclib/flushbuf.c", "srclib/fseek.c", "srclib/fputc.c", "srclib/fgetc.c", "srclib/ungetc.c", "srclib/fflush.c", "srclib/fclose.c", "srclib/fopen.c"],
  [("buffer management", "srclib/fillbuf.c, srclib/flushbuf.c, srclib/fseek.c")], ["bytes read, file contents, indicators"])
p("S09", "Bit-level floating-point library functions are exact",
  "frexp, ldexp, modf, the float/double bit conversions used by printf/scanf, and the decimal text conversions built on them return the exact results C prescribes for every finite bit pattern, and classify zeros, subnormals, infinities and NaNs correctly.",
  ["inputs"],
  "all float bit patterns; exponent arguments in the full int range",
  "A few values are sampled; subnormal and exponent-limit behaviour is rare.",
  ["srclib/frexp.c", "srclib/ldexp.c", "srclib/modf.c", "srclib/cvtdf.c", "srclib/cvtfd.c", "srclib/strtof.c"],
  [("bit manipulation", "srclib/frexp.c, srclib/ldexp.c, srclib/cvtfd.c, srclib/cvtdf.c")], ["returned values"])
p("S10", "Character classification and case mapping match the C locale",
  "For EOF and every unsigned char value, each is* function is true exactly for the characters of the C locale's class and toupper/tolower map exactly the letters.",
  ["inputs"], "every argument in -1..255", "Tests check a few letters.",
  ["srclib/ctype.c", "srclib/isalpha.c", "srclib/toupper.c", "srclib/tolower.c"],
  [("class table", "srclib/ctype.c")], ["return values"])
p("S11", "32-bit arithmetic on 16-bit halves is exact",
  "The helper routines that provide 32-bit long addition, subtraction, comparison, sign test and conversion to and from int and unsigned in the 16-bit library, and abs and div, give the exact two's-complement result for every operand.",
  ["inputs"], "all 32-bit operands", "A few values are exercised indirectly through time functions.",
  ["srclib/lngadd.c", "srclib/lngsub.c", "srclib/lngeq.c", "srclib/lngltz.c", "srclib/lngsl.c", "srclib/lngul.c", "srclib/lngts.c", "srclib/lngtu.c", "srclib/lngfs.c", "srclib/lngfu.c"],
  [("half-word arithmetic", "srclib/lng*.c")], ["result halves"])
p("S12", "Program start-up and environment functions parse their text faithfully",
  "Command-line text is split into argv exactly once per documented quoting rules with every argument preserved, getenv returns exactly the value of the named variable (and only of that name), and exit (and returning from main) runs every registered function exactly once in reverse order - one registered while exiting runs next - and then closes all streams; _Exit does neither. At least 32 functions can be registered.",
  ["inputs", "histories"], "all command lines and environment blocks up to the stated length; registration histories to the stated length",
  "Tests run programs without unusual arguments.",
  ["srclib/c0.c", "srclib/getenv.c", "srclib/exit.c", "srclib/atexit.c"],
  [("argument splitting", "srclib/c0.c"), ("lookup", "srclib/getenv.c")], ["argc/argv, returned pointers, handler calls"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
