WT = 'The test programs sample a handful of constants and expressions; '
# ---------------------------------------------------------------- compiler
prop('C01', 'Integer constant expressions are folded to their C values',
 'Whenever the compiler evaluates an integer expression at compile time, the value it uses is the value C defines for that expression at the width and signedness of the target\'s int (16 or 32 bits), for every operator: arithmetic, shifts by amounts below the width, bitwise, comparisons, logical, comma, conditional and casts to the integer types. A division or remainder whose divisor is zero, or that overflows, is never silently folded, and an operand whose value is not constant makes the whole not constant.',
 ['programs', 'inputs'], 'all operand values, all operators, all operand shapes (constant or not), both int widths',
 WT + 'the values and widths at which folding differs from C (sign boundaries, most negative number, signed/unsigned mixes, 16-bit wraparound) are 2^64 per operator and not sampled.',
 ['smlrc.c'], [('recursive evaluator of the expression stack', 'smlrc.c:exprval'), ('16-bit wraparound', 'smlrc.c:truncInt')], observe=['generated assembly', 'array sizes, case labels and static initializers'],
 note='All obligations of the evaluator body discharged for every operator, operand value and type, recursion replaced by its contract; 57 units.')
prop('C02', 'Floating constants: decimal conversion and folding are correctly rounded',
 'A decimal floating constant yields the single precision number nearest to it (ties to even), infinity when it is too large. Compile-time float addition, subtraction, multiplication, division, negation, comparison and the conversions between integers and float give exactly the IEEE single precision result.',
 ['programs', 'inputs'], 'all float operand values and all decimal digit strings',
 WT + 'rounding errors show only at ties and near range limits.',
 ['fp.c', 'smlrc.c'], [('single precision arithmetic on bit patterns', 'fp.c:fadd, fsub, fmul, fdiv, fcmp, i2f, u2f, f2i, f2u'), ('decimal to binary', 'fp.c:d2f'), ('folding', 'smlrc.c:exprval')],
 note='Folding and every float primitive proved for all operand values; the decimal conversion\'s digit-chain multiply and divide proved for all chain lengths, its driver only executed (bounded: all 1 to 4 digit constants, exact midpoints).')
prop('C03', 'Every number, character and operator token is read with its C value',
 'Every integer constant (decimal, octal, hexadecimal, with suffixes) the compiler accepts has the value and type C gives it for the target\'s int width (16 or 32 bits); one that fits no supported type, has an invalid digit or, for 16-bit targets, a long suffix is rejected, and none that is valid is. A floating constant is handed to the conversion with exactly the digits and power of ten written. Characters and escape sequences (octal, hexadecimal, simple) in character and string constants have their C value for the signedness and width of the character type, and invalid ones are rejected. Punctuators are read by the longest match.',
 ['programs', 'inputs'], 'all spellings of literals, any length, and all punctuators',
 WT + 'limits and rarely used escapes and suffix combinations are not.',
 ['smlrc.c'], [('number reader', 'smlrc.c:GetNumber'), ('escape sequences', 'smlrc.c:GetCharValue'), ('tokens', 'smlrc.c:GetTokenInner')], note='GetNumber, GetCharValue and GetTokenInner proved for all inputs; text skipped by #if is not judged.')
prop('C04', 'Object sizes, alignment and structure layout obey C',
 'For every declared type the compiler\'s size is the element size times the element count for arrays, and for structures and unions members do not overlap, are each aligned for their type, and the total is a multiple of the alignment; a type whose size overflows is rejected.',
 ['programs'], 'all type declarations', WT + 'declaration shapes are unbounded.',
 ['smlrc.c'], [('size and alignment over the type stack', 'smlrc.c:GetDeclSize, GetDeclAlignment, ParseDecl')],
 na='the type stack walk (GetDeclSize) is within reach, but the layout is computed inside ParseDecl and ParseStruct, interleaved with the parsing of an unbounded declaration grammar; no contract was finished for it, so nothing is claimed')
prop('C05', 'Generated x86 code computes each expression\'s value',
 'For every expression of integers, pointers and variables, the 8086/386 instruction sequence emitted for it leaves in the result register, and stores in memory, exactly what the C expression means, and no value still needed is overwritten.',
 ['programs', 'inputs'], 'all expressions and operand values, all three memory models', WT + 'instruction selection has hundreds of operand-shape combinations, most never executed by a test.',
 ['cgx86.c'], [('instruction selection', 'cgx86.c:GenExpr1, GenFuse'), ('instruction emission', 'cgx86.c:GenPrintInstr2Operands')],
 na='needs a semantics of the emitted 8086/386 text and an inductive relation between the expression stack and the instruction history over mutually recursive generator functions; CBMC has no inductive predicates over such histories; constant folding (C01, C02) and table handling (C08) are claimed instead')
prop('C06', 'Generated MIPS code computes each expression\'s value',
 'For every expression of integers, pointers and variables, the MIPS instruction sequence emitted for it leaves in the result register, and stores in memory, exactly what the C expression means.',
 ['programs', 'inputs'], 'all expressions and operand values', 'No MIPS test is executed at all.',
 ['cgmips.c'], [('instruction selection', 'cgmips.c:GenExpr0')],
 na='as C05, for MIPS')
prop('C07', 'Operators group by C precedence and associativity',
 'Every expression is parsed into the operand and operator order that C\'s grammar prescribes, including unary, postfix, cast, conditional and assignment operators.',
 ['programs'], 'all token sequences', WT + 'pairs of operators are not covered exhaustively.',
 ['smlrc.c'], [('operator precedence parser', 'smlrc.c:expr, exprUnary, fallthrough helpers')],
 na='the parser appends to the expression stack through mutual recursion over an unbounded grammar; relating the result to a parse tree needs inductive predicates over trees, which CBMC contracts cannot express; for #if expressions, evaluated while parsing, it is decided as P02')
prop('C08', 'Exhausted compiler tables are reported, never overrun',
 'The compiler\'s expression stack, operator stack, type stack, identifier and macro tables, case list, #if nesting stack and the buffers for the current identifier, file name string and pending macro expansion are never read or written out of bounds: an entry that does not fit ends compilation with a diagnostic, one that fits is accepted, and adding, inserting or removing an entry leaves every other entry as it was.',
 ['programs'], 'all fill levels, positions and entries', 'Tests do not reach the limits.',
 ['smlrc.c'], [('stacks', 'smlrc.c:push2, ins2, del, pop2, pushop2, popop2, PushSyntax2, InsertSyntax2, DeleteSyntax'), ('name tables', 'smlrc.c:AddIdent, AddMacroIdent, AddMacroExpansionChar'), ('buffers', 'smlrc.c:GetIdent, GetString, Reserve4Expansion')], note='Table sizes reduced through their own configuration macros.')
prop('C09', 'Every local object gets its own aligned place in the frame',
 'Each stack allocation for a local object lies directly below everything allocated and not yet released, is word aligned, stays within what the target\'s memory model can address and within the frame reserved for the function, and is refused with a diagnostic exactly when it does not fit.',
 ['programs', 'histories'], 'all sizes and frame states, 16- and 32-bit x86 models', 'Frames near the limit of the memory models are not tested.',
 ['smlrc.c', 'cgx86.c'], [('frame allocation', 'smlrc.c:AllocLocal'), ('limits', 'cgx86.c:GenMaxLocalsSize')], note='The release of locals at block ends (ParseStatement) is not under contract.')
# ---------------------------------------------------------------- library
prop('S01', 'Memory and string functions meet the C standard',
 'In programs built for a 32-bit target, every call of the library\'s memory and string functions (mem*, str* except the tokenizer, error text and number conversions) whose arguments obey the C standard\'s requirements returns the value and leaves memory in exactly the state the standard prescribes, and touches no byte outside the objects it may access.',
 ['inputs'], 'all buffer sizes, contents, alignments and overlaps', 'Tests use a few short strings; the properties quantify over all lengths and contents.',
 ['srclib/memcpy.c', 'srclib/memmove.c', 'srclib/memset.c', 'srclib/memchr.c', 'srclib/memcmp.c', 'srclib/strlen.c', 'srclib/strcmp.c', 'srclib/strstr.c'], [('memory and string functions', 'srclib/mem*.c, srclib/str*.c')],
 note='Loop contracts and ghost witnesses, all lengths, all contents.')
prop('S02', 'The heap never hands out overlapping or corrupted memory',
 'For every history of allocation, reallocation and release calls, each block returned is inside the heap, suitably aligned, at least as large as requested and disjoint from every other live block, its contents are preserved by reallocation up to the smaller size, and released memory is merged with free neighbours and becomes available again.',
 ['histories', 'inputs'], 'all call histories and sizes', 'Tests make a few allocations; histories are unbounded.',
 ['srclib/malloc.c', 'srclib/free.c', 'srclib/realloc.c', 'srclib/calloc.c'], [('boundary-tag allocator', 'srclib/malloc.c:malloc'), ('release and merging', 'srclib/free.c:free'), ('resizing', 'srclib/realloc.c:realloc')],
 note='malloc, free, realloc, the heap set-up and __sbrk proved for Linux and DPMI; calloc only executed (bounded).')
prop('S03', 'Text to integer conversions meet the C standard',
 'strtol and strtoul return the value of the longest valid prefix in the given base, clamp and set the range error exactly when the value does not fit, and report the end of the prefix correctly; atoi returns the value of the decimal prefix when it fits.',
 ['inputs'], 'all strings and bases', 'Overflow boundaries in each base are not tested.',
 ['srclib/strtol.c', 'srclib/strtoul.c', 'srclib/atoi.c', 'srclib/atol.c'], [('conversion loops', 'srclib/strtol.c:strtol, srclib/strtoul.c:strtoul')])
prop('S04', 'Formatted output follows the printf rules',
 'For every integer, character, string and pointer conversion the printf family emits exactly the characters that the C standard prescribes for the value, flags, width and precision, and returns their count.',
 ['inputs'], 'all values, flags, widths, precisions', 'Flag and boundary-value combinations are not enumerated by tests.',
 ['srclib/doprint.c'], [('format interpreter', 'srclib/doprint.c:__doprint')])
prop('S05', 'Sorting and searching library functions are correct',
 'qsort leaves the array a permutation of its input in ascending order for every consistent comparison function, and bsearch finds a matching element exactly when a sorted array holds one; neither touches memory outside the array.',
 ['inputs'], 'all arrays, element sizes and comparison functions', 'Tests sort a few arrays.',
 ['srclib/qsort.c', 'srclib/bsearch.c'], [('sorting', 'srclib/qsort.c:qsort'), ('searching', 'srclib/bsearch.c:bsearch')], note='Heap sort proved for all arrays of 1, 4 and 12 byte elements (heap invariants, root lemma by induction); exchange for all sizes; bsearch for 1, 4, 8.')
prop('S06', 'Calendar conversions are exact',
 'For every time from 1970 through 2105, gmtime yields the Gregorian date, time of day, weekday and day of the year, and building a time from broken-down fields is its exact inverse (weekday and day of the year filled in); times outside and fields that name no date are rejected. localtime and mktime differ from these by exactly the system\'s zone offset, keeping the error value. strftime writes, for every conversion and every field value, the text the C standard prescribes in the C locale (no zone known), never beyond the limit given, and returns its length or 0 when it does not fit.',
 ['inputs'], 'all time values, field values, conversions and formats', 'Leap-year, week-number and range boundaries are sampled at best.',
 ['srclib/brktime.c', 'srclib/bldtime.c', 'srclib/time1.c', 'srclib/localtim.c', 'srclib/mktime.c', 'srclib/strftime.c'], [('calendar arithmetic', 'srclib/brktime.c:__breaktime, srclib/bldtime.c:__buildtime'), ('formatting', 'srclib/strftime.c:doformat, helper, strftime')],
 note='All times and fields; strftime per conversion, its scanner for all formats.')
prop('S07', 'Exact floating-point library functions are exact',
 'Splitting, scaling, rounding and width conversion of floating-point numbers in the library (frexp, ldexp, modf, floor, ceil, trunc, round, fabs, single/double conversion) give exactly the mathematically defined result.',
 ['inputs'], 'all single precision values', 'Denormals, infinities and halfway cases are not sampled.',
 ['srclib/frexp.c', 'srclib/ldexp.c', 'srclib/modf.c', 'srclib/cvtdf.c', 'srclib/cvtfd.c'], [('bit manipulation', 'srclib/frexp.c etc.')],
 na='these functions are x87 inline assembly (or the unions around it); the assembly is text to the verifier, so nothing of the real code would be verified')
prop('S08', 'Software long arithmetic for 16-bit targets is exact',
 'The library routines that perform 32-bit arithmetic and conversions on 16-bit targets compute the exact result modulo 2^32, for all operands.',
 ['inputs'], 'all operands', 'Operands are sampled.', ['srclib/lngadd.c', 'srclib/lngsub.c', 'srclib/lngul.c'], [('limb arithmetic', 'srclib/lng*.c')])
prop('S09', 'Buffered stream I/O preserves the byte sequence',
 'Whatever the buffering and interleaving of reads, writes, push-backs and seeks, the bytes a program reads are exactly those of the file and the bytes it wrote reach the file once, in order, with end-of-file and errors reported.',
 ['histories', 'fault_sequences'], 'all operation histories', 'Histories are unbounded.', ['srclib/fgetc.c', 'srclib/fputc.c', 'srclib/fread.c', 'srclib/fwrite.c', 'srclib/fseek.c', 'srclib/fillbuf.c', 'srclib/flushbuf.c'], [('buffer fill and flush', 'srclib/fillbuf.c, srclib/flushbuf.c')],
 na='the system calls under the stream functions are inline assembly and the property is about whole histories of nine mutually dependent functions; no invariant was brought to a proof, so nothing is claimed')
prop('S10', 'Character classification and small integer helpers meet the C standard',
 'The is* and to* functions classify and convert every character value and EOF as the C locale prescribes; abs, labs, div and ldiv return the exact quotient, remainder or magnitude for every representable result, on 16- and 32-bit targets.',
 ['inputs'], 'all argument values', 'Tests sample a few characters and quotients.', ['srclib/ctype.c', 'srclib/div.c', 'srclib/ldiv.c'], [('classification', 'srclib/is*.c'), ('division', 'srclib/div.c')],
 note='All argument values.')
# ---------------------------------------------------------------- linker
prop('L01', 'Relocation yields exactly the intended addresses',
 'When the linker copies a section into the output, each of its relocation records is applied exactly once, at the field it names: an absolute field receives its addend plus the symbol\'s final address, a relative one additionally minus the field\'s own address, modulo the field\'s width (16 or 32 bits). A relocation type or symbol kind the linker does not support is rejected, and every other byte of the section is copied unchanged and in order.',
 ['inputs'], 'all relocation records, addresses, field contents, section sizes', 'Test programs reach few fields that straddle the copy buffer, and rare kinds not at all.', ['smlrl.c'], [('relocation', 'smlrl.c:Relocate'), ('streaming', 'smlrl.c:RelocateAndWriteSection')],
 note='Both functions proved for all tables and section sizes below 1 GB.')
prop('L02', 'Symbol references resolve to the right definition',
 'Every symbolic reference is resolved to the unique definition the linking rules select, and missing or duplicate definitions are reported.',
 ['inputs', 'configurations'], 'all sets of object files', 'Link configurations are unbounded.', ['smlrl.c'], [('symbol lookup', 'smlrl.c:FindSymbol*')],
 na='the symbol sets are linked lists and archives of unbounded shape built while files are read; no contract was finished for it, so nothing is claimed')
prop('L03', 'Output image layout is well formed',
 'Sections are placed without overlap at the alignment they need and the headers of every output format describe exactly the bytes written.',
 ['inputs', 'configurations'], 'all section sizes and formats', 'Layout edge sizes are not sampled.', ['smlrl.c'], [('layout', 'smlrl.c:Pass, AlignTo')],
 na='layout and headers are written by one 900-line function (Pass) over eight output formats; no contract was finished for it, so nothing is claimed')
# ---------------------------------------------------------------- preprocessor
prop('P01', 'Preprocessor arithmetic is exact',
 'Every arithmetic, bitwise, shift, comparison and conversion operation on the preprocessor\'s 64-bit integer type gives the exact C result; division by zero and unrepresentable quotients (and their remainders) are reported as errors; integer constants in #if are read with their value, and those that do not fit 64 bits rejected.',
 ['inputs'], 'all operand values', 'Operands are sampled.', ['ucpp/arith.c'], [('target arithmetic', 'ucpp/arith.c')])
prop('P02', '#if expressions are evaluated by the C rules',
 'For every #if expression the branch selected is the one C\'s precedence, associativity, signedness and short-circuit rules determine.',
 ['programs'], 'all expressions', 'Expression shapes are unbounded.', ['ucpp/eval.c'], [('evaluator', 'ucpp/eval.c:eval_shrd, eval_expr')])
prop('P03', 'Macro and include tables behave as maps',
 'After any history of definitions and undefinitions, looking a name up yields exactly its latest definition, or nothing if it has none.',
 ['histories'], 'all histories', 'Histories are unbounded.', ['ucpp/nhash.c'], [('hash tree', 'ucpp/nhash.c')],
 na='hash trees with heap-allocated collision lists need separation-logic style inductive predicates, which CBMC contracts cannot express')
# ---------------------------------------------------------------- tools
prop('D01', 'File names reach the tools unchanged',
 'Whatever bytes a file name contains, the compiler driver passes it to every tool it runs as exactly that one argument.',
 ['inputs'], 'all names', 'Tests use plain names.', ['smlrcc.c'], [('escaping', 'smlrcc.c:EscapingNeeded, Escape')])
# ---------------------------------------------------------------- never claimed
prop('A01', 'Whole-program compilation preserves C semantics',
 'Every valid program in the supported subset behaves, once compiled and linked, as the C standard says.',
 ['programs', 'inputs'], 'all programs', 'Programs are unbounded.', ['smlrc.c', 'cgx86.c', 'smlrl.c'], [('the whole tool chain', 'smlrc.c:main')],
 na='a contract for the composition of parser, code generator, assembler and linker (with a semantics of C and of the target machine) is a verified compiler; NASM is not in /repo; the parts within reach are claimed separately')
prop('A02', 'Macro expansion follows the C standard',
 'Argument substitution, stringizing, pasting and rescanning yield the token sequence the standard prescribes.',
 ['programs'], 'all macro definitions and uses', 'Uses are unbounded.', ['ucpp/macro.c'], [('expansion', 'ucpp/macro.c:substitute_macro')],
 na='token-list specification of rescanning with painted names over heap-allocated growing FIFOs in mutually recursive functions is beyond what CBMC function contracts can express (no inductive predicates over unbounded lists)')
