#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     observe_at=list(observe), hook_needed=hook)))

C='base/components/'; D='base/dependencies/'

p('P01', 'Parsing then serializing preserves the token sequence of the source',
  'For every source text written in the supported C++ subset, parsing it and serializing the resulting AST yields text with exactly the same sequence of C++ tokens, comments and preprocessor directives as the source, in the canonical spelling of the library: nothing is dropped, duplicated, reordered or altered. Only whitespace and line breaks differ, and the documented normalizations apply (qualifiers follow the type they qualify, base access is spelled out, stray semicolons are dropped, a brace initializer is written as an assignment, continued directives are joined).',
  ['inputs','programs'], 'all files built from the grammar of supported declarations (variables, functions, types, enums, unions, templates, namespaces, linkage blocks, operators, constructors/destructors, typedef/using, preprocessor directives, comments), nested and combined arbitrarily, through every parse entry point',
  'The stable tests only run the library generators over a fixed set of sources and compile the result; a token lost from any other combination of constructs goes unnoticed.',
  [C+'lexer.cpp',C+'parser.cpp',C+'code_serialization.cpp',C+'interface.parsing.cpp'],
  [('recursive-descent parser that keeps every slice of the source in the AST',C+'parser.cpp'),('per-type serializers',C+'code_serialization.cpp')],
  observe=['text returned by serialization of the parsed AST'])
p('P02', 'Serialized output is a stable, layout-independent fixed point of parsing',
  'Serializing a parsed file and parsing that text again gives a tree of the same shape and names whose serialization is byte-identical to the first except for blank lines. Re-laying out the source (spaces, tabs, newlines between tokens where C++ gives them no meaning) changes neither the shape of the tree nor the tokens it serializes to, and parsing the same text again in the same or a fresh context gives the same result.',
  ['inputs','programs','histories'], 'all supported sources, all whitespace re-layouts of them, and all orders of parsing them within one context',
  'No existing test re-parses generated text or compares two parses; the property relates pairs of runs.',
  [C+'lexer.cpp',C+'parser.cpp',C+'code_serialization.cpp'],
  [('whitespace skipping in the lexer',C+'lexer.cpp'),('canonical layout in the serializers',C+'code_serialization.cpp')],
  observe=['AST dump and serialized text of first and second parse'])
p('P03', 'The lexer partitions its input into ordered, exact token slices',
  'For every input the lexer accepts, tokens come in source order, each one is exactly the slice of the input at its position, slices never overlap (an unsupported directive is one token from its hash sign on), the text between them is only whitespace and line continuations, and the recorded line and column are those of the slice. Token kinds agree with the lexical class of the slice (keywords, operators, literals, preprocessor directives, registered macros).',
  ['inputs'], 'all texts over the C++ lexical alphabet including literals, comments, directives, continuations and empty input',
  'No existing test looks at tokens; sampling a few files cannot cover combinations of adjacent lexemes.',
  [C+'lexer.cpp',C+'parser_types.hpp',C+'gen/etoktype.hpp'],
  [('lex / lex_preprocessor_*',C+'lexer.cpp'),('keyword table strtoktype',C+'gen/etoktype.hpp')],
  observe=['token array after lexing'])
p('P04', 'Hostile input never corrupts memory or hangs the parser',
  'For every byte string and every parse entry point, the parser finishes within a bounded amount of work and never reads or writes outside live memory, never dereferences null, and never executes undefined behaviour. It ends in one of: a valid AST, the invalid-code value, or the documented diagnosed stop.',
  ['inputs'], 'all byte strings: truncations, token deletions, duplications, swaps and garbage insertions of real sources, unterminated literals, comments and brackets, through every parse entry point',
  'The tests feed only well-formed files; malformed-input paths are never executed.',
  [C+'lexer.cpp',C+'parser.cpp',C+'interface.parsing.cpp'],
  [('lex__eat token checks and bounds',C+'parser.cpp'),('scanner left-count guards',C+'lexer.cpp')],
  observe=['sanitizer reports, signals, outcome of every parse call'])
p('P05', 'Every AST the library hands out is structurally well formed',
  'In every tree produced by parsing or by the construction interface: each child names the body or declaration that holds it as parent, sibling links are mutual and the chain from first to last entry has exactly the recorded number of entries, no node is reachable twice and there are no cycles. Every name and content held by a node is an interned, terminated string, and a node kind only appears in containers that admit it.',
  ['inputs','programs','histories'], 'all trees from supported sources and from arbitrary sequences of constructor, append and merge calls',
  'Tests never walk the tree; broken back-links only show up in user code that navigates it.',
  [C+'ast.hpp',C+'inlines.hpp',C+'parser.cpp',C+'interface.upfront.cpp'],
  [('body_append / params_append / code_append',C+'inlines.hpp'),('body assembly in parse functions',C+'parser.cpp')],
  observe=['independent walk of the returned tree'])
p('P06', 'Upfront constructors build exactly the declaration they were given',
  'For every valid combination of arguments, each construction function returns a node of the requested kind whose serialization consists of exactly the requested parts (attributes, specifiers, name, types, parameters, parents, values, bodies) in C++ order, once each. For constructs the parser also accepts, building them and parsing the same text serialize to the same tokens.',
  ['inputs','programs'], 'all argument combinations of every def_* function over generated names, types, specifiers, bodies and options',
  'The stable tests use a handful of argument combinations while generating the library; option combinations are never exercised.',
  [C+'interface.upfront.cpp',C+'code_serialization.cpp'],
  [('def_* functions',C+'interface.upfront.cpp')],
  observe=['serialized text of the constructed node'])
p('P07', 'Upfront constructors reject ill-formed requests without side effects',
  'A construction call whose arguments violate the stated contract of that construct (missing name, missing or wrong-kind type, wrong-kind body, disallowed member kind, invalid specifier, operator arity or null where forbidden) returns the invalid-code value rather than a node, and never crashes. The rejection leaves the arguments and all previously built trees unchanged and usable.',
  ['inputs','fault_sequences'], 'all single and paired contract violations applied to otherwise valid calls of every def_* function',
  'The tests only make valid calls; validation code is never executed.',
  [C+'interface.upfront.cpp'],
  [('name__check / null_check / operator__validate / body kind switches',C+'interface.upfront.cpp')],
  observe=['returned value, sanitizer reports, serialization of argument trees before and after'])
p('P08', 'The dynamic array behaves as a sequence for every operation history',
  'After every sequence of array operations (append one or many, insert at a position, remove, pop, fill, resize, grow, reserve, copy, clear, free) the array holds exactly the elements a plain sequence would hold, in order. Its capacity never drops below its count, element storage is always its own, out-of-range requests are refused without changing the array, and no operation reads or writes outside its storage.',
  ['histories','inputs'], 'all operation sequences over several element sizes and initial capacities, including self-insertion at capacity',
  'No stable test drives the container directly; growth-boundary and shifting errors need specific histories.',
  [D+'containers.hpp'],[('array_* functions',D+'containers.hpp')],
  state=[('ArrayHeader','allocator, capacity, count',D+'containers.hpp')],observe=['array contents and header after each operation'])
p('P09', 'The hash table behaves as a map for every operation history',
  'After every sequence of set, get, remove, clear, grow and rehash, lookups agree with a plain map from key to last value set, for every key ever used, including colliding and extreme keys. Iteration visits each live entry exactly once and the occupancy bound that triggers growth is maintained.',
  ['histories','inputs'], 'all operation sequences over small colliding and large random key sets',
  'No stable test drives the table directly; chain corruption needs collisions, removal and growth in a particular order.',
  [D+'containers.hpp'],[('hashtable_* functions',D+'containers.hpp')],
  state=[('Hashes/Entries','bucket heads and chained entries',D+'containers.hpp')],observe=['lookups and iteration after each operation'])
p('P10', 'Allocators hand out disjoint, aligned, in-bounds memory and keep contents',
  'Across every sequence of allocate, free, resize and clear on each allocator (heap with and without its analysis, arena, sub-arena, fixed arena, pool, virtual memory and the context fallback), each live block is aligned as requested, lies inside the memory the allocator owns, overlaps no other live block, and keeps its bytes until freed or resized, resizing preserving the common prefix. New blocks are zeroed by default. Exhaustion is reported with a null result or the documented fatal stop instead of memory out of bounds, and freed pool blocks become reusable.',
  ['histories','inputs'], 'all operation sequences with generated sizes and alignments, up to and beyond exhaustion',
  'Tests never exhaust or misalign an allocator; overlap only corrupts data far from the cause.',
  [D+'memory.hpp',D+'memory.cpp',C+'interface.cpp'],[('*_allocator_proc, arena_*, pool_*, heap_*, virtual memory',D+'memory.cpp')],
  observe=['returned pointers, shadow interval map, block contents'])
p('P11', 'Interned strings are canonical, exact and permanent',
  'Interning a string returns a terminated copy with exactly the same bytes; interning equal text again returns the very same pointer and different text a different one. Every interned string stays valid and unchanged for as long as its context is alive, however many other strings are interned and however often the tables and arenas grow.',
  ['histories','inputs'], 'all sequences of interned texts up to the maximum string size, including shared prefixes, embedded boundaries and many thousands of distinct strings',
  'Tests intern what their sources contain and never look at pointer identity or later validity.',
  [C+'interface.cpp'],[('cache_str and string arenas',C+'interface.cpp')],observe=['pointer and bytes of every interned string, re-checked later'])
p('P12', 'Strings and string builders behave as byte strings for every history',
  'Every non-mutating string query (equality, and on text without zero bytes prefix, substring search, character search, ordering, capped length, character classes, visualized whitespace and iteration) and every builder operation (make, append of each kind, itself included, formatted append, clear, duplicate, trim, skip line, visualize whitespace, reserve) gives the result the same operation gives on a plain byte string. A builder is always terminated, its length never exceeds its capacity, and no operation reads or writes outside its storage.',
  ['histories','inputs'], 'all operation sequences over arbitrary strings including empty ones and ones at capacity boundaries',
  'The stable tests only use the operations generation happens to need.',
  [D+'strings.hpp',D+'strings.cpp',D+'string_ops.hpp',D+'string_ops.cpp'],[('str_* and strbuilder_* functions',D+'strings.hpp')],
  observe=['results and builder header after each operation'])
p('P13', 'Formatting and number conversion are exact and bounded',
  'Formatting with the supported conversions (integers of every size in decimal, hexadecimal and octal, characters, strings and Str values, with width, left or zero padding and a precision on strings) produces the text the C standard gives, never writes past the given size and always terminates; it reports the size written including the terminator, or -1 with a terminated prefix when the text does not fit. Fractions printed with %f have the requested number of decimals and are within one unit of the last. Integers converted to text in any base read back as the original value in the bases that can be read (2 to 10 and 16), decimal fractions read back within rounding, and reading stops at the first character that is not part of the number.',
  ['inputs'], 'all values, widths, string precisions, supported flags and bases, and all buffer sizes including one byte',
  'Tests format a few small values with ample buffers.',
  [D+'printing.cpp',D+'string_ops.cpp',D+'string_ops.hpp'],[('c_str_fmt_va family',D+'printing.cpp'),('c_str_to_i64, c_str_to_u64, i64_to_str, u64_to_str, c_str_to_f64',D+'string_ops.cpp')],
  observe=['returned text and guard bytes'])
p('P14', 'CSV and ADT data survive parsing and writing',
  'Every well-formed CSV table parses into exactly its rows and cells in order, whether or not cells are quoted, and writing a parsed tree and parsing it again gives an equal tree. A node tree holds what was put into it, under its names and with its parents, whatever sequence of insertions, moves, swaps and removals made it, and its numbers survive printing and parsing. Malformed tables are reported as errors, and no input reads or writes outside the given memory.',
  ['inputs'], 'all tables over generated cells including empty, quoted, numeric and delimiter-bearing ones, and byte-level corruptions of them',
  'The tests parse only the four checked-in tables.',
  [D+'parsing.cpp',D+'parsing.hpp'],[('csv_parse_delimiter, csv_write_delimiter, adt_*',D+'parsing.cpp')],
  observe=['parsed tree and rewritten text'])
p('P15', 'File access, scanning and code writing are faithful',
  'What is written through the file, memory-stream and builder interfaces is read back byte for byte at the positions and with the sizes reported, and a builder writes exactly the serialization of what was printed to it, in order, to the path it was given. Failing operations (missing file, directory, unwritable path, closed file, full device) are reported as errors and never corrupt memory or other files.',
  ['histories','fault_sequences'], 'all sequences of open, seek, read, write, truncate and close operations and all single faults injected into them',
  'Tests only write fresh files on a healthy disk.',
  [D+'filesystem.cpp',D+'filesystem.hpp','base/auxiliary/builder.cpp','base/auxiliary/scanner.cpp'],[('file_*, memory stream, file_read_contents, builder_*, scan_file/parse_file','base/dependencies/filesystem.cpp')],
  observe=['bytes on disk, return codes'])
p('P16', 'Contexts are isolated, reusable and released completely',
  'Any sequence of initializing, switching, resetting and deinitializing contexts keeps each context independent: code made in one never changes another, a reset or re-initialized context behaves like a fresh one, and user-supplied allocators are the only source of its memory. Deinitializing returns every byte to its allocator (text handed out from the temporary allocator stays with its owner), repeating the same work after a reset needs no more memory, an allocation refused to the pools, strings or containers is diagnosed, and no history uses freed memory.',
  ['histories','configurations'], 'all interleavings of context lifecycle calls with parsing and construction, with default and user-supplied allocators and initial sizes',
  'Tests create a single context and exit without inspecting what was released.',
  [C+'interface.cpp',C+'interface.hpp'],[('init, deinit, reset, set_context',C+'interface.cpp')],
  state=[('Context','pools, arenas, tables and allocators',C+'interface.hpp')],observe=['allocation ledger of a counting allocator, leak reports, outputs per context'])
p('P17', 'Enum tables agree with their sources and the base regenerates itself',
  'For every enumerator of the code-type, specifier, operator and token tables, its string is the one given in the source table, looking a string up yields the enumerator that owns it, and unknown strings yield the invalid value, whatever their checksum. Running the base generator over the tables reproduces headers with the same enumerators, strings, lookups and conversions as the checked-in ones, and over other tables it gives headers that agree with those.',
  ['inputs','programs'], 'every entry of every table, all near-miss strings, and generated modifications of the tables',
  'The tests compile the generated headers but never compare table, header and lookups.',
  ['base/enums','base/helpers/base_codegen.hpp',C+'gen','base/base.cpp'],[('gen_ecodetypes, gen_eoperator, gen_especifier, gen_etoktype, gen_ast_inlines','base/helpers/base_codegen.hpp')],
  observe=['lookup results and regenerated headers'])
p('P18', 'Generated library variants behave like the base library',
  'The single-header, segmented and Unreal Engine C++ libraries and the C11 library that the generators emit give, for every program of parse, construction and serialization calls, the same text as the base library they were generated from, and can be used by a program of one or several files as their documentation says. Generating them twice gives identical files.',
  ['programs','inputs'], 'all supported sources and construction programs, run through every generated variant',
  'The tests compile the variants and run one small program on each.',
  ['gen_singleheader','gen_segmented','gen_unreal_engine','gen_c_library','base'],[('generator programs','gen_singleheader/singleheader.cpp, gen_segmented/segmented.cpp, gen_unreal_engine/unreal.cpp, gen_c_library/c_library.cpp')],
  observe=['text produced by each variant'])
p('P19', 'Token formatting and untyped code substitute exactly what was asked',
  'Formatting a template replaces each bracketed key that was supplied with its value, leaves all other text byte for byte as it was, and returns the exact length, whatever the order, number or size of keys and values; text that does not fit the buffer (GEN_PRINTF_MAXLEN) is diagnosed and never written past it. Untyped code built from non-empty text, a format or a template serializes to exactly that text and keeps it; empty text is refused.',
  ['inputs'], 'all templates and key sets, including unknown keys, repeated keys, adjacent keys, empty values and stray brackets',
  'Tests use a few templates with every key present.',
  [C+'interface.untyped.cpp'],[('token_fmt_va, untyped_str, untyped_fmt, untyped_token_fmt',C+'interface.untyped.cpp')],
  observe=['returned text'])
p('P20', 'Registered macros steer lexing and parsing as declared',
  'After a macro is registered, directly or by a define the parser meets or constructs, every later use of that name is lexed with the registered kind and functional flag and parses accordingly, lookup returns the registration last made, and names never registered stay identifiers. Text using registered macros as statements, expressions, specifiers, attributes and type names serializes to the same tokens.',
  ['histories','inputs'], 'all sequences of registrations and uses, all macro kinds, flags and positions',
  'Tests register a fixed list and never query it.',
  [C+'interface.cpp',C+'lexer.cpp',C+'parser.cpp',C+'types.hpp'],[('register_macro, lookup_macro',C+'interface.cpp'),('macro handling in lex and the parser',C+'lexer.cpp')],
  observe=['lookup results, tokens, serialized text'])
p('P21', 'Code objects can be duplicated, compared, extended and iterated safely',
  'A duplicate is equal to its original and serializes identically, equality is reflexive, symmetric and distinguishes trees that differ in any part other than comments, and appending, indexing, iterating, removing specifiers or parameters and merging bodies behave as on a plain list. None of these operations changes an object it was not asked to change.',
  ['histories','inputs'], 'all trees from parsing and construction, all single-part differences, and all operation sequences on bodies, parameters and specifiers',
  'The tests never compare or duplicate trees outside one generator path.',
  [C+'ast.cpp',C+'inlines.hpp',C+'code_types.hpp'],[('code_duplicate, code_is_equal, body_*, params_*, specifiers_*',C+'ast.cpp')],
  observe=['returned values and serializations before and after'])
p('P22', 'Generated C containers behave like their C++ originals',
  'Arrays and hash tables generated for the C library from the same container definitions behave as a sequence and a map for every operation history, exactly like the C++ templates, without reading or writing outside their storage.',
  ['histories','programs'], 'all operation sequences on arrays and tables generated for several element types',
  'The C test only appends a few elements.',
  ['gen_c_library/components/containers.array.hpp','gen_c_library/components/containers.hashtable.hpp'],[('gen_array, gen_hashtable','gen_c_library/components')],
  observe=['container contents after each operation'])
p('P23', 'Memory and hash primitives match their definitions',
  'Copying, moving, setting, clearing, searching and swapping memory act on exactly the given byte ranges whatever their size, alignment or (for moving) overlap; alignment and pointer arithmetic give the value their definition gives, and an alignment that is not a power of two is refused. The 32-bit checksum is the standard CRC-32 and the 64-bit one the CRC with the reflected polynomial 0x95AC9329AC4BC9B5 starting from zero, for every byte string.',
  ['inputs'], 'all sizes, alignments, overlaps and contents',
  'Tests never call these directly.',
  [D+'memory.hpp',D+'memory.cpp',D+'hashing.cpp'],[('mem_copy, mem_move, mem_set, mem_find, zero_size, swap, align_forward, pointer_add, crc32, crc64',D+'memory.cpp')],
  observe=['bytes inside and around the operands, checksum values'])
p('P24', 'Members, overloads and operators of the C++ interface act as the functions they stand for',
  'Every member function, overload, operator, conversion and ranged loop that the C++ interface offers for strings, string builders, arenas, pools, file builders, code nodes of each kind, bodies, parameters, specifiers and macros gives the same result and leaves the same state as the function of the C interface it stands for, in every state of its operands. Using only those that look at code leaves the code as it was.',
  ['histories','inputs'], 'all members, overloads and operators with all states of their operands',
  'Tests use one interface for each thing and never both.',
  [C+'code_types.hpp',C+'ast.hpp',C+'interface.hpp',D+'strings.hpp',D+'memory.hpp','base/auxiliary/builder.hpp'],[('Using_Code, CodeBody, CodeParams, CodeSpecifiers members and the overloads after them',C+'code_types.hpp'),('Str, StrBuilder members',D+'strings.hpp'),('Arena, Pool members',D+'memory.hpp')],
  observe=['returned values, texts, states of both operands'])
p('P25','A declaration parses to the same tree wherever it may stand',
  'A supported declaration gives the same tree of code nodes (kinds, names, types, specifiers, attributes, values, entries) whether it is parsed through the entry point of its own kind, as a file of its own, or as one of several entries of a file, a namespace, a linkage block or an export block, in whatever order; the tree of a sequence is the sequence of the trees. The same holds for the members of a class and of a struct, for what a template or friend declares, and for a template as a member. A const in front of the type it qualifies (or a volatile in front of the type of a result, parameter or alias) gives the tree of the one written after it.',
  ['inputs'], 'all supported declarations in all places and orders',
  'Tests parse a few declarations, each in one place.',
  [C+'parser.cpp',C+'interface.parsing.cpp',C+'parser_case_macros.cpp'],[('parse_global_nspace, parse_class_struct_body, parser_parse_template, parser_parse_friend and the parser_parse_* of each kind',C+'parser.cpp'),('parse_* entry points',C+'interface.parsing.cpp')],
  observe=['trees of the same declaration in different places'])
p('P26','Nothing the library decides or hands over depends on memory it has not written',
  'Whatever the stack and the memory obtained from an allocator held before, every decision of the library and every byte it hands over - tokens, nodes, interned and built text, formatted output, table and tree contents, file records and file bytes - is determined by its arguments and by what it wrote itself: no branch, address or output uses a byte that was never written. This holds for accepted, refused and broken sources, for construction requests good and bad, for containers, allocators, strings, formatting, table files, files, macros and contexts.',
  ['inputs','histories'], 'all sources and histories with all earlier contents of memory',
  'A value that was never written is often zero in a fresh process, so a test that meets it passes.',
  ['base/components','base/dependencies','base/auxiliary'],[('make_code, init, lex, parser entry points, def_*',C+'interface.cpp'),('array, hash table, string, pool and arena set-up',D+'containers.hpp'),('adt_make_branch, csv_parse',D+'parsing.cpp'),('file_stream_*, file_open*',D+'filesystem.cpp'),('str_fmt',D+'printing.cpp')],
  observe=['every byte handed over, every branch of the library'])
p('P27','Work and memory grow in proportion to the input',
  'Lexing, parsing, serializing, comparing and duplicating a source with many things next to one another (declarations, members, enumerators, parameters, statements, comments, directives, tokens of an expression, text of a literal, or broken text that is refused) takes time and memory in proportion to its length: sixteen times as much of the same takes about sixteen times as many steps and bytes, not the square of it. The same holds for repeated operations that each do a bounded amount: appending to bodies, parameters, text, arrays, tables, tree nodes and memory streams, making nodes and bodies from arrays, interning, registering and looking up macros, formatting, reading and writing table files, building files, allocating from pools and arenas, parsing one source after another in a context, and making and releasing contexts. The depth of nesting and lists of base classes are outside of this statement, as is getting an entry by its index.',
  ['inputs','histories'], 'all lengths of sources and histories',
  'A test looks at small inputs, on which a walk over everything before each step costs nothing.',
  ['base/components','base/dependencies','base/auxiliary'],[('lex, parser_parse_*, parse_global_nspace',C+'parser.cpp'),('*_to_strbuilder_ref',C+'code_serialization.cpp'),('body_append, params_append',C+'inlines.hpp'),('cache_str, make_code, register_macro',C+'interface.cpp'),('array_*, hashtable_*',D+'containers.hpp'),('strbuilder_append_*',D+'strings.cpp'),('adt_*, csv_*',D+'parsing.cpp')],
  observe=['edges of the control flow graph taken','bytes allocated, copied, filled and compared'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
