#!/usr/bin/env python3
"""Single source of /verif/MANIFEST.json."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'runtime monitoring under AddressSanitizer and UndefinedBehaviorSanitizer: '
CLAIM = {
 'P01': ('offline token-sequence checker over generated programs', 'An independent tokenizer compares source and output token for token on every generated program; held on what was explored. Trusts the tokenizer (lib/ctok.py) and the list of normalizations.'),
 'P02': ('relational (run-pair) checkers over generated programs and layouts', 'Relates second parse, re-layout and repeated parse to the first; held on what was explored. Trusts the tree dump of the harness.'),
 'P03': ('online judge of every token of the lexer', 'Every token of every accepted source is judged for position, slice, order, coverage and class; the expected classes are written down independently.'),
 'P04': ('hostile-input fuzzing of all parse entry points with exact-size buffers', 'Mutation and fragment fuzzing with crash, sanitizer and hang detection; a diagnosed stop is an accepted outcome. Overreads inside a live allocation are only seen where its size is exact.'),
 'P05': ('structural-invariant walker over every tree handed out', 'An independent walker checks links, counts, sharing and strings of every tree; held on what was explored.'),
 'P06': ('comparison of constructed trees with an independent text of the request', 'Random requests over the construction functions are compared token for token with a text made by the harness, and with what the parser makes of that text; held on what was explored. Trusts the request generator.'),
 'P07': ('monitor of refusals over ill-formed requests', 'Random requests with one ill-formed aspect are made; the result must be the invalid code with a log entry, and dumps of every argument before and after must agree. Held on what was explored.'),
 'P08': ('model comparison of operation histories', 'Random histories on the array are compared step by step with std::vector, allocation failures included; held on what was explored.'),
 'P09': ('model comparison of operation histories', 'Random histories on the hash table are compared step by step with std::map; held on what was explored.'),
 'P10': ('ownership-model monitor of allocator histories', 'A shadow map of live blocks judges every pointer handed out by every allocator; held on what was explored.'),
 'P11': ('online monitor of identity and permanence of interned strings', 'An exact table of texts and addresses judges every call and is re-checked later; includes texts with equal checksums.'),
 'P12': ('model comparison of queries and operation histories', 'Queries and builder histories are compared with std::string on exact-size copies; held on what was explored.'),
 'P13': ('differential comparison with the C library in guarded buffers', 'Every conversion is formatted into ample, exact, short and tiny buffers with guard bytes and compared with the C library; conversions are read back. Flags + space # and integer precision are outside the statement.'),
 'P14': ('model comparison of generated tables and trees', 'Tables are compared with the rows and cells they were made from, written, parsed again; node trees are built by random histories and compared with a plain tree; numbers are parsed, printed and parsed again; damaged tables must be refused. Held on what was explored.'),
 'P15': ('model comparison of operation histories with injected faults', 'Histories over files, memory streams, builders and scanners are compared with plain byte strings and with the files on disk; read, write, open and close are wrapped to come back short, interrupted or failing. Files are in a scratch directory. Held on what was explored.'),
 'P16': ('allocation ledger and run-pair comparison over context histories', 'Counting allocators, refused allocations and interleaved contexts; outputs are compared with those of a fresh context; held on what was explored.'),
 'P17': ('comparison of compiled tables with their sources', 'Every enumerator, string and lookup of the checked-in, the regenerated and randomly generated tables is compared with an independent reading of the table; unknown strings include ones with the checksum of a known one. Held on what was explored.'),
 'P18': ('differential execution of the same program text on the base and the generated libraries', 'All four libraries are generated from the working tree (twice, byte-compared), and random programs of parse, construction and serialization calls compiled from one text run on each under sanitizers; every line must agree. The renaming tool (a Windows program) is replaced by a stand-in; the seven words it also renames inside string tables are left out. Held on what was explored.'),
 'P19': ('model comparison of formatted templates in guarded buffers', 'Every template is formatted by an independent substitution and compared; held on what was explored.'),
 'P20': ('exact registration table and token checker over programs that use macros', 'Registration histories (colliding checksums, redefinitions, several contexts) are judged by an exact table and the tokens of later uses; programs that use registered macros are compared token for token. Held on what was explored; positions the parser diagnoses are listed in DESIGN.md.'),
 'P21': ('model comparison of operation histories and replayed requests', 'Histories on bodies, parameters, specifiers and interfaces are compared with plain lists; requests are replayed and replayed with one choice changed to judge equality. Differences in comments only are not judged. Held on what was explored.'),
 'P22': ('model comparison of operation histories on generated containers', 'The C library is generated, further containers are made by the same definitions, and histories on them (functions and selection macros) are compared with byte-string models; held on what was explored. The renaming tool (a Windows program) is replaced by lib/refactor.py.'),
 'P23': ('comparison of every byte with the definition on exact-size blocks', 'Sizes, offsets and overlaps are random; every byte inside and before the block is compared and the byte after it is covered by AddressSanitizer. Type-punned word accesses (strict aliasing) are not judged.'),
 'P24': ('comparison of each member, overload and operator with its function', 'Histories are run twice, through the C++ interface and through the functions, and must agree; constructed trees are looked at node by node. Whether the functions themselves are right is left to the other properties. Held on what was explored.'),
 'P25': ('comparison of the trees of one declaration parsed in different places', 'Generated and hand-written declarations are parsed alone, through their own entry point, in sequences and in blocks, and the trees compared node by node. Whether the tree is the right one is left to P01 and P06. Held on what was explored.'),
 'P26': ('MemorySanitizer over parsing, lexing and every operation history', 'Every byte of stack and heap is tracked as written or not while programs, broken programs and the histories of the other checks run, and what is handed over is read byte by byte. Memory reused inside an arena or pool counts as written. Held on what was explored.'),
 'P27': ('counting of steps and bytes at run time, for an input and for sixteen times as much', 'Every edge of the control flow graph taken and every byte allocated, copied, filled or compared is counted for constructs, operations, broken texts and whole programs at two lengths; more than 1.75 times (steps) or 2.2 times (bytes) the proportional amount is reported. Needs no sanitizer: a coverage-instrumented build. Held on what was explored.'),
}
props = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='bash setup.sh', checks=[], not_applicable=[])
for p in props:
    i = p['id']
    if i in CLAIM:
        t, n = CLAIM[i]
        m['checks'].append(dict(property=i, quick_cmd='python3 checks/%s.py' % i, thorough_cmd='VERIF_TIER=thorough python3 checks/%s.py' % i, technique=T + t, level='exploration', level_note=n))
    else: m['not_applicable'].append(dict(property=i, reason='the check for this property is not built yet; the technique applies'))
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
