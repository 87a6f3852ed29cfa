#!/usr/bin/env python3
"""Mutation runs: small random changes to a file of the library, judged by the checks of its area; lists those no check reports.
usage: mutate.py WORKDIR SEED COUNT [FILE...]   (needs a clone of the library at $VP_SRC, default /repo; works in WORKDIR only)"""
import os, sys, re, random, subprocess, shutil, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); SRC = os.environ.get('VP_SRC', '/repo')
D, C = 'base/dependencies/', 'base/components/'
AREA = {D+'containers.hpp': 'P08 P09', D+'memory.cpp': 'P10 P23', D+'memory.hpp': 'P24 P10 P23', D+'strings.hpp': 'P24 P12 P11', D+'strings.cpp': 'P12 P27', D+'string_ops.cpp': 'P12 P13', D+'string_ops.hpp': 'P12 P13', D+'printing.cpp': 'P13 P19 P15', D+'hashing.cpp': 'P23', D+'parsing.cpp': 'P14 P26', D+'filesystem.cpp': 'P15 P26',
 C+'interface.untyped.cpp': 'P19', C+'interface.cpp': 'P16 P11 P20', C+'interface.upfront.cpp': 'P06 P07 P21', C+'ast.cpp': 'P21 P06 P05 P07', C+'inlines.hpp': 'P21 P06 P05', C+'code_serialization.cpp': 'P06 P01 P02 P21', C+'lexer.cpp': 'P03 P20 P01', C+'parser.cpp': 'P01 P25 P20 P04 P05 P06 P27', C+'code_types.hpp': 'P24 P21 P06', C+'ast.hpp': 'P24 P21', C+'interface.hpp': 'P24 P06 P21', 'base/auxiliary/builder.hpp': 'P24 P15', C+'types.hpp': 'P24 P20', C+'interface.parsing.cpp': 'P01 P25 P04 P05', C+'parser_case_macros.cpp': 'P25 P01 P20', C+'static_data.cpp': 'P06',
 'base/auxiliary/builder.cpp': 'P15', 'base/auxiliary/scanner.cpp': 'P15', 'base/auxiliary/scanner.hpp': 'P15', 'base/helpers/base_codegen.hpp': 'P17', 'gen_c_library/components/containers.array.hpp': 'P22 P18', 'gen_c_library/components/containers.hashtable.hpp': 'P22 P18', 'gen_c_library/c_library.cpp': 'P18', 'gen_singleheader/singleheader.cpp': 'P18', 'gen_segmented/segmented.cpp': 'P18'}
def mutants(line):
    s = line; b = s.strip()
    if not b or b.startswith(('//', '#', '*', '/*', 'log_failure', 'log_fmt', 'GEN_ASSERT', 'GEN_PANIC', 'static_assert', 'case CT_', 'default:', 'using ', 'typedef', 'template', 'extern')) or 'log_f' in b or 'GEN_FATAL' in b: return []
    code = s.split('//')[0]; out = []
    def sub(pat, rep, name):
        for m in re.finditer(pat, code): out.append((name, code[:m.start()] + rep + code[m.end():] + s[len(code):]))
    sub(r'(?<=[\w\)\] ]) < (?=[\w\( -])', ' <= ', 'lt'); sub(r' <= ', ' < ', 'le'); sub(r' > (?=[\w\( -])', ' >= ', 'gt'); sub(r' >= ', ' > ', 'ge'); sub(r' == ', ' != ', 'eq'); sub(r' != ', ' == ', 'ne')
    sub(r' && ', ' || ', 'and'); sub(r' \|\| ', ' && ', 'or'); sub(r' \+ 1\b', '', 'plus1'); sub(r' - 1\b', '', 'minus1'); sub(r'\btrue\b', 'false', 'true'); sub(r'\bfalse\b', 'true', 'false'); sub(r' \+ ', ' - ', 'plus'); sub(r'(?<=[= ]|\()0(?=[;, )])', '1', 'zero'); sub(r'\+=', '=', 'pluseq')
    if re.match(r'^\s*[\w\*][^{}]*;\s*$', code) and not re.match(r'^\s*(return|break|continue|goto|case|[\w:\*<>]+\s+[\w\*& ]+(=|;|\[))', code): out.append(('delete', re.match(r'\s*', s).group(0) + ';\n'))
    if re.match(r'^\s*if\s*\(.*\)\s*\{?\s*$', code) and code.count('(') == code.count(')'): out.append(('never', re.sub(r'if\s*\(', 'if (false && (', code.rstrip(), 1)[::-1].replace(')', '))', 1)[::-1] + '\n')); out.append(('always', re.sub(r'if\s*\(', 'if (true || (', code.rstrip(), 1)[::-1].replace(')', '))', 1)[::-1] + '\n'))
    return out
def main():
    W, seed, count, files = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
    rng = random.Random(seed); files = files or list(AREA); R = os.path.join(W, 'repo'); Q = os.path.join(W, 'verif')
    for p in (R, Q): shutil.rmtree(p, ignore_errors=True)
    os.makedirs(W, exist_ok=True); subprocess.check_call(['git', 'clone', '-q', SRC, R])
    os.makedirs(Q)
    for d in ('lib', 'harness', 'checks'): shutil.copytree(os.path.join(V, d), os.path.join(Q, d))
    for f in ('known_findings.json', 'properties.jsonl'): shutil.copy(os.path.join(V, f), Q)
    active = {}      # the lines that are compiled here
    e = subprocess.run(['clang++-18', '-std=c++17', '-fms-extensions', '-w', '-E', '-include', os.path.join(Q, 'harness', 'prelude.h'), '-DVP_NO_TRAP', '-DGEN_TIME', '-DGEN_BUILD_DEBUG=1', '-I', R, '-I', os.path.join(R, 'base'), '-x', 'c++', os.path.join(R, 'base', 'gen.cpp')], stdout=subprocess.PIPE).stdout.decode('latin1'); cur = None
    for l in e.split('\n'):
        m = re.match(r'# (\d+) "([^"]*)"', l)
        if m: cur = os.path.relpath(os.path.normpath(m.group(2)), R); at = int(m.group(1)); continue
        if l.strip(): active.setdefault(cur, set()).add(at)
        at += 1
    log = open(os.path.join(W, 'log'), 'a', buffering=1); n = 0
    while n < count:
        f = rng.choice(files); p = os.path.join(R, f); raw = open(p, newline='', encoding='latin1').read(); lines = raw.split('\n'); i = rng.randrange(len(lines))
        cr = lines[i].endswith('\r'); ms = mutants(lines[i].rstrip('\r') + '\n')
        if not ms or (f in active and i + 1 not in active[f]): continue
        name, new = rng.choice(ms); lines2 = list(lines); lines2[i] = new.rstrip('\n') + ('\r' if cr else '')
        open(p, 'w', newline='', encoding='latin1').write('\n'.join(lines2))
        try:
            if f.startswith('base/') :
                c = subprocess.run(['clang++-18', '-std=c++17', '-fms-extensions', '-fdelayed-template-parsing', '-w', '-fsyntax-only', '-include', os.path.join(Q, 'harness', 'prelude.h'), '-DVP_NO_TRAP', '-DGEN_TIME', '-DGEN_BUILD_DEBUG=1', '-I', R, '-I', os.path.join(R, 'base'), '-x', 'c++', os.path.join(R, 'base', 'gen.cpp')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if c.returncode: continue
            n += 1; res = []
            for k in AREA[f].split():
                try: c = subprocess.run(['python3', 'checks/%s.py' % k], cwd=Q, env=dict(os.environ, VP_REPO=R, VERIF_SEED='1'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=880); rc, o = c.returncode, c.stdout.decode('latin1')
                except subprocess.TimeoutExpired: rc, o = 'timeout', ''
                m = re.search(r'^--- (.*)', o, re.M); res.append('%s:%s' % (k, rc))
                if rc == 1: res.append((m.group(1) if m else '')[:90]); break
            killed = rc == 1
            log.write('%s %s:%d %s %s\n      - %s\n      + %s\n' % ('killed  ' if killed else 'SURVIVED', f, i + 1, name, ' '.join(map(str, res)), lines[i].strip(), lines2[i].strip()))
        finally:
            open(p, 'w', newline='', encoding='latin1').write(raw); shutil.rmtree(os.path.join(Q, 'build'), ignore_errors=True); shutil.rmtree(os.path.join(Q, 'replay'), ignore_errors=True)
main()
