"""Writes seeded/<id>/ from a description, in a scratch copy of /repo, and confirms demo and (optionally) checks."""
import os, sys, subprocess, shutil, json
REPO = '/repo'; SC = '/tmp/sd'
SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
PRE = open(os.path.join(os.path.dirname(SEEDED), 'harness', 'prelude.h')).read().split('#ifndef VP_NO_TRAP')[0]
DEMO_SH = '''#!/bin/bash
# Exit 0 when the library behaves, nonzero when it does not. Run with cwd = the repository.
HERE=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d) || exit 2
trap 'rm -rf "$D"' EXIT
clang++ -std=c++17 -fms-extensions -fdelayed-template-parsing -fno-exceptions -w -O0 -g1 %(san)s -include "$HERE/pre.h" -DGEN_TIME -DGEN_BUILD_DEBUG=%(dbg)d %(defs)s -I . -I base "$HERE/demo.cpp" -o "$D/demo" -lpthread || exit 2
cd "$D" && ASAN_OPTIONS=detect_leaks=0:exitcode=77 timeout 60 ./demo
'''
HEAD = '''#include "%s"
#undef min
#undef max
#undef swap
using namespace gen;
static std::string text(Code c) { StrBuilder s = code_to_strbuilder(c); return std::string((char*)s, (size_t)strbuilder_length(s)); }
static std::string squeeze(std::string s) { std::string r; for (char c : s) if (!isspace((unsigned char)c)) r += c; return r; }
static int want(bool ok, const char* what) { if (!ok) { printf("FAILED: %%s\\n", what); return 1; } return 0; }
'''
def orig_lines(f):
    o = subprocess.run(['git', '-C', REPO, 'blame', '-s', '8bf72c5..HEAD', '--', f], stdout=subprocess.PIPE).stdout.decode('latin1')
    return [l.startswith('^') for l in o.split('\n')]
def fresh():
    subprocess.run(['rm', '-rf', '/tmp/sd']); subprocess.check_call(['git', 'clone', '-q', REPO, SC])
def seed(id, prop, edits, demo=None, needs='', breaks='', san='', dbg=1, defs='', script=None, files=None, header='base/gen.cpp', run=True):
    d = os.path.join(SEEDED, id)
    if os.path.exists(d): subprocess.run(['rm', '-rf', d])
    os.makedirs(d)
    fresh()
    for f, old, new in edits:
        p = os.path.join(SC, f); s = open(p, newline='', encoding='latin1').read(); old, new = old.encode().decode('latin1'), new.encode().decode('latin1'); crlf = '\r\n' in s
        if crlf: old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
        if s.count(old) != 1: print(id, 'FAIL: %d matches in %s' % (s.count(old), f)); return False
        open(p, 'w', newline='', encoding='latin1').write(s.replace(old, new))
    diff = subprocess.run(['git', '-C', SC, 'diff'], stdout=subprocess.PIPE).stdout
    open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
    # removed lines must be original
    f = None; bad = 0; ln = 0; orig = None
    for l in diff.decode('latin1').split('\n'):
        if l.startswith('--- a/'): f = l[6:].rstrip(); orig = orig_lines(f)
        elif l.startswith('@@'): ln = int(l.split()[1].split(',')[0][1:]) - 1
        elif l.startswith('-'):
            if not orig[ln]: bad += 1
            ln += 1
        elif l.startswith(' '): ln += 1
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    if script: open(os.path.join(d, 'demo.sh'), 'w').write(script)
    else:
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH % dict(san=san, dbg=dbg, defs=defs))
        open(os.path.join(d, 'pre.h'), 'w').write(PRE)
        open(os.path.join(d, 'demo.cpp'), 'w').write(HEAD % header + demo)
    for n, c in (files or {}).items(): open(os.path.join(d, n), 'w').write(c)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    a = b = None
    if run:
        b = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=SC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        a = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    ck = subprocess.run(['python3', 'checks/%s.py' % prop], cwd=os.path.dirname(SEEDED), env=dict(os.environ, VP_REPO=SC, VERIF_SEED='1'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT) if os.path.exists(os.path.join(os.path.dirname(SEEDED), 'checks', prop + '.py')) else None
    print(id, 'clean', a.returncode if run else '-', 'patched', b.returncode if run else '-', 'nonoriginal lines', bad, 'check', ck.returncode if ck else '-')
    if run and a.returncode: print(a.stdout.decode('latin1')[-600:])
    if run and b.returncode == 2: print(b.stdout.decode('latin1')[-600:])
    if ck and ck.returncode not in (0,): print('   ', [l[:160] for l in ck.stdout.decode('latin1').split('\n') if l.startswith('---') or 'error' in l][:3])
    if ck and ck.returncode == 0: print('    MISSED:', ck.stdout.decode('latin1').strip()[-200:])
    subprocess.run(['rm', '-rf', '/tmp/sd'])
    return True
