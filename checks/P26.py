#!/usr/bin/env python3
"""P26: nothing the library decides or hands over depends on memory it has not written (MemorySanitizer over the workloads of the other checks)."""
import os, sys, hashlib, random; D = os.path.dirname(os.path.abspath(__file__)); sys.path[:0] = [os.path.join(D, '..', 'lib'), D]
from concurrent.futures import ThreadPoolExecutor
import vp, model, workload as W, gen_macro as M, P04, P15
DBG = ['GEN_BUILD_DEBUG=1']
# harness, defines, rounds (quick), linker options
MODELS = dict(upfront=(DBG, 900), reject=(['GEN_DONT_USE_FATAL=1', 'GEN_BUILD_DEBUG=0'], 3000), array=(DBG, 1500), hash=(DBG + ['GEN_SUPPORT_CPP_REFERENCES=1'], 1500), alloc=(DBG, 1500), intern=(DBG, 24), str=(DBG, 6000), fmt=(DBG, 30000), csv=(DBG, 2000),
              ctx=(DBG, 200), tokfmt=(DBG, 5000), macro=(DBG, 100), code=(DBG + ['GEN_DONT_USE_FATAL=1'], 1500), mem=(DBG, 20000), wrap=(DBG + ['GEN_DONT_USE_FATAL=1'], 600), file=(DBG, 600))
def ours(err): return 'MemorySanitizer: use-of-uninit' in err

def run(chk):
    chk.rule = ('one case is a program, a broken program or a text with registered macros given to a parse entry point or the lexer, or one round of the operation histories of the other checks, run with every byte of stack and heap tracked as written or not; '
                'what is handed over (tokens, trees, texts, strings, records) is read byte by byte; non-trivial: distinct sources and histories')
    chk.assumptions = ['MemorySanitizer of clang 18', 'the C++ standard library and libc are not tracked inside: what they write counts as written', 'memory given back to an arena or pool and handed out again counts as written']
    n = 12 if vp.THOROUGH else 1
    with ThreadPoolExecutor(8) as ex:
        jobs = {'parse': ex.submit(vp.build, 'ms-parse', 'parse_drv.cpp', DBG, 'msan'), 'lex': ex.submit(vp.build, 'ms-lex', 'parse_drv.cpp', DBG + ['VP_LEX'], 'msan')}
        for k, (d, r) in MODELS.items(): jobs[k] = ex.submit(vp.build, 'ms-' + k, k + '_model.cpp', d, 'msan', extra=P15.WRAP if k == 'file' else ())
        bins = {k: j.result() for k, j in jobs.items()}
    rng = chk.rng('src'); cases = []
    fx = [dict(kind=k, src=s, opt='td' + o) for k, s in W.fixed_cases() for o in ('', 'z')]
    gen = [(k, t, W.lay(t, s, rng)) for k, t, s in W.corpus(rng, 30 * n)]
    cases += fx + [dict(kind=k, src=s, opt='td') for k, t, s in gen]
    base = [(c['kind'], W.ctok.texts(c['src']), c['src']) for c in fx] + [(k, W.ctok.texts(s), s) for k, t, s in gen]; pool = [s for _, _, s in base]
    for i in range(2500 * n):
        k, t, s = base[rng.randrange(len(base))]
        cases.append(dict(kind=k if rng.random() < .85 else rng.choice(P04.KINDS), src=P04.mutate(rng, [x for x in t if x != '#$'], s, pool).replace('#^', '#').replace('#$', '\n'), opt='tdz'))
    for i in range(250 * n):
        g = M.GM(random.Random(rng.random())); g.dense = i % 3 == 1
        cases.append(dict(kind='global_body', src=W.lay(g.decls(2, 4), 'space', rng), opt='td', macros=g.lines()))
    lex = [dict(kind='lex', src=c['src'], opt='', macros=c.get('macros', '')) for c in cases[::2]]
    for what, b, cs, args in (('parse', bins['parse'], cases[0::2], []), ('parse, separate blocks', bins['parse'], cases[1::2], ['h']), ('lex', bins['lex'], lex, ['h'])):
        for c, x in zip(cs, vp.run_cases(b, cs, args=args)):
            chk.count('%s: %s' % (what, x.status)); chk.case(hashlib.md5((what[:3] + c['kind'] + '\0' + c['src']).encode('latin1', 'replace')).hexdigest())
            if x.status == 'CRASH' and ours(x.err): chk.violation('%s %s' % (what, x.key), 'entry point %s\n%s\nsource: %r' % (c['kind'], x.err[-2500:], c['src'][:600]), dict(case=c, err=x.err[-6000:]))
    def one(j):
        k, s, m = j
        try: return k, m, model._one(bins[k], vp.SEED, s, m, 300, vp.san_env(), k, None)
        except vp.HarnessError as e: return k, 0, ['X\t%s\tstart\t%s' % ('start', str(e))]
    parts = []
    for k, (d, r) in MODELS.items():
        r *= n; per = max(1, r // (4 * n)); parts += [(k, s, min(per, r - s)) for s in range(0, r, per)]
    with ThreadPoolExecutor(vp.NCPU) as ex:
        for k, m, lines in ex.map(one, parts):
            chk.evals += m; chk.count('rounds of %s' % k, m)
            for l in lines:
                f = l.split('\t')
                if f[0] == 'X' and ours(f[3]): chk.violation('%s %s' % (k, f[1]), f[2] + '\n' + model.unesc(f[3])[-3000:], dict(harness=k, seed=vp.SEED, detail=f[2:]))
                elif f[0] == 'D': chk.nontrivial.add((k, f[1]))
    chk.sample(cases[3]); chk.sample(cases[-1])
    chk.finish(min_evals=20000, min_distinct=10000)
if __name__ == '__main__': vp.main(run, 'P26')
