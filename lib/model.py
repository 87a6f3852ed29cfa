"""Runs the in-process model harnesses (harness/model.h) in parallel and collects what they observed."""
import os, subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
import vp

def unesc(s): return s.replace('\\n', '\n').replace('\\t', '\t')

def _one(binary, seed, start, n, timeout, env, tag, cwd_files):
    d = tempfile.mkdtemp(prefix='vpm', dir=vp.BUILD)
    out = []
    try:
        end = start + n; crashes = 0
        while start < end:
            prog = os.path.join(d, 'prog')
            hung = False
            with open(os.path.join(d, 'out'), 'wb') as fo, open(os.path.join(d, 'err'), 'wb') as fe:
                p = subprocess.Popen([binary, str(seed), str(start), str(end - start), prog], stdout=fo, stderr=fe, stdin=subprocess.DEVNULL, env=env, cwd=d)
                try: p.wait(timeout)
                except subprocess.TimeoutExpired: p.kill(); p.wait(); hung = True
            text = open(os.path.join(d, 'out'), 'rb').read().decode('latin1')
            err = open(os.path.join(d, 'err'), 'rb').read()[-30000:].decode('latin1')
            lines = text.split('\n'); out += lines
            if 'E' in lines[-2:]: break
            try: r = int(open(prog).read().split()[0])
            except Exception: raise vp.HarnessError('%s produced nothing: %s' % (os.path.basename(binary), err[:1500]))
            hist = err.split('@@round')[-1][:2500] if '@@round' in err else ''
            if hung: out.append('X\thang\tround %d did not finish\t%s' % (r, err[-500:]))
            else: out.append('X\t%s\t%s\t%s' % (vp.san_key(err) if ('Sanitizer' in err or 'runtime error' in err) else 'exit%s' % p.returncode, 'round %d' % r, (err.split('@@round')[0][-3500:] + '\nhistory: ' + hist).replace('\t', ' ').replace('\n', '\\n')))
            start = r + 1; crashes += 1
            if crashes > 6: break
    finally: shutil.rmtree(d, ignore_errors=True)
    return out

def run(chk, binary, rounds, tag, jobs=None, timeout=240, env=None, prefix='', chunk=None):
    """prefix: put in front of violation keys."""
    jobs = jobs or vp.NCPU
    env = env or vp.san_env()
    per = chunk or (rounds + jobs - 1) // jobs
    starts = list(range(0, rounds, per))
    done = 0
    with ThreadPoolExecutor(jobs) as ex:
        for lines in ex.map(lambda s: _one(binary, vp.SEED, s, min(per, rounds - s), timeout, env, tag, None), starts):
            for l in lines:
                f = l.split('\t')
                if f[0] == 'V': chk.violation(prefix + f[1], unesc(f[2])[:1200] + '\n' + unesc(f[3])[:1600], dict(harness=tag, seed=vp.SEED, detail=[unesc(x) for x in f[2:]]))
                elif f[0] == 'X': chk.violation(prefix + f[1], f[2] + '\n' + unesc(f[3])[-2500:], dict(harness=tag, seed=vp.SEED, detail=[unesc(x) for x in f[2:]]))
                elif f[0] == 'C': chk.cov.setdefault(tag, {}); chk.cov[tag][f[1]] = chk.cov[tag].get(f[1], 0) + int(f[2])
                elif f[0] == 'S': chk.sample(unesc(f[1])[:400])
                elif f[0] == 'D': chk.nontrivial.add((tag, f[1]))
    chk.evals += rounds
