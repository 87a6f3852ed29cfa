#!/usr/bin/env python3
"""Stand-in for scripts/helpers/refactor.exe (a Windows program): renames the words of a file by a .refactor script."""
import sys, re
def load(spec):
    words, ns, nots = {}, [], set()
    for l in open(spec, encoding='latin1'):
        m = re.match(r'\s*(not\s+)?(word|namespace)\s+([^,\s]+)\s*(?:,\s*(\S+))?\s*(//.*)?$', l)
        if not m: continue
        if m.group(1): nots.add(m.group(3))
        elif m.group(4) and m.group(2) == 'word': words.setdefault(m.group(3), m.group(4))
        elif m.group(4): ns.append((m.group(3), m.group(4)))
    return words, ns, nots
def refactor(text, spec):
    words, ns, nots = load(spec) if isinstance(spec, str) else spec
    def rep(m):
        t = m.group(0)
        if t in nots: return t
        if t in words: return words[t]
        for a, b in ns:
            if t.startswith(a): return b + t[len(a):]
        return t
    return re.sub(r'[A-Za-z0-9_]+', rep, text)
if __name__ == '__main__':
    src, spec = [], None
    for a in sys.argv[1:]:
        if a.startswith('-src='): src.append(a[5:])
        elif a.startswith('-spec='): spec = a[6:]
    for f in src:
        s = open(f, encoding='latin1', newline='').read(); open(f, 'w', encoding='latin1', newline='').write(refactor(s, spec))
