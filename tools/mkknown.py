#!/usr/bin/env python3
"""Writes known_findings.json: recorded findings (below) and one entry per fix commit of /repo."""
import json, os, subprocess, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(R, 'tools', 'known_src.py')).read())
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h%x09%s'], text=True).splitlines()
fixed = []
for l in log:
    h, s = l.split('\t')
    if not s.startswith('fix:'): continue
    s = re.sub(r'^(fix: )+', '', s)
    m = re.search(r'\[(P\d\d)\]', s)
    files = subprocess.check_output(['git', '-C', '/repo', 'show', '--name-only', '--format=', h], text=True)
    dep = [x for x in files.split() if '/components/' not in x] or [files]
    p = next((p for rx, p in PROP if re.search(rx, s) and not (p in ('P04', 'P02') and dep != [files])), None) or next((p for rx, p in FILES if any(re.search(rx, x) for x in dep)), 'P01')
    fixed.append('fixed: property=%s %s %s' % (p, h, s))
json.dump(dict(findings=KNOWN, fixed=fixed), open(os.path.join(R, 'known_findings.json'), 'w'), indent=1)
print(len(KNOWN), 'known', len(fixed), 'fixed')
