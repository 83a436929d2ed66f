#!/usr/bin/python3
"""List the fix: commits of /repo in known_findings.txt (property ids from the table below)."""
import subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = [l.rstrip('\n').split('\t') for l in open(V + '/meta/fixes.tsv')]
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines()
out = []
for l in log:
    h, s = l.split(' ', 1)
    if not s.startswith('fix:'): continue
    p = [a for a, b in T if b in s]
    assert len(p) == 1, (s, p)
    out.append('fixed: property=%s %s %s' % (p[0], h, s[4:].strip()))
out += [l.rstrip('\n') for l in open(V + '/meta/open_findings.txt')]
open(V + '/known_findings.txt', 'w').write('\n'.join(out) + '\n')
