#!/usr/bin/env python3
"""List the planted bugs that remove no line of the original repository
(development only)."""
import os, re, subprocess, sys
REPO = '/repo'
D = os.environ.get('SEEDED', '/verif/seeded')
mine = set(subprocess.check_output(['git', '-C', REPO, 'log', '--format=%h', '--abbrev=40', 'ac14c3c..HEAD'], text=True).split())
blame = {}
def own(f):
    if f not in blame:
        blame[f] = [l.split()[0] in mine for l in subprocess.check_output(
            ['git', '-C', REPO, 'blame', '-l', '-s', '--root', 'HEAD', '--', f], text=True).splitlines()]
    return blame[f]
for id in sorted(os.listdir(D)):
    orig = add_near = 0
    f = None
    for l in open(f'{D}/{id}/patch.diff'):
        l = l.rstrip('\n')
        if l.startswith('--- a/'):
            f = l[6:]
        elif l.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-') and not l.startswith('---'):
            if l[1:].strip() and not own(f)[n - 1]: orig += 1
            n += 1
        elif l.startswith('+') and not l.startswith('+++'):
            o = own(f)
            if not (o[n - 2] and o[min(n - 1, len(o) - 1)]): add_near += 1
        elif l.startswith(' ') or l == '':
            n += 1
    if not orig:
        print(id, 'removes no original line;', 'adds %d lines in original code' % add_near)
