#!/usr/bin/env python3
"""mut.py CHECK < spec: quick mutants, each '@@@ name' then blocks of
'@@ file' / old / ==== / new; prints what the check says for each (checked
that it compiles).  Scratch copies in /tmp/mut.*"""
import sys, os, subprocess, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
check = sys.argv[1].split(',')
jobs = int(os.environ.get('J', '6'))
def one(m):
    name, body = m.split('\n', 1)
    d = tempfile.mkdtemp(prefix='mut.')
    try:
        for x in ('src', 'include', 'CMakeLists.txt'):
            s = '/repo/' + x
            shutil.copytree(s, d + '/' + x) if os.path.isdir(s) else shutil.copy(s, d)
        for part in ('\n' + body).split('\n@@ ')[1:]:
            f, b = part.split('\n', 1)
            old, new = b.split('\n====\n') if '\n====\n' in b else (b.split('\n====')[0], '')
            old, new = old.rstrip('\n'), new.rstrip('\n')
            p = d + '/' + f.strip()
            t = open(p).read()
            if t.count(old) != 1:
                return name + ': BAD MUTANT (%d matches)' % t.count(old)
            open(p, 'w').write(t.replace(old, new))
        out = name + ':'
        for c in check:
            r = subprocess.run(['python3', '-m', 'vf.check', c, os.environ.get('TIER', 'quick')],
                           cwd='/verif', capture_output=True, text=True, timeout=900,
                           env=dict(os.environ, VF_REPO=d, VF_EVIDENCE=d + '/ev'))
            o = [l for l in r.stdout.splitlines() if l.strip()]
            out += ' [%s rc=%d] %s' % (c, r.returncode, (o[0] if o else r.stderr[-200:])[:170])
        return out
    finally:
        shutil.rmtree(d)
ms = ('\n' + sys.stdin.read()).split('\n@@@ ')[1:]
with ThreadPoolExecutor(jobs) as ex:
    for r in ex.map(one, ms):
        print(r, flush=True)
