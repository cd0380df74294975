#!/usr/bin/env python3
"""mkseed.py ID PROPERTY < spec: write /verif/seeded/ID/patch.diff.
spec: lines '@@ file', then old text, '====', new text, repeated."""
import sys, os, subprocess, difflib, json
ID, prop = sys.argv[1:3]
d = '/verif/seeded/' + ID
os.makedirs(d, exist_ok=True)
spec = sys.stdin.read()
files = {}
meta = {}
for part in ('\n' + spec).split('\n@@ ')[1:]:
    head, body = part.split('\n', 1)
    head = head.strip()
    if head in ('needs', 'breaks'):
        meta[head] = ' '.join(body.split())
        continue
    old, new = body.split('\n====\n')
    new = new.rstrip('\n'); old = old.rstrip('\n')
    t = files.get(head) or open('/repo/' + head).read()
    assert t.count(old) == 1, (head, t.count(old), old)
    files[head] = t.replace(old, new)
out = ''
for f, t in sorted(files.items()):
    a = open('/repo/' + f).read()
    out += ''.join(difflib.unified_diff(a.splitlines(1), t.splitlines(1),
                                        'a/' + f, 'b/' + f))
open(d + '/patch.diff', 'w').write(out)
json.dump({'property': prop, 'needs': meta.get('needs', ''),
           'what_it_breaks': meta.get('breaks', '')},
          open(d + '/meta.json', 'w'), indent=1)
