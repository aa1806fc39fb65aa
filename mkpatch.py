"""
Write seeded/<id>/ from edits: python3 mkpatch.py SPEC.py; SPEC defines a list
SEEDS of dicts: id, property, needs, breaks, edits [(file, old, new[, True for the last occurrence])], demo
(python source).
"""
import json
import os
import runpy
import subprocess
import sys
import tempfile

here = os.path.dirname(os.path.abspath(__file__))
for seed in runpy.run_path(sys.argv[1])['SEEDS']:
    dd = os.path.join(here, 'seeded', seed['id'])
    os.makedirs(dd, exist_ok=True)
    patch = ''
    files = {}
    for fname, old, new, *last in seed['edits']:
        txt = files.setdefault(fname, open('/repo/' + fname).read())
        if last: # The last occurrence.
            files[fname] = new.join(txt.rsplit(old, 1))
        else:
            assert txt.count(old) == 1, (seed['id'], fname, txt.count(old))
            files[fname] = txt.replace(old, new)
        # The changed lines have to come from the original repository.
        first = open('/repo/' + fname).read().rsplit(old, 1)[0].count('\n') + 1
        blame = subprocess.run(
            ['git', '-C', '/repo', 'blame', '-s', '-L',
             '%d,%d' % (first, first + old.rstrip('\n').count('\n')), fname],
            capture_output=True, text=True).stdout
        own = [ll for ll in blame.split('\n') if ll and ll[0] != '^']
        if own:
            print(seed['id'], 'own lines:', own)
    with tempfile.TemporaryDirectory() as tmp:
        for fname, txt in files.items():
            for side in 'ab':
                path = os.path.join(tmp, side, fname)
                os.makedirs(os.path.dirname(path), exist_ok=True)
                with open(path, 'w') as fd:
                    fd.write(txt if side == 'b'
                             else open('/repo/' + fname).read())
            out = subprocess.run(['diff', '-u', 'a/' + fname, 'b/' + fname],
                                 cwd=tmp, capture_output=True, text=True)
            patch += 'diff --git a/%s b/%s\n' % (fname, fname) + '\n'.join(
                line.split('\t')[0] if line.startswith(('--- ', '+++ '))
                else line for line in out.stdout.split('\n'))
    with open(os.path.join(dd, 'patch.diff'), 'w') as fd:
        fd.write(patch)
    with open(os.path.join(dd, 'demo.py'), 'w') as fd:
        fd.write('import os, sys\nsys.path.insert(0, os.getcwd())\n'
                 + seed['demo'].lstrip())
    with open(os.path.join(dd, 'demo.sh'), 'w') as fd:
        fd.write('#!/bin/bash\nexport PATH=/opt/venv/bin:$PATH'
                 ' PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore\n'
                 'exec python "$(dirname "$0")/demo.py"\n')
    with open(os.path.join(dd, 'meta.json'), 'w') as fd:
        json.dump({'property': seed['property'], 'needs': seed['needs'],
                   'what_it_breaks': seed['breaks']}, fd, indent=1)
        fd.write('\n')
    print(seed['id'])
