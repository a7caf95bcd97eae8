#!/usr/bin/env python3
"""mkseed.py ID PROP FILE 'old' 'new' needs breaks  (old/new read from files @path) -- writes seeded/ID/patch.diff and meta.json"""
import json, os, subprocess, sys, tempfile
def mk(id, prop, edits, needs, breaks):
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    subprocess.run(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', t + '/w', 'HEAD'], check=True)
    try:
        for f, old, new in edits:
            p = t + '/w/' + f
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', t + '/w', 'diff'], stdout=subprocess.PIPE, text=True, check=True).stdout
    finally:
        subprocess.run(['git', '-C', '/repo', 'worktree', 'remove', '--force', t + '/w'], check=True)
        os.rmdir(t)
    open(d + '/patch.diff', 'w').write(diff)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    import shutil
    for x in ('mini.py', 'demo.sh'):
        shutil.copy('/verif/tools/seedlib/' + x, d)
