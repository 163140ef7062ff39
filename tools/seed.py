"""seed.py ID PROPERTY FILE 'old' 'new' needs breaks : make seeded/ID/patch.diff and meta.json from a textual edit (demo.sh is written by hand)"""
import json, os, subprocess, sys
def make(i, prop, edits, needs, breaks):
    W = '/tmp/sw/repo'
    subprocess.check_call(['git', '-C', W, 'checkout', '-q', '--', '.'])
    for f, old, new in edits:
        p = os.path.join(W, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, old, s.count(old))
        open(p, 'w').write(s.replace(old, new))
    d = '/verif/seeded/' + i
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', W, 'diff']).decode())
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    subprocess.check_call(['git', '-C', W, 'checkout', '-q', '--', '.'])
