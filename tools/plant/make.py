#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from bugs.py and confirms each bug in a scratch copy of /repo:
it builds, the tests pass, the demonstration passes without it and fails with it.   make.py [id ...]"""
import json, os, subprocess, sys, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs import BUGS
HERE = os.path.dirname(os.path.abspath(__file__)); OUT = '/verif/seeded'; S = '/tmp/plant'
def sh(c, cwd=None): return subprocess.run(['bash', '-c', c], cwd=cwd, capture_output=True, text=True)
def main():
    want = sys.argv[1:]
    shutil.rmtree(S, ignore_errors=True); os.makedirs(S)
    sh('cp -a /repo %s/repo' % S)
    base = sh('git rev-list --max-parents=0 HEAD', '/repo').stdout.split()
    orig = '531cb6e'
    ok = True
    for b in BUGS:
        i = b['id']
        if want and i not in want: continue
        r = S + '/repo'; d = OUT + '/' + i
        sh('git checkout -q -- .', r)
        bad = None
        for f, old, new in b['edits']:
            p = r + '/' + f; s = open(p).read()
            if s.count(old) != 1: bad = 'edit of %s matches %d times' % (f, s.count(old)); break
            open(p, 'w').write(s.replace(old, new))
        if bad: print(i, 'FAILED', bad); ok = False; continue
        os.makedirs(d, exist_ok=True)
        diff = sh('git diff', r).stdout
        open(d + '/patch.diff', 'w').write(diff)
        # changed lines have to be lines of the original repository
        own = []
        for f, old, new in b['edits']:
            for l in sh('git diff -U0 -- %s' % f, r).stdout.splitlines():
                if l.startswith('@@'):
                    a = l.split()[1][1:].split(','); st = int(a[0]); n = int(a[1]) if len(a) > 1 else 1
                    if n: own += [x for x in sh('git blame -s -L %d,+%d HEAD -- %s' % (st, n, f), r).stdout.splitlines() if not x.startswith('^') and orig not in x[:9]]
        open(d + '/demo.rs', 'w').write('mod common;\nuse common::*;\n' + b['demo'].strip() + '\n')
        shutil.copy(HERE + '/common.rs', d); shutil.copy(HERE + '/demo.sh', d)
        json.dump({k: b[k] for k in ('property', 'needs', 'what_it_breaks')}, open(d + '/meta.json', 'w'), indent=1)
        t = sh('. /opt/vp/env.sh; cargo test --workspace --no-fail-fast --offline -- --test-threads 8 2>&1', r).stdout
        passed = sum(int(x.split()[3]) for x in t.splitlines() if x.startswith('test result'))
        sh('rm -rf %s/d; cp -a %s %s/d; sed -i s,/repo,%s,g %s/d/demo.sh' % (S, d, S, r, S))
        w = sh('bash %s/d/demo.sh' % S, r)
        sh('git checkout -q -- .; git clean -fdq sample_files', r)
        c = sh('bash %s/d/demo.sh' % S, r)
        good = passed == 35 and w.returncode != 0 and c.returncode == 0 and 'error' not in w.stdout.split('panicked')[0] 
        ok &= good
        print(i, b['property'], 'ok' if good else 'FAILED', 'tests', passed, 'demo clean', c.returncode, 'patched', w.returncode, 'OWN LINES' + str(own) if own else '', '' if good else c.stdout[-300:] + w.stdout[-300:], flush=True)
    shutil.rmtree(S, ignore_errors=True)
    sys.exit(0 if ok else 1)
main()
