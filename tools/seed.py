#!/usr/bin/env python3
"""Makes and tries planted bugs. seed.py make ID PROP FILE 'old' 'new' [needs] [what] writes /verif/seeded/ID/patch.diff and meta.json;
seed.py try ID... applies each to /repo, builds, tests, runs the demo and the check, and undoes it."""
import sys, os, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = '/repo'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def make(i, prop, edits, needs, what):
    d = os.path.join(V, 'seeded', i); os.makedirs(d, exist_ok=True)
    assert not sh('git -C %s status --porcelain' % R).stdout.strip(), 'repo not clean'
    try:
        for f, old, new in edits:
            p = os.path.join(R, f); s = open(p).read()
            assert s.count(old) == 1, (i, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git -C %s diff' % R).stdout
        base = sh('git -C %s show 749d3b7:%s' % (R, edits[0][0])).stdout
        orig = [l[1:] for l in diff.split('\n') if l.startswith('-') and not l.startswith('---')]
        hit = [l for f, _, _ in edits for l in orig if l in sh('git -C %s show 749d3b7:%s' % (R, f)).stdout.split('\n')]
        if not hit: print('WARNING %s changes no original line' % i)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    finally: sh('git -C %s checkout -- .' % R)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
def attempt(i, checks=None):
    d = os.path.join(V, 'seeded', i); prop = json.load(open(d + '/meta.json'))['property']
    t = tempfile.mkdtemp(); shutil.copytree(d, t + '/s'); os.remove(t + '/s/patch.diff'); os.remove(t + '/s/meta.json')
    r = {}
    try:
        sh('bash /opt/vp/build.sh')
        r['demo clean'] = sh('bash %s/s/demo.sh' % t, cwd=R, timeout=300).returncode
        a = sh('git -C %s apply %s/patch.diff' % (R, d))
        if a.returncode: r['apply'] = a.stderr; return r
        b = sh('bash /opt/vp/build.sh')
        if b.returncode: r['build'] = b.stderr[-500:]; return r
        o = sh('bash /opt/vp/test.sh %s/out.json' % t)
        j = json.load(open(t + '/out.json')); base = json.load(open('/opt/vp/BASELINE.json'))
        st = base.get('stable') or base.get('passed') or base
        r['failed tests'] = [x for x in (st if isinstance(st, list) else []) if x not in j['passed']][:5] or len(j['failed'])
        r['demo bug'] = sh('bash %s/s/demo.sh' % t, cwd=R, timeout=300).returncode
        for p in checks or [prop]:
            c = sh('VERIF_SEED=1 VERIF_TIER=quick python3 onexv/check.py --property %s' % p, cwd=V)
            r['check ' + p] = (c.returncode, [l for l in c.stdout.split('\n') if 'VIOLATION' in l or 'held' in l or 'violated in' in l or l.startswith('what')], c.stderr[-300:])
    finally:
        sh('git -C %s checkout -- .' % R); sh('bash /opt/vp/build.sh'); shutil.rmtree(t)
    return r
if __name__ == '__main__':
    for i in sys.argv[2:]: print(i, json.dumps(attempt(i), indent=1), flush=True)
