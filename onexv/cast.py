"""Clang AST of the current /repo sources: run clang, cut out the declarations that live in /repo."""
import json, mmap, os, re, subprocess, sys, tempfile, hashlib
from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor

REPO = os.environ.get('ONEX_REPO', '/repo')

TOP = re.compile(rb'\n    \{\n')
FILE = re.compile(rb'"file": "([^"]*)"')

def gen_config(d):
    """config.hpp exactly as CMake generates it (SINGLE_PRECISION off, the build's default)."""
    src = open(os.path.join(REPO, 'config.hpp.in')).read()
    out = re.sub(r'#cmakedefine\s+(\w+).*', r'/* #undef \1 */', src)
    out = re.sub(r'@(\w+)@', '0', out)
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, 'config.hpp')
    if not os.path.exists(p) or open(p).read() != out:
        open(p, 'w').write(out)

def sources():
    r = []
    for base in ('src', 'cli'):
        for dp, dn, fn in os.walk(os.path.join(REPO, base)):
            dn.sort()
            for f in sorted(fn):
                if f.endswith(('.cpp', '.cc', '.cxx')):
                    r.append(os.path.join(dp, f))
    return r

class AstError(Exception):
    pass

def dump_tu(args):
    path, cfg = args
    cmd = ['clang++-18', '-w', '-std=c++11', '-fsyntax-only', '-I' + os.path.join(REPO, 'src'), '-I' + cfg, '-I' + REPO,
           '-Xclang', '-ast-dump=json', path]
    fd, tmp = tempfile.mkstemp(suffix='.ast', dir=cfg)
    try:
        with os.fdopen(fd, 'wb') as f:
            p = subprocess.run(cmd, stdout=f, stderr=subprocess.PIPE)
        if p.returncode != 0:
            raise AstError('%s: %s' % (path, p.stderr.decode(errors='replace')[:2000]))
        with open(tmp, 'rb') as f:
            m = mmap.mmap(f.fileno(), 0, access=mmap.ACCESS_READ)
            starts = [x.start() + 1 for x in TOP.finditer(m)]
            files = [(x.start(), x.group(1).decode()) for x in FILE.finditer(m)
                     if not x.group(1).startswith(b'<') and b'"includedFrom"' not in m[max(0, x.start() - 60):x.start()]]
            out = []
            fi = 0
            cur = ''
            n = len(starts)
            for k, s in enumerate(starts):
                e = starts[k + 1] if k + 1 < n else m.rfind(b'\n  ]\n')
                while fi < len(files) and files[fi][0] < s:
                    cur = files[fi][1]; fi += 1
                # file of this decl: the first "file" inside its loc if any, else the current one
                first = None
                j = fi
                # the decl's own loc comes first in the chunk, before any inner node
                inner = m.find(b'"inner"', s, e)
                lim = inner if inner != -1 else e
                if j < len(files) and files[j][0] < lim:
                    first = files[j][1]
                f0 = first or cur
                if f0.startswith(REPO + '/'):
                    txt = m[s:e].rstrip().rstrip(b',')
                    out.append((cur, json.loads(txt)))
            m.close()
        return path, out
    finally:
        os.unlink(tmp)

def annotate(node, state):
    """Propagate the file name and give every node '_f','_o' (file, offset) in document order."""
    def loc(l):
        if not isinstance(l, dict):
            return
        for k, v in l.items():
            if k == 'file':
                if not v.startswith('<'): state['f'] = v
            elif k in ('spellingLoc', 'expansionLoc', 'begin', 'end') and isinstance(v, dict):
                loc(v)
    def first_off(l):
        if not isinstance(l, dict): return None
        if 'expansionLoc' in l: return l['expansionLoc'].get('offset')
        if 'begin' in l: return first_off(l['begin'])
        return l.get('offset')
    if 'loc' in node: loc(node['loc'])
    if 'range' in node: loc(node['range'])
    node['_f'] = state['f']
    node['_o'] = first_off(node.get('range')) or first_off(node.get('loc'))
    for c in node.get('inner', ()):
        if isinstance(c, dict):
            annotate(c, state)

def load(cfgdir):
    gen_config(cfgdir)
    srcs = sources()
    with ProcessPoolExecutor(8) as ex:
        res = list(ex.map(dump_tu, [(s, cfgdir) for s in srcs]))
    tus = {}
    for path, chunks in res:
        decls = []
        for cur, n in chunks:
            annotate(n, {'f': cur})
            decls.append(n)
        tus[path] = decls
    return tus

def show(n, ind=0, out=None):
    """Compact text form, for debugging."""
    if n.get('kind') in ('FullComment',) or not n: return
    bits = [n.get('kind', '?')]
    for k in ('name', 'opcode', 'value', 'castKind', 'valueCategory', 'elidable', 'isArrow', 'isPostfix', 'isArray', 'isImplicit', 'storageDuration','isArrayAsWritten', 'init', 'hadMultipleCandidates', 'list'):
        if k in n and n[k] is not False and k not in ('valueCategory',): bits.append('%s=%s' % (k, n[k]))
    if 'type' in n: bits.append('T<%s>' % (n['type'].get('desugaredQualType') or n['type'].get('qualType')))
    if 'referencedDecl' in n: bits.append('REF<%s %s %s>' % (n['referencedDecl'].get('kind'), n['referencedDecl'].get('name'), n['referencedDecl'].get('type', {}).get('qualType')))
    if 'anyInit' in n: bits.append('INIT<%s>' % n['anyInit'].get('name'))
    if 'baseInit' in n: bits.append('BASE<%s>' % n['baseInit'].get('qualType'))
    print('  ' * ind + ' '.join(map(str, bits)))
    for c in n.get('inner', ()):
        show(c, ind + 1)

if __name__ == '__main__':
    import time, collections
    t = time.time()
    sys.setrecursionlimit(100000)
    tus = load('/tmp/w/cfg')
    print(time.time() - t)
    cnt = collections.Counter()
    def walk(n):
        cnt[n.get('kind')] += 1
        for c in n.get('inner', ()):
            walk(c)
    for p, ds in tus.items():
        print(p, len(ds), [d.get('name') for d in ds][:60])
        for d in ds: walk(d)
    for k, v in cnt.most_common(): print(k, v)
