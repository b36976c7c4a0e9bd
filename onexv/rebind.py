"""Keeps specifications attached when local variables, parameters, fields or functions are renamed."""
import json, os, difflib
from ctypes_ import *

def locals_of(f):
    out = []
    def walk(n):
        if n.get('kind') in ('LambdaExpr',): return
        if n.get('kind') == 'VarDecl' and n.get('name') and not n['name'].startswith('__'):
            out.append([n['name'], n['type'].get('desugaredQualType') or n['type']['qualType']])
        for c in n.get('inner', ()):
            if isinstance(c, dict): walk(c)
    if f.body: walk(f.body)
    return out

def sig(f):
    return [f.cls or '', f.kind, repr(f.ret), [repr(strip_ref(p[1])) for p in f.params]]

def snapshot(prog):
    b = {'locals': {}, 'fields': {}, 'funcs': {}}
    for k, f in prog.funcs.items():
        if f.body is not None: b['locals'][k] = locals_of(f)
        if not f.implicit: b['funcs'][k] = sig(f)
    for c in prog.classes.values():
        b['fields'][c.name] = [[f.name, repr(f.t)] for f in c.fields]
    return b

def align(old, new):
    """Old name -> new name for names that disappeared."""
    on = [x[0] for x in old]; nn = [x[0] for x in new]
    gone = [x for x in old if x[0] not in nn]
    fresh = [x for x in new if x[0] not in on]
    r = {}
    # same position, same type
    if len(old) == len(new):
        for o, n in zip(old, new):
            if o[0] != n[0] and o in gone and n in fresh and o[1] == n[1]: r.setdefault(o[0], n[0])
    for o in gone:
        if o[0] in r: continue
        c = [n for n in fresh if n[1] == o[1] and n[0] not in r.values()]
        k = [g for g in gone if g[1] == o[1] and g[0] not in r]
        if len(c) >= 1 and len(set(x[0] for x in c)) == len(set(x[0] for x in k)): r[o[0]] = c[0][0]
    return r

def apply(w, path):
    if not os.path.exists(path): return
    b = json.load(open(path))
    prog, sp = w.p, w.spec
    # functions
    for n in list(sp.unattached):
        s = sp.funcs[n]
        olds = [k for k in b['funcs'] if (k == n or k.split('(')[0] == n) and k not in prog.funcs and len(b['funcs'][k][3]) == len(s.params)]
        if len(olds) != 1: continue
        c = [f for k, f in prog.funcs.items() if k not in b['funcs'] and not f.implicit and sig(f) == b['funcs'][olds[0]] and (f.body is not None or f.inits)
             and k not in sp.bykey]
        if len(c) == 1:
            sp.bykey[c[0].key] = s; sp.unattached.remove(n)
            c[0].was = olds[0]
    # fields
    for c in prog.classes.values():
        old = b['fields'].get(c.name)
        if not old: continue
        m = align(old, [[f.name, repr(f.t)] for f in c.fields])
        if not m: continue
        back = {v: k for k, v in m.items()}
        for f in c.fields:
            if f.name in back:
                g = 'f_%s_%s' % (c.name, f.name)
                t = w.fields_used.pop(g, None)
                f.cxxname = f.name
                f.name = back[f.name]
                if t is not None: w.fields_used['f_%s_%s' % (c.name, f.name)] = t
        for k, v in list(prog.ids.items()):
            if v[0] == 'field' and v[1] == c.name and v[2] in back: prog.ids[k] = ('field', c.name, back[v[2]])
        w.field_back = getattr(w, 'field_back', {})
        w.field_back[c.name] = back
    # locals
    for k, s in sp.bykey.items():
        f = prog.funcs[k]
        old = b['locals'].get(getattr(f, 'was', k))
        if old is None or f.body is None: continue
        m = align(old, locals_of(f))
        if m: w.renames[k] = m

if __name__ == '__main__':
    import sys
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import dev
    prog, sp, w = dev.setup()
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'baseline.json')
    json.dump(snapshot(prog), open(p, 'w'), indent=0, sort_keys=True)
    print('baseline of', len(prog.funcs), 'functions')
