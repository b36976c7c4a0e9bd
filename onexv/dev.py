"""Development driver: verify functions/lemmas by name."""
import sys, os, time, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import cast, model, specs, trans, units, prove
HERE = os.path.dirname(os.path.abspath(__file__))
def setup():
    import pickle
    cfg = '/tmp/w/cfg'; os.makedirs(cfg, exist_ok=True)
    import hashlib
    h = hashlib.sha1(b''.join(open(f,'rb').read() for f in cast.sources())+open(os.path.join(HERE,'cast.py'),'rb').read()).hexdigest()
    pk = '/tmp/w/ast_%s.pkl' % h
    if os.path.exists(pk): tus = pickle.load(open(pk,'rb'))
    else:
        tus = cast.load(cfg); pickle.dump(tus, open(pk,'wb'))
    prog = model.Program(tus)
    sp = specs.Spec(os.path.join(HERE, 'spec')).attach(prog)
    w = trans.World(prog, sp)
    w.dispatch_func()
    return prog, sp, w
def main():
    prog, sp, w = setup()
    print('unattached:', sp.unattached)
    lk = units.Linker(w)
    us = []
    for n in sys.argv[1:]:
        if n in sp.items: us.append(lk.unit_of_lemma(sp.items[n]))
        else:
            f = [k for k, s in sp.bykey.items() if s.name == n or k == n][0]
            t = w.translate(prog.funcs[f])
            us.append(lk.unit_of(t))
    for u in us:
        wd = '/tmp/w/u_' + ''.join(c if c.isalnum() else '_' for c in u.name)[:60]
        t0 = time.time()
        obs = prove.gen_vcs(u, wd)
        print('==', u.name, len(obs), 'obligations', wd, '%.1fs' % (time.time() - t0))
        if os.environ.get('ONLY'):
            import re; obs = [o for o in obs if re.search(os.environ['ONLY'], o.kind + ' ' + o.label)]
        prove.discharge(obs, None, 8, prove.DEV)
        for o in obs:
            if o.status != 'proved': print('  FAIL', o.line, o.name, o.file, o.tried)
        sl = sorted(obs, key=lambda o: -o.time)[:3]
        print('   proved %d/%d  slowest %s  %.1fs' % (sum(o.status == 'proved' for o in obs), len(obs), [(o.label, o.solver, round(o.time, 1)) for o in sl], time.time() - t0))
main() if __name__ == '__main__' else None
