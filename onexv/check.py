#!/usr/bin/env python3
"""Check of one property: translate /repo's current source, generate and discharge the proof obligations of its
functions, and search for concrete failing inputs on the real code."""
import sys, os, json, time, argparse, tempfile, shutil, subprocess, threading, hashlib, re, signal
sys.setrecursionlimit(100000)
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import cast, model, specs, trans, units, prove, rebind
from ctypes_ import Unsupported
from concurrent.futures import ThreadPoolExecutor

REPO = cast.REPO
HARN = os.path.join(VERIF, 'harness')

class Timer:
    def __init__(self): self.t0 = time.time()
    def __call__(self): return time.time() - self.t0

# ------------------------------------------------------------------ concrete search
class Harness:
    """The real code, compiled with sanitizers together with the harness."""
    def __init__(self, tmp, prop):
        self.tmp, self.prop = tmp, prop
        self.bin = os.path.join(tmp, 'harness')
        self.error = None
        self.names = PLAN[prop].get('harness', [])

    def build(self):
        b = os.path.join(self.tmp, 'hb'); os.makedirs(b, exist_ok=True)
        cast.gen_config(b)
        srcs = [os.path.join(d, f) for d, _, fs in os.walk(os.path.join(REPO, 'src')) for f in fs if f.endswith('.cpp')]
        hs = ['main.cpp'] + PLAN[self.prop].get('hsrc', [])
        if PLAN[self.prop].get('cli'):
            cd = os.path.join(REPO, 'cli')
            srcs += [os.path.join(cd, f) for f in os.listdir(cd) if f.endswith('.cpp')]
        jobs = [(s, ['-std=c++11'] + (['-Dmain=onex_cli_main'] if '/cli/' in s else [])) for s in srcs] + [(os.path.join(HARN, h), ['-std=c++14']) for h in hs]
        def comp(a):
            i, (s, fl) = a
            o = os.path.join(b, '%d.o' % i)
            cmd = ['g++', '-O1', '-g1', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS'] + fl + \
                  ['-I' + b, '-I' + os.path.join(REPO, 'src'), '-I' + REPO, '-I' + os.path.join(REPO, 'cli'), '-I' + HARN, '-c', s, '-o', o]
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode: raise RuntimeError('compiling %s: %s' % (s, r.stderr[:1500]))
            return o
        try:
            with ThreadPoolExecutor(8) as ex: objs = list(ex.map(comp, enumerate(jobs)))
            r = subprocess.run(['g++', '-fsanitize=address,undefined'] + objs + ['-o', self.bin, '-pthread'], capture_output=True, text=True)
            if r.returncode: raise RuntimeError('linking: ' + r.stderr[:1500])
        except RuntimeError as e:
            self.error = str(e)

    def one(self, name, seed, first, count, secs, tag):
        pf = os.path.join(self.tmp, 'progress_%s' % tag)
        sd = os.path.join(self.tmp, 'scratch_%s' % tag); os.makedirs(sd, exist_ok=True)
        try:
            r = subprocess.run([self.bin, name, str(seed), str(first), str(count), str(secs), pf, sd], capture_output=True, text=True, errors='replace',
                               timeout=(secs or 100) + 80, cwd=sd)
            out, err, rc = r.stdout, r.stderr, r.returncode
        except subprocess.TimeoutExpired as e:
            out, err, rc = '', 'no answer', -1
        if rc == 0: return None, out
        if rc in (2, 3) and 'FAIL' not in out: raise RuntimeError('harness %s: exit %d %s %s' % (name, rc, out[-300:], err[-300:]))
        try: k = int(open(pf).read().strip())
        except Exception: k = first
        if 'FAIL case=' in out: what = out[out.index('FAIL'):]
        elif rc == -signal.SIGALRM: what = 'case=%d did not finish within 60 s' % k
        else: what = 'case=%d stopped the program (exit %d)\n%s' % (k, rc, err[:6000])
        return {'name': name, 'seed': seed, 'case': k, 'what': what}, out

    def search(self, seed, secs, procs, first=0):
        """Run all harness parts for the given time; returns (failure or None, stats)."""
        stats = {'cases': 0, 'nontrivial': 0, 'samples': []}
        jobs = []
        per = max(1.0, secs * procs / max(1, len(self.names)))
        n = max(1, procs // max(1, len(self.names)))
        for nm in self.names:
            for k in range(n): jobs.append((nm, seed * 100 + k + first))
        t = max(1.0, secs if len(jobs) <= procs else secs * procs / len(jobs))
        fail = None
        with ThreadPoolExecutor(procs) as ex:
            for f, out in ex.map(lambda j: self.one(j[0], j[1], 0, 10**9, t, '%s_%d' % j), jobs):
                if f and not fail: fail = f
                for l in out.split('\n'):
                    m = re.match(r'^OK cases=(\d+) nontrivial=(\d+)', l)
                    if m: stats['cases'] += int(m.group(1)); stats['nontrivial'] += int(m.group(2))
                    elif l.startswith('SAMPLE ') and len(stats['samples']) < 3: stats['samples'].append(l[7:])
        return fail, stats

# ------------------------------------------------------------------ proof part
PLAN = json.load(open(os.path.join(HERE, 'plan.json')))
PENDING = set(PLAN.get('_pending', []))      # contracts whose proof is not finished: assumed, and said so
PLAN = {k: v for k, v in PLAN.items() if not k.startswith('_')}

def tagged(sp, prop):
    """Specs that carry a clause of the property."""
    r = []
    for n, s in sp.funcs.items():
        cl = s.ensures + [c[1:] for c in s.exc] + [i for l in s.loops.values() for i in l.invariants] + s.requires
        if any(prop in t.split(',') for _, t, _ in cl): r.append(n)
    return r

class Proof:
    def __init__(self, prop, tmp, log):
        self.prop, self.tmp, self.log = prop, tmp, log
        self.undecided = []      # (function, why) outside the verifier's reach in this tree
        self.units = []
        self.obs = []
        self.assumed = set()

    def load(self):
        tus = cast.load(self.tmp)
        self.prog = model.Program(tus)
        self.sp = specs.Spec(os.path.join(HERE, 'spec')).attach(self.prog)
        self.w = trans.World(self.prog, self.sp)
        self.w.dispatch_func()
        rebind.apply(self.w, os.path.join(HERE, 'baseline.json'))

    def collect(self):
        prop = self.prop
        names = tagged(self.sp, prop)
        for n in names:
            if n in self.sp.unattached: self.undecided.append((n, 'no function of this name and arity'))
        keys = {s.name: k for k, s in self.sp.bykey.items()}
        lk = units.Linker(self.w)
        todo = [keys[n] for n in names if n in keys]
        seen = set()
        lemmas = set(n for n, it in self.sp.items.items() if it.kind == 'lemma' and re.search(r'\[@expl:[^|\]]*\b%s\b' % prop, it.text))
        while todo:
            k = todo.pop()
            if k in seen: continue
            seen.add(k)
            f = self.prog.funcs[k]
            if self.sp.for_func(f).name in PENDING: self.assumed.add('contract of %s (its proof is not finished)' % k); continue
            if self.sp.for_func(f).trusted: self.assumed.add('contract of %s: %s' % (k, self.sp.for_func(f).trusted)); continue
            try:
                t = self.w.translate(f)
                u = lk.unit_of(t)
            except Exception as e:
                self.undecided.append((k, '%s: %s' % (type(e).__name__, e)))
                self.w.stack.clear()
                continue
            self.units.append(u)
            todo += [c for c in t.calls if c in self.prog.funcs]
            lemmas |= set(x for x in u.syms if x in self.sp.items and self.sp.items[x].kind == 'lemma')
        done = set()
        lt = list(lemmas)
        while lt:
            n = lt.pop()
            if n in done: continue
            done.add(n)
            u = lk.unit_of_lemma(self.sp.items[n])
            self.units.append(u)
            lt += [x for x in u.syms if x in self.sp.items and self.sp.items[x].kind == 'lemma']
        for u in self.units:
            for x in u.syms:
                it = self.sp.items.get(x)
                if it is not None and it.kind in ('axiom', 'assume', 'val'): self.assumed.add('%s %s' % (it.kind, x))

    def generate(self):
        def go(i):
            u = self.units[i]
            try:
                return u, prove.gen_vcs(u, os.path.join(self.tmp, 'u%d' % i)), None
            except prove.VCError as e:
                return u, None, e
        order = sorted(range(len(self.units)), key=lambda i: -len(self.units[i].text))
        with ThreadPoolExecutor(8) as ex: res = [x for _, x in sorted(zip(order, ex.map(go, order)), key=lambda p: p[0])]
        self.stats = {}
        for u, obs, e in res:
            if e is not None:
                if u.kind == 'lemma': raise e
                self.undecided.append((u.name, 'verifier refused the translation: %s' % str(e)[:500]))
                continue
            mine = [o for o in obs if not o.tags or self.prop in o.tags]
            self.stats[u.name] = (len(mine), len(obs))
            self.obs += mine

    def discharge(self, deadline, hints, schedule=None, stop=None):
        todo = [o for o in self.obs if o.status != 'proved']
        prove.discharge(todo, hints, 8, schedule, deadline, stop=stop)
        return [o for o in self.obs if o.status != 'proved']

def load_known(prop):
    r = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'^known: property=(\w+) case=(\S+) (.*)$', l.strip())
            if m and m.group(1) == prop: r.append((m.group(2), m.group(3)))
    return r

def write_replay(prop, tag, text):
    d = os.path.join(VERIF, 'replay'); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s.txt' % (prop, tag))
    open(p, 'w').write(text)
    return p

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--learn', action='store_true', help='record which solver proved each obligation in hints.json')
    ap.add_argument('--noproof', action='store_true'); ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args()
    prop = a.property
    seed = int(os.environ.get('VERIF_SEED') or 1)
    thorough = a.tier == 'thorough'
    clock = Timer()
    tmp = tempfile.mkdtemp(prefix='onexv_')
    try:
        return run(a, prop, seed, thorough, clock, tmp)
    finally:
        if not a.keep: shutil.rmtree(tmp, ignore_errors=True)

def run(a, prop, seed, thorough, clock, tmp):
    plan = PLAN[prop]
    log = lambda *x: print(*x, flush=True)
    h = Harness(tmp, prop)
    hth = threading.Thread(target=h.build); hth.start()
    pr = Proof(prop, tmp, log)
    hints = {}
    hp = os.path.join(HERE, 'hints.json')
    if os.path.exists(hp): hints = json.load(open(hp))
    broken = None
    unproved, refuted = [], []
    early = {}
    if not a.noproof:
        try:
            pr.load()
            pr.collect()
            pr.generate()
        except cast.AstError as e:
            broken = 'the source cannot be parsed: %s' % e
        except Exception as e:      # a construct the extraction has never met: outside the verifier's reach, the concrete search decides
            import traceback
            traceback.print_exc()
            broken = 'extraction failed: %s: %s' % (type(e).__name__, str(e)[:300])
            pr.obs = []
        if broken: pr.undecided.append(('(all)', broken))
        log('%s: %d functions and lemmas, %d obligations (%.0f s)' % (prop, len(pr.units), len(pr.obs), clock()))
        budget = 780 if thorough else 480
        hth.join()
        if h.names and not h.error:
            # the concrete search runs beside the proof; a failing input settles the matter
            def look():
                early['r'] = h.search(seed, 120 if thorough else plan.get('secs', 8), 4)
            lth = threading.Thread(target=look); lth.start()
        unproved = pr.discharge(time.time() + max(60, budget - clock()), hints, stop=lambda: early.get('r', (None,))[0] is not None)
        if h.names and not h.error: lth.join()
        late = [o for o in unproved if len(o.tried) < 8]      # the time ran out before the solvers had a fair try: undecided, not refuted
        for o in late: pr.undecided.append((o.name, 'time limit reached'))
        refuted = [o for o in unproved if len(o.tried) >= 8]
        log('%s: %d of %d obligations discharged (%.0f s)' % (prop, len(pr.obs) - len(unproved), len(pr.obs), clock()))
    hth.join()
    for f, why in pr.undecided: log('%s: not within reach in this tree: %s: %s' % (prop, f, why[:300]))
    for o in unproved: log('%s: NOT discharged: %s  %s' % (prop, o.name, o.tried if a.verbose else ''))
    if h.error: raise RuntimeError(h.error)
    suspicious = bool(unproved or pr.undecided)
    secs = 120 if thorough else 75 if suspicious else plan.get('secs', 8)
    fail, st = early.get('r', (None, {'cases': 0, 'nontrivial': 0, 'samples': []}))
    if h.names and not fail and (suspicious or not st['cases']):
        fail, st2 = h.search(seed + 1 if st['cases'] else seed, secs, 8)
        st = {'cases': st['cases'] + st2['cases'], 'nontrivial': st['nontrivial'] + st2['nontrivial'], 'samples': st['samples'] or st2['samples']}
    log('%s: %d concrete cases run on the real code, %d of them nontrivial (%.0f s)' % (prop, st['cases'], st['nontrivial'], clock()))
    # ---- evidence
    solvers = {}
    for o in pr.obs:
        if o.status == 'proved': solvers[o.solver] = solvers.get(o.solver, 0) + 1
    funcs = sorted(u.name for u in pr.units if u.kind == 'function')
    lem = sorted(u.name for u in pr.units if u.kind == 'lemma')
    ev = {'property': prop, 'tier': 'thorough' if thorough else 'quick', 'seed': seed, 'level': plan.get('level', 'proof'),
          'coverage': {
              'obligations': len(pr.obs), 'discharged': len(pr.obs) - len(unproved),
              'checker_cmd': 'python3 onexv/check.py --property %s' % prop,
              'trusted_base': ['clang 18 (parser)', 'onexv translation of the clang AST to WhyML', 'Why3 1.6.0 (VC generation)', 'z3 4.8.12, z3-new, cvc5 1.1.2',
                               'spec/*.spec: memory model, arithmetic and library contracts'],
              'functions_under_contract': funcs, 'lemmas': lem,
              'obligations_per_function': {k: v[0] for k, v in sorted(getattr(pr, 'stats', {}).items())},
              'discharged_by': solvers,
              'solver_seconds': round(sum(getattr(o, 'time', 0) or 0 for o in pr.obs), 1),
              'not_within_reach_in_this_tree': [{'function': f, 'why': w[:300]} for f, w in pr.undecided],
              'bounded_stand_in': {'what': 'random concrete cases of the real code under AddressSanitizer and UBSan against an independent oracle; bounded, not counted as proved',
                                   'parts': h.names, 'evaluations': st['cases'], 'distinct_nontrivial': st['nontrivial'], 'samples': st['samples']},
              'bounded_only': plan.get('bounded_only', []),
          },
          'assumptions': plan.get('assumptions', []) + COMMON + sorted(pr.assumed),
          'wall_s': round(clock(), 1), 'violations': 0}
    if ev['level'] != 'proof':
        ev['coverage'].update({'evaluations': st['cases'], 'distinct_nontrivial': st['nontrivial'], 'rule': plan.get('rule', 'random cases; see DESIGN.md'), 'samples': st['samples'],
                               'explanation': plan.get('explanation', '')})
    rc = 0
    lines = []
    known = load_known(prop)
    if fail:
        k = [t for c, t in known if c in fail['what']]
        if k: log('KNOWN-FINDING: property=%s %s' % (prop, k[0]))
        else:
            text = 'property %s is violated by the code in %s\n\nfailing input, found by running the real code:\n%s\n\nrun again: python3 %s --property %s --case %s:%d:%d\n' % (
                prop, REPO, fail['what'], os.path.join(HERE, 'replay.py'), prop, fail['name'], fail['seed'], fail['case'])
            if unproved: text += '\nobligations that are no longer discharged:\n' + ''.join('  %s\n' % o.name for o in unproved)
            p = write_replay(prop, 'input', text)
            log(fail['what'][:3000])
            lines.append('VIOLATION property=%s replay=%s' % (prop, p))
    elif refuted:
        unproved = refuted
        text = 'property %s: obligations generated from the code in %s that the verifier does not accept\n\n' % (prop, REPO)
        for o in unproved:
            text += '%s\n   solvers: %s\n   obligation (SMT-LIB):\n' % (o.name, o.tried)
        text += '\nNo concrete failing input was found in %d cases.\n\nFirst failed obligation in full:\n%s\n' % (st['cases'], unproved[0].smt[-20000:])
        p = write_replay(prop, 'obligation', text)
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, p))
    ev['violations'] = len(lines)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    if a.learn:
        for o in pr.obs:
            if o.status == 'proved': hints[o.name] = o.solver
        json.dump(hints, open(hp, 'w'), indent=0, sort_keys=True)
    if a.verbose:
        for o in sorted(pr.obs, key=lambda o: -(o.time or 0))[:8]: log('   %.1f s %s %s' % (o.time, o.solver, o.name))
    for l in lines: print(l, flush=True)
    log('%s: %s in %.0f s' % (prop, 'violated' if lines else 'held', clock()))
    return 1 if lines else 0

COMMON = ['machine integers are treated as mathematical integers (overflow of int arithmetic is not modelled, conversions to unsigned are checked)',
          'doubles are modelled by their order and the listed facts of IEEE-754 arithmetic; NaN does not occur; -0 and 0 are identified',
          'new and malloc do not fail; objects are destroyed in reverse order of construction as the translation makes explicit',
          'contracts of other properties used in these proofs are discharged by the checks of those properties']

if __name__ == '__main__':
    sys.exit(main())
