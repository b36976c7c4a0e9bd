"""Obligations of a unit (Why3) and their discharge by a portfolio of SMT solvers."""
import subprocess, os, re, shutil, tempfile, hashlib, time, json
from concurrent.futures import ThreadPoolExecutor, as_completed
HERE = os.path.dirname(os.path.abspath(__file__))

DUMMY = '''[main]
magic = 14
memlimit = 1000
running_provers_max = 2
timelimit = 5.0
[prover]
name = "dummy"
version = "1"
command = "%s %%f %s"
driver = "%s"
in_place = false
interactive = false
editor = ""
shortcut = "dummy"
'''

class VCError(Exception): pass

class Ob:
    """One proof obligation."""
    def __init__(self): self.status = None

def gen_vcs(unit, wd):
    """Run Why3 on the unit; returns the list of obligations."""
    os.makedirs(wd, exist_ok=True)
    mlw = os.path.join(wd, 'u.mlw')
    open(mlw, 'w').write(unit.text)
    drv = os.path.join(HERE, 'onex.drv')
    conf = os.path.join(wd, 'conf')
    out = os.path.join(wd, 'smt')
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    open(conf, 'w').write(DUMMY % (os.path.join(HERE, 'keep.sh'), out, drv))
    r = subprocess.run(['why3', '-C', conf, 'prove', '-P', 'dummy', '-a', 'split_vc', mlw], capture_output=True, text=True)
    goals = re.findall(r'File "[^"]*", line (\d+), character[^:]*?:\s+Sub-goal\s+(.*?)\s+of\s+goal\s+(\S+?)\.\s+Prover', r.stdout, re.S)
    if not goals:
        goals = re.findall(r'File "[^"]*", line (\d+), character[^:]*?:\s+(?:Sub-goal|Goal)\s+(.*?)(?:\s+of\s+goal\s+(\S+?))?\.\s+Prover', r.stdout, re.S)
    if r.returncode not in (0, 2):      # 2: a goal is not proved, which the stand-in never does
        raise VCError('%s: %s%s' % (unit.name, r.stdout[-2000:], r.stderr[-3000:]))
    fl = [os.path.join(out, f) for f in sorted(os.listdir(out))]
    if len(set(g[2] for g in goals)) > 1: raise VCError('%s: several goals' % unit.name)
    if len(fl) != len(goals): raise VCError('%s: %d files, %d goals\n%s' % (unit.name, len(fl), len(goals), r.stdout[:2000] + r.stderr[:2000]))
    obs = []
    seen = {}
    for (line, ex, goal), f in zip(goals, fl):
        ex = ' '.join(ex.split())
        o = Ob()
        o.unit = unit.name; o.line = int(line); o.file = f
        p = ex.split('|')
        if len(p) >= 3: o.tags, o.kind, o.label = p[0], p[1], '|'.join(p[2:])
        else: o.tags, o.kind, o.label = '-', 'other', ex
        if o.tags == '-': o.tags = ''
        o.tags = set(x for x in o.tags.split(',') if x)
        base = '%s :: %s :: %s' % (o.unit, o.kind, o.label)
        seen[base] = seen.get(base, 0) + 1
        o.name = base + (' #%d' % seen[base])
        t = open(f).read()
        t = '\n'.join(l for l in t.split('\n') if not l.startswith(';'))
        t = simplify(t)
        o.smt = t
        o.hash = hashlib.sha256(t.encode()).hexdigest()[:20]
        obs.append(o)
    return obs

REFMK = re.compile(r'\(contents\s+\(refqtmk\s+([^\s()]+)\)\)')

def toplevel(t):
    """The top-level forms of an SMT-LIB text."""
    if '"' not in t and '|' not in t and ';' not in t:
        bl = [b.rstrip() for b in re.split(r'\n(?=\()', '\n' + t) if b.strip()]
        if all(b[0] == '(' and b[-1] == ')' and b.count('(') == b.count(')') for b in bl): return bl
    return toplevel_slow(t)

def toplevel_slow(t):
    out = []; d = 0; st = None; i = 0; n = len(t)
    while i < n:
        c = t[i]
        if c == '"':
            j = t.find('"', i + 1); i = (j if j > 0 else n) + 1; continue
        if c == ';':
            j = t.find('\n', i); i = n if j < 0 else j; continue
        if c == '|':
            i = t.find('|', i + 1) + 1; continue
        if c == '(':
            if d == 0: st = i
            d += 1
        elif c == ')':
            d -= 1
            if d == 0: out.append(t[st:i + 1])
        i += 1
    return out

def simplify(t):
    """Remove the residue of WhyML references and of the encoding of polymorphism (unused in these problems)."""
    t = REFMK.sub(r'\1', t)
    bl = toplevel(t)
    tok = [set(re.findall(r"[^\s()]+", b)) for b in bl]
    drop = [bool(x & {'uni', 'ty'}) or ('declare-datatypes' in x and 'refqtmk' in x) for x in tok]
    names = {'refqtmk', 'contents'}
    for b, d in zip(bl, drop):
        m = re.match(r'\(declare-(?:fun|sort)\s+(\S+)', b)
        if d and m: names.add(m.group(1))
        if 'declare-sort uni' in b or 'declare-sort ty' in b: names |= {'uni', 'ty'}
    kept = [b for b, d in zip(bl, drop) if not d]
    if any(x & names for x, d in zip(tok, drop) if not d and not any(k in x for k in ('declare-fun',) if 0)):
        for b, d, x in zip(bl, drop, tok):
            if not d and x & names and not re.match(r'\(set-', b): return t
    return '\n'.join(kept) + '\n'

SOLVERS = {
    'z3': ['z3', '-smt2', '-T:%d'],
    'z3n': ['z3-new', '-smt2', '-T:%d'],
    'cvc5': ['cvc5', '--tlimit=%d000'],
    'cvc5e': ['cvc5', '--enum-inst', '--tlimit=%d000'],
    'z3s': ['z3', '-smt2', 'smt.random_seed=7', 'smt.arith.solver=2', '-T:%d'],
    'z3m': ['z3-new', '-smt2', 'smt.mbqi=false', 'auto_config=false', 'smt.relevancy=0', '-T:%d'],
    'z3b': ['z3', '-smt2', 'smt.mbqi=false', 'auto_config=false', 'smt.case_split=3', 'smt.qi.eager_threshold=100', 'smt.delay_units=true', '-T:%d'],
    'z3c': ['z3', '-smt2', 'smt.mbqi=false', 'auto_config=false', 'smt.case_split=3', '-T:%d'],
    'z3f': ['z3', '-smt2', 'smt.mbqi=false', 'auto_config=false', 'smt.case_split=5', '-T:%d'],
    'z3e': ['z3', '-smt2', 'smt.mbqi=false', 'auto_config=false', '-T:%d'],
}

def run_solver(name, f, t):
    cmd = [(a % t if '%d' in a else a) for a in SOLVERS[name]] + [f]
    t0 = time.time()
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=t + 5)
        out = r.stdout.strip().split('\n')[0].strip()
    except subprocess.TimeoutExpired:
        out = 'timeout'
    return out, time.time() - t0

def prep(o):
    t = o.smt
    t = t.replace('(get-info :reason-unknown)', '')
    f2 = o.file + '.q.smt2'
    open(f2, 'w').write(t)
    return f2

SCHEDULE = [('z3e', 2), ('z3b', 3), ('z3n', 3), ('z3c', 3), ('z3f', 3), ('cvc5', 3), ('z3', 3), ('z3n', 15), ('z3b', 15), ('z3e', 10), ('cvc5', 15), ('z3', 15), ('z3m', 15), ('z3n', 40), ('cvc5e', 30), ('z3s', 20), ('z3e', 60), ('cvc5', 60), ('z3', 60)]
DEV = [('z3e', 2), ('z3b', 4), ('z3n', 4), ('z3c', 4), ('z3f', 4), ('cvc5', 4), ('z3n', 15)]

def step(o, solver, t, deadline, stop):
    if stop and stop(): return
    if deadline and time.time() + t > deadline:
        t = int(deadline - time.time())
        if t < 1: return
    r, dt = run_solver(solver, o.qfile, t)
    o.tried.append((solver, r, round(dt, 2)))
    if r == 'unsat': o.status = 'proved'; o.solver = solver; o.time = dt

def discharge(obs, hints=None, jobs=8, schedule=None, deadline=None, progress=None, stop=None):
    """Every obligation is tried with the solver that last proved it, then with each step of the schedule in turn."""
    byhash = {}
    for o in obs: byhash.setdefault(o.hash, []).append(o)      # identical goals are solved once
    first = [g[0] for g in byhash.values()]
    for o in first:
        o.qfile = prep(o); o.tried = []; o.status = 'unproved'; o.solver = None; o.time = 0
    sched = list(schedule or SCHEDULE)
    rounds = [[(o, (hints or {}).get(o.name), 10) for o in first if (hints or {}).get(o.name)]] + [[(o, s, t) for o in first] for s, t in sched]
    with ThreadPoolExecutor(jobs) as ex:
        for rd in rounds:
            todo = [x for x in rd if x[0].status != 'proved']
            if not todo: continue
            list(ex.map(lambda x: step(x[0], x[1], x[2], deadline, stop), todo))
    for g in byhash.values():
        a = g[0]
        if a.status != 'proved': a.time = sum(x[2] for x in a.tried)
        for o in g[1:]: o.status, o.solver, o.time, o.tried = a.status, a.solver, 0.0, a.tried
        if progress: progress(a)
    return obs
