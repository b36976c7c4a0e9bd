"""Assembling one self-contained Why3 module per function under contract (or per lemma)."""
import re
from ctypes_ import *
import specs as S
from trans import *

USES = '''use int.Int
use real.RealInfix
use real.FromInt
use map.Map
use ref.Ref
'''

TOK = re.compile(r"(?<![\w'.@$])([A-Za-z_][\w']*)")

class Unit:
    def __init__(self, name, text, kind):
        self.name, self.text, self.kind = name, text, kind
        self.assumed = []

def strip_comments(t):
    return re.sub(r'\(\*.*?\*\)', ' ', t, flags=re.S)

class Linker:
    def __init__(self, world):
        self.w = world; self.spec = world.spec; self.p = world.p
        self.cache = {}

    # -------------------------------------------------------------- generated declarations
    def gen(self, n):
        """Declaration text of an automatically generated symbol, or None."""
        m = re.match(r"^(set_)?(f_\w+)$", n)
        if m and m.group(2) in self.w.fields_used:
            g = m.group(2); t = self.w.fields_used[g]
            if m.group(1):
                return 'val set_%s (o: int) (v: %s) : unit writes { %s } ensures { !%s = (old !%s)[o <- v] }' % (g, t, g, g, g)
            return 'val %s : ref (map int %s)' % (g, par(t))
        m = re.match(r'^(n|v)_(\w+)$', n)
        if m and m.group(2) in self.w.vec_elems:
            if m.group(1) == 'n': return 'val %s : ref (map int int)' % n
            return 'val %s : ref (map int (map int %s))' % (n, par(wt(self.w.vec_elems[m.group(2)])))
        m = re.match(r'^vec_(get|set|push|size|new|ctor|copy|assign|resize|clear|pop)_(\w+)$', n)
        if m and m.group(2) in self.w.vec_elems:
            return self.vec_op(m.group(1), m.group(2))
        m = re.match(r'^r_(\w+)$', n)
        if m and m.group(1) in self.p.classes and self.p.classes[m.group(1)].kind == 'rec':
            c = m.group(1)
            pre = 'axiom pairs_are_pairs: forall x: (int, int). let (a, b) = x in (a, b) = x\n' if any(f.t.k == 'pair' for f in self.p.classes[c].fields) else ''   # makes Why3 declare the pair type
            return pre + 'type r_%s = { %s }' % (c, '; '.join('r_%s_%s : %s' % (c, f.name, wt(f.t)) for f in self.p.classes[c].fields))
        m = re.match(r'^(gv)_(\w+)$', n)
        if m and m.group(2) in self.p.globals:
            return 'val %s : ref %s' % (n, par(wt(self.p.globals[m.group(2)][0])))
        m = re.match(r'^(gobj)_(\w+)$', n)
        if m: return 'constant %s : int' % n
        if n in self.w.strlits.values(): return 'val constant %s : str\naxiom %s_id : lit_id %s = %d' % (n, n, n, list(self.w.strlits.values()).index(n))
        m = re.match(r'^code_(\w+)$', n)
        if m:
            cs = [g.name for g in self.w.fn_codes()]
            if m.group(1) in cs: return 'let constant %s : int = %d' % (n, 1 + cs.index(m.group(1)))
        m = re.match(r'^cls_(\w+)$', n)
        if m and (m.group(1) == 'vec' or m.group(1) in self.p.classes):
            return 'let constant %s : int = %d' % (n, 0 if m.group(1) == 'vec' else 1 + sorted(self.p.classes).index(m.group(1)))
        m = re.match(r'^any_(\w+)$', n)
        if m:
            t = {'int': 'int', 'bool': 'bool', 'dbl': 'dbl', 'str': 'str', 'ptr': 'ptr', 'int_int': '(int, int)', 'pair_str_int': '(str, int)',
                 'int_dbl': '(int, dbl)', 'dbl_dbl': '(dbl, dbl)'}.get(m.group(1))
            if t is None and m.group(1).startswith('r_'): t = m.group(1)
            if t: return 'val any_%s (_u: unit) : %s' % (m.group(1), t)
        m = re.match(r'^(Ret_\w+)$', n)
        if m:
            x = n[4:]
            t = {'int': 'int', 'bool': 'bool', 'dbl': 'dbl', 'str': 'str', 'ptr': 'ptr', 'unit': '', 'int_int': '(int, int)', 'int_dbl': '(int, dbl)',
                 'dbl_dbl': '(dbl, dbl)'}.get(x)
            if t is None and x.startswith('r_'): t = x
            if t is not None: return 'exception %s %s' % (n, t)
        return None

    def vec_op(self, op, e):
        t = wt(self.w.vec_elems[e]); tp = par(t)
        n, v = 'n_' + e, 'v_' + e
        oob = S.expl(None, 'pre', 'vector index in bounds', 'C19')
        if op == 'size': return 'val vec_size_%s (o: int) : int ensures { result = (!%s)[o] /\\ result >= 0 }' % (e, n)
        if op == 'get': return 'val vec_get_%s (o i: int) : %s requires { [@expl:%s] 0 <= i < (!%s)[o] } ensures { result = (!%s)[o][i] }' % (e, t, oob, n, v)
        if op == 'set': return 'val vec_set_%s (o i: int) (x: %s) : unit requires { [@expl:%s] 0 <= i < (!%s)[o] } writes { %s } ensures { !%s = (old !%s)[o <- (old !%s)[o][i <- x]] }' % (e, t, oob, n, v, v, v, v)
        if op == 'push': return 'val vec_push_%s (o: int) (x: %s) : unit writes { %s, %s } ensures { (old !%s)[o] >= 0 /\\ !%s = (old !%s)[o <- (old !%s)[o] + 1] /\\ !%s = (old !%s)[o <- (old !%s)[o][(old !%s)[o] <- x]] }' % (e, t, n, v, n, n, n, n, v, v, v, n)
        if op == 'new': return 'val vec_new_%s (_u: unit) : int writes { alive, %s } ensures { result > 0 /\\ cls result = cls_vec /\\ not (old !alive)[result] /\\ !alive = (old !alive)[result <- true] /\\ !%s = (old !%s)[result <- 0] }' % (e, n, n, n)
        if op == 'ctor': return 'val vec_ctor_%s (k: int) (x: %s) : int requires { [@expl:%s] k >= 0 } writes { alive, %s, %s } ensures { result > 0 /\\ cls result = cls_vec /\\ not (old !alive)[result] /\\ !alive = (old !alive)[result <- true] /\\ !%s = (old !%s)[result <- k] /\\ exists m: map int %s. !%s = (old !%s)[result <- m] /\\ forall i:int. 0 <= i < k -> m[i] = x }' % (e, t, S.expl(None, 'pre', 'vector size', 'C19'), n, v, n, n, tp, v, v)
        if op == 'copy': return 'val vec_copy_%s (s: int) : int writes { alive, %s, %s } ensures { result > 0 /\\ cls result = cls_vec /\\ not (old !alive)[result] /\\ !alive = (old !alive)[result <- true] /\\ !%s = (old !%s)[result <- (old !%s)[s]] /\\ !%s = (old !%s)[result <- (old !%s)[s]] }' % (e, n, v, n, n, n, v, v, v)
        if op == 'assign': return 'val vec_assign_%s (d s: int) : unit writes { %s, %s } ensures { !%s = (old !%s)[d <- (old !%s)[s]] /\\ !%s = (old !%s)[d <- (old !%s)[s]] }' % (e, n, v, n, n, n, v, v, v)
        if op == 'resize': return 'val vec_resize_%s (o k: int) (x: %s) : unit requires { [@expl:%s] k >= 0 } writes { %s, %s } ensures { !%s = (old !%s)[o <- k] /\\ exists m: map int %s. !%s = (old !%s)[o <- m] /\\ forall i:int. 0 <= i < k -> m[i] = (if i < (old !%s)[o] then (old !%s)[o][i] else x) }' % (e, t, S.expl(None, 'pre', 'vector size', 'C19'), n, v, n, n, tp, v, v, n, v)
        if op == 'clear': return 'val vec_clear_%s (o: int) : unit writes { %s } ensures { !%s = (old !%s)[o <- 0] }' % (e, n, n, n)
        if op == 'pop': return 'val vec_pop_%s (o: int) : unit requires { [@expl:%s] (!%s)[o] > 0 } writes { %s } ensures { !%s = (old !%s)[o <- (old !%s)[o] - 1] }' % (e, S.expl(None, 'pre', 'vector not empty', 'C19'), n, n, n, n, n)

    # -------------------------------------------------------------- item text
    def item_text(self, it, prove=False):
        t = it.text
        if it.kind == 'global':
            m = re.match(r"^global\s+(\w+)\s*:\s*(.*)$", t, re.S)
            return 'val %s%s : ref %s' % ('ghost ' if it.name.startswith('gh_') else '', m.group(1), par(m.group(2).strip()))
        if it.kind in ('predicate', 'function', 'inductive'):
            gs = self.spec.heap.get(it.name, [])
            def g(m): return 'g_' + self.spec.gname(m)
            t = self.spec.AT.sub(g, t)
            t = self.spec.apply_heap_body(t, it.name) if gs or True else t
            ps = ' '.join('(g_%s: %s)' % (x, self.gtype(x)) for x in gs)
            return re.sub(r"^(\w+\s+\w+)", lambda m: m.group(1) + ' ' + ps, t, count=1)
        if it.kind == 'lemma':
            m = re.match(r"^lemma\s+(\w+)\s*(.*?)(\n=.*)?$", t, re.S)
            head, body = m.group(2), m.group(3)
            if it.name in self.spec.two:
                ps = ' '.join('(h_%s: %s)' % (g, self.gtype(g)) for g in self.spec.two[it.name])
                head = self.spec.olds(head); body = self.spec.olds(body)
                head = ps + ' ' + head
            head = self.tr(head).replace('$', '')
            rec = re.search(r'\b%s\b' % it.name, body[2:]) is not None
            if prove:
                return 'let %sghost %s %s%s' % ('rec ' if rec else '', it.name, head, self.tr(body or '').replace('$', ''))
            head = re.sub(r'\bvariant\s*\{[^{}]*\}', '', head)
            return 'val ghost %s %s' % (it.name, head)
        if it.kind in ('val', 'assume'):
            t = re.sub(r'^assume\s+', 'val ghost ', t)
            return self.tr(t)
        if it.kind == 'sym': return re.sub(r'^sym\s+', 'val function ', t)
        if it.kind == 'const': return re.sub(r'^const\s+', 'constant ', t)
        if it.kind == 'decl': return re.sub(r'^decl\s+\w+\s*', '', t)
        return t

    def tr(self, t):
        t = self.spec.globals_of(t)
        return self.spec.apply_heap(t)

    def gtype(self, g):
        if g in self.spec.items:
            return re.match(r"^global\s+\w+\s*:\s*(.*)$", self.spec.items[g].text, re.S).group(1).strip()
        d = self.gen(g)
        if d is None: raise Exception('unknown global %s' % g)
        return re.sub(r'^val \w+ : ref ', '', d)

    # -------------------------------------------------------------- contracts
    def clause(self, kw, tr, kind, label, tags, text, exn=None, raw=False):
        if not raw: text = tr.spec_text(text)
        x = S.expl(tr.f, kind, label, tags)
        if exn: return '  raises { %s -> [@expl:%s] %s }' % (exn, x, text)
        return '  %s { [@expl:%s] %s }' % (kw, x, text)

    def contract(self, tr, defining):
        sp = tr.spec
        f = tr.f
        out = []
        fn = f.name if f.name != 'operator=' else 'assignment'
        for (l, tags, t) in sp.requires:
            out.append(self.clause('requires', tr, 'pre', '%s: %s' % (f.base, l), tags, t))
        for (l, tags, t) in sp.ensures:
            out.append(self.clause('ensures', tr, 'post', l, tags, t))
        frames = []
        for g in sorted(tr.writes):
            fr = tr.frame(g, None, None)
            if fr: frames.append((g, fr))
        for g, fr in frames:
            out.append(self.clause('ensures', tr, 'frame', 'leaves other %s alone' % g, '', fr, raw=True))
        raises = set(tr.raises)
        if sp.raises_given and not defining: raises = set(sp.raises)
        if sp.raises_given and defining: raises = set(sp.raises) & tr.raises
        for e in sorted(raises):
            given = [c for c in sp.exc if c[0] == e]
            for (_, l, tags, t) in given:
                out.append(self.clause(None, tr, 'exn', l or e, tags, t, exn=e))
            for g, fr in frames:
                out.append(self.clause(None, tr, 'frame', 'leaves other %s alone' % g, '', fr, exn=e, raw=True))
            if not given and not frames:
                out.append('  raises { %s }' % e)
        return '\n'.join(out)

    def signature(self, tr):
        f = tr.f
        ps = ['(this: int)'] if f.kind in ('method', 'ctor', 'dtor') and not f.static else []
        for (name, t, id_, ic) in f.params:
            ps.append('(p_%s: %s)' % (name, wt(strip_ref(t))))
        if not ps: ps = ['(_u: unit)']
        return '%s %s : %s' % (mangle(f.key), ' '.join(ps), wt(f.ret))

    def val_of(self, tr):
        """Declaration of a callee: its contract only."""
        r = 'val %s' % self.signature(tr)
        w = sorted(tr.writes)
        if w: r += '\n  writes { %s }' % ', '.join(w)
        return r + '\n' + self.contract(tr, False)

    def def_of(self, tr):
        sg = self.signature(tr)
        if tr.spec.opts.get('vc'): sg = sg.replace(' ', ' [@vc:%s] ' % tr.spec.opts['vc'], 1)
        c = self.contract(tr, True)
        if 'termination not claimed' in tr.code: c += '\n  diverges'
        return 'let %s\n%s\n= %s' % (sg, c, tr.code)

    # -------------------------------------------------------------- linking
    def link(self, name, body, defs=None, skip=(), extra=()):
        """body: text of the unit. Returns module text with every declaration it needs."""
        defs = defs or {}
        needed = {}
        order = []
        def add(n):
            if n in needed or n in skip: return
            if n in self.spec.items:
                t = self.item_text(self.spec.items[n])
            elif n in defs:
                t = defs[n]
            else:
                t = self.gen(n)
                if t is None: return
            needed[n] = t
            scan(t, n)
            order.append(n)
        def scan(t, me=None):
            for m in TOK.finditer(strip_comments(t)):
                x = m.group(1)
                if x != me: add(x)
        for x in extra: add(x)
        scan(body)
        # axioms whose symbols are all present
        changed = True
        while changed:
            changed = False
            for n in self.spec.order:
                it = self.spec.items[n]
                if it.kind != 'axiom' or n in needed or n in skip: continue
                tg = re.search(r'^[^\[]*\[(.*?)\]\.', it.text, re.S)
                syms = set(m.group(1) for m in TOK.finditer(tg.group(1) if tg else it.text)) & (set(self.spec.items) | set(defs))
                syms.discard(n)
                if syms and all(x in needed for x in syms if self.spec.items.get(x) is None or self.spec.items[x].kind != 'axiom'):
                    needed[n] = it.text; scan(it.text, n); order.append(n); changed = True
        text = 'module %s\n%s\n' % (name, USES)
        # Why3's polymorphism encoding loses the abstract type `str` when it occurs inside a record stored in a map;
        # there, strings are numbered (they are countable, and no integer operation applies to them)
        if 'r_dataset_info_t' in needed and 'str' in needed: needed['str'] = 'type str = int'
        for n in order: text += needed[n] + '\n\n'
        return text, set(order)

    def unit_of(self, tr):
        """Verification unit of a translated function."""
        body = self.spec.apply_heap(self.def_of(tr))
        defs = {}
        for k in tr.calls:
            d = self.w.done[k]
            defs[mangle(k)] = self.spec.apply_heap(self.val_of(d))
        text, syms = self.link('U', body, defs, extra=tr.spec.uses)
        u = Unit(tr.f.key, text + body + '\nend\n', 'function')
        u.syms = syms; u.f = tr.f; u.tr = tr
        return u

    def unit_of_lemma(self, it):
        body = self.item_text(it, prove=True)
        text, syms = self.link('U', body, {}, skip=(it.name,))
        u = Unit('lemma ' + it.name, text + body + '\nend\n', 'lemma')
        u.syms = syms; u.f = None
        return u

def par(t):
    return '(%s)' % t if ' ' in t and not t.startswith('(') else t
