"""Mechanical translation of C++ functions (clang AST) to WhyML."""
import re, json
from ctypes_ import *
import specs as S

SIZEOF = {'int': 4, 'real': 8, 'ptr': 8, 'char': 1, 'bool': 1, 'uint': 4}
EXN = {'OnexException': 'E_onex', 'std::invalid_argument': 'E_invalid', 'std::out_of_range': 'E_range',
       'invalid_argument': 'E_invalid', 'out_of_range': 'E_range'}
LOGIC = ['E_invalid', 'E_range']
ALLEXN = ['E_onex', 'E_invalid', 'E_range']

def wt(t):
    k = t.k
    if k in ('int', 'uint', 'char'): return 'int'
    if k == 'bool': return 'bool'
    if k == 'real': return 'dbl'
    if k == 'str': return 'str'
    if k == 'void': return 'unit'
    if k == 'ptr':
        if t.a.k in ('real', 'int', 'uint'): return 'ptr'
        if t.a.k in ('obj',): return 'int'
        return 'int'
    if k in ('obj', 'vec', 'fn', 'ostream', 'istream', 'ios', 'tokiter', 'tokenizer', 'map', 'opaque', 'null'): return 'int'
    if k == 'pair': return '(%s, %s)' % (wt(t.a), wt(t.b))
    if k == 'rec': return 'r_' + t.a
    if k == 'ref':
        if t.a.k in ('real', 'int') : return 'ptr'
        return wt(t.a)
    raise Unsupported('type %r' % t)

def en(t):
    """Name suffix of a vector element type."""
    k = t.k
    if k in ('int', 'uint', 'char'): return 'int'
    if k == 'real': return 'dbl'
    if k in ('bool', 'str'): return k
    if k == 'rec': return t.a
    if k == 'obj': return 'o_' + t.a
    if k == 'ptr' and t.a.k == 'obj': return 'p_' + t.a.a
    if k == 'vec': return 'v_' + en(t.a)
    if k == 'pair': return 'pair_%s_%s' % (en(t.a), en(t.b))
    raise Unsupported('vector of %r' % t)

def mangle(key):
    s = key.replace('operator[]', 'op_index').replace('operator+=', 'op_addassign').replace('operator=', 'op_assign').replace('operator<', 'op_lt')
    s = s.replace('~', 'dtor_').replace('*', '_p').replace('::', '__').replace('()', '')
    s = re.sub(r'[^A-Za-z0-9_]', '_', s).strip('_')
    return 'fn_' + s

class Lv:
    """An lvalue."""
    def __init__(self, kind, t, *a):
        self.kind, self.t, self.a = kind, t, a

class Var:
    def __init__(self, name, wname, kind, t, lv=None):
        self.name, self.wname, self.kind, self.t, self.lv = name, wname, kind, t, lv   # kind: ref | val | alias

class Unattached(Exception):
    pass

class World:
    """Everything shared between function translations."""
    def __init__(self, prog, spec):
        self.p = prog
        self.spec = spec
        self.vec_elems = {}     # en -> T
        self.fields_used = {}   # global name -> wtype
        self.strlits = {}
        self.done = {}          # func key -> FuncTr
        self.stack = []
        self.dispatch = {}
        self.gvars = {}
        self.renames = {}
        for c in prog.classes.values():
            if c.kind == 'obj':
                for f in c.fields:
                    try:
                        self.fields_used['f_%s_%s' % (f.cls, f.name)] = wt(f.t)
                        ft = strip_ref(f.t)
                        if ft.k == 'vec': wt(ft.a); self.need_vec(ft.a)
                    except Unsupported:
                        pass

    def fieldname(self, cls, name):
        return getattr(self, 'field_back', {}).get(cls, {}).get(name, name)

    def strlit(self, s):
        if s not in self.strlits:
            self.strlits[s] = 'lit_%d' % len(self.strlits)
        return self.strlits[s]

    def need_vec(self, t):
        e = en(t)
        self.vec_elems.setdefault(e, t)
        if t.k == 'vec': self.need_vec(t.a)
        return e

    def contract(self, f):
        return self.spec.for_func(f)

    def translate(self, f):
        """Translate f as a unit (it has a contract)."""
        if f.key in self.done:
            return self.done[f.key]
        if f.key in self.stack:
            raise Unsupported('recursion through %s' % f.key)
        self.stack.append(f.key)
        try:
            t = FuncTr(self, f)
            t.run()
        finally:
            self.stack.pop()
        self.done[f.key] = t
        return t

    def dispatch_func(self):
        """Call through a dist_t pointer: one function with a contract of its own, verified against the functions it may reach."""
        sp = self.spec.funcs.get('call_dist')
        if sp is None: return None
        f = self.p.funcs.get('call_dist')
        if f is None:
            from model import Func
            f = Func(); f.key = f.name = f.base = 'call_dist'; f.ret = REAL; f.tu = None
            o = T('obj', 'TimeSeries')
            f.params = [('code', INT, -1, True), ('a', o, -2, True), ('b', o, -3, True), ('dropout', REAL, -4, True)]
            self.p.funcs[f.key] = f
            self.spec.bykey[f.key] = sp
        return f

    def fn_codes(self):
        """Functions usable through dist_t pointers."""
        r = []
        for f in self.p.funcs.values():
            if f.kind == 'fn' and f.body is not None and f.ret == REAL and len(f.params) == 3 and \
               [strip_ref(x[1]) for x in f.params] == [T('obj', 'TimeSeries'), T('obj', 'TimeSeries'), REAL]:
                r.append(f)
        return sorted(r, key=lambda f: f.key)

def frame_groups(g, classes=()):
    if g.startswith('f_'):
        for c in sorted(classes, key=len, reverse=True):
            if g[2:].startswith(c + '_'):
                f = g[3 + len(c):]
                # X.envelope: the fields of the envelope cache of a series
                return [c, c + '.' + f] + ([c + '.envelope'] if re.search('keogh|cache', f, re.I) else [])
        return None
    if g.startswith(('n_', 'v_')): return ['vec', 'vec_' + g[2:]]
    if g in ('dmem', 'imem'): return ['mem', g]
    if g in ('dlen', 'dkind', 'bown'): return ['own', g]
    if g == 'alive': return ['alive']
    if g == 'dqv': return ['deque', g]
    if g.startswith('gh_'): return ['ghost', g]
    if g.startswith('st_'): return ['istream', g]
    if g.startswith('os_'): return ['ostream', g]
    return None

class FuncTr:
    def __init__(self, world, f):
        self.w = world; self.p = world.p; self.f = f
        self.out = []
        self.scopes = [{}]
        self.cleanups = []     # list of frames; each frame list of code-emitting closures
        self.tmp = 0
        self.loopno = 0
        self.loops = []        # descriptions
        self.writes = set()
        self.raises = set()
        self.calls = set()     # contract keys called
        self.spec = world.contract(f)
        self.inline_stack = []
        self.this = 'this'
        self.ret_mode = None
        self.curexn = []
        self.tu = f.tu
        self.mut = set()
        self.stmt_no = 0
        self.loop_depth = []
        self.vars_log = []     # all (cxxname, wname, kind, type) in scope at loops (for rebinding)
        self.call_no = {}
        self.last_ret = None
        self.outer = []        # scopes of the functions around an inlined one
        self.missing = []
        self.rename = world.renames.get(f.key, {})

    # ------------------------------------------------------------------ utilities
    def fresh(self, base='t'):
        self.tmp += 1
        return '%s_%d' % (base, self.tmp)

    def emit(self, s):
        self.out.append(s)

    def block(self, fn, result='()'):
        saved = self.out
        self.out = []
        try:
            r = fn()
            lines = self.out
        finally:
            self.out = saved
        return 'begin\n%s\n%s end' % ('\n'.join(lines), r if r is not None else result)

    def bind(self, code, base='t'):
        if re.match(r"^[\w']+$", code): return code
        v = self.fresh(base)
        self.emit('let %s = %s in' % (v, code))
        return v

    def write(self, *gs):
        self.writes.update(gs)

    def lookup(self, id_):
        for s in reversed(self.scopes):
            if id_ in s: return s[id_]
        return None

    def find_name(self, name):
        for scopes in [self.scopes] + self.outer[::-1]:
            for s in reversed(scopes):
                for v in reversed(list(s.values())):
                    if v.name == name: return v
        return None

    def spec_var(self, name):
        if name == 'ret': return self.last_ret or 'no_result'
        if name == 'this': return self.this
        m = re.match(r'^arg(\d)$', name)
        if m: return self.last_args[int(m.group(1))]
        v = self.find_name(self.rename.get(name, name))
        if v is None:
            self.missing.append(name)
            raise Unattached('%s: no variable %s' % (self.f.key, name))
        if v.kind == 'alias':
            raise Unattached('%s: %s is an alias' % (self.f.key, name))
        return ('!' + v.wname) if v.kind == 'ref' else v.wname

    # ------------------------------------------------------------------ mutability
    def scan_mut(self, n, acc):
        """Declaration ids that are assigned anywhere in n."""
        def root(e):
            while True:
                k = e.get('kind')
                if k == 'DeclRefExpr': return e['referencedDecl'].get('id')
                if k == 'MemberExpr' and not e.get('isArrow') and e.get('inner'): e = e['inner'][0]; continue
                if k in ('ParenExpr', 'ImplicitCastExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups') and e.get('inner'):
                    e = e['inner'][0]; continue
                return None
        k = n.get('kind')
        if k in ('BinaryOperator',) and n.get('opcode') == '=' or k == 'CompoundAssignOperator':
            acc.add(root(n['inner'][0]))
        elif k == 'UnaryOperator' and n.get('opcode') in ('++', '--', '&'):
            acc.add(root(n['inner'][0]))
        elif k == 'CXXOperatorCallExpr':
            for c in n['inner'][1:]:
                acc.add(root(c))
        elif k in ('CallExpr', 'CXXMemberCallExpr', 'CXXConstructExpr'):
            for c in n.get('inner', ()):
                # an lvalue passed without an LValueToRValue cast may be modified through the reference
                acc.add(root(c) if c.get('kind') in ('DeclRefExpr', 'MemberExpr', 'ParenExpr') else None)
        for c in n.get('inner', ()):
            if isinstance(c, dict): self.scan_mut(c, acc)

    # ------------------------------------------------------------------ entry
    def run(self):
        f = self.f
        self.mut = set()
        if f.body: self.scan_mut(f.body, self.mut)
        params = []
        if f.kind in ('method', 'ctor', 'dtor') and not f.static:
            params.append(('this', 'int'))
        lines_params = []
        for i, (name, t, id_, isconst) in enumerate(f.params):
            t0 = strip_ref(t)
            if t.k == 'ref' and t0.k in ('int', 'uint', 'bool', 'real', 'rec', 'pair', 'str', 'ptr') and not isconst:
                raise Unsupported('%s: non-const reference parameter %s' % (f.key, name))
            params.append(('p_' + name, wt(t0)))
            if id_ in self.mut and t0.k not in ('obj', 'vec', 'ostream', 'istream'):
                v = Var(name, 'v_' + name, 'ref', t0)
                lines_params.append('let v_%s = ref p_%s in' % (name, name))
            else:
                v = Var(name, 'p_' + name, 'val', t0)
            self.scopes[0][id_] = v
        self.params = params
        self.param_names = [x[0] for x in f.params]
        for l in lines_params: self.emit(l)
        if self.spec.entry: self.emit_spec(self.spec.entry)
        self.ret_t = f.ret
        self.ret_mode = 'fn'
        self.uses_ret = False
        body = self.body_code(f)
        self.code = body
        if self.uses_ret:
            self.code = 'try\n%s\nwith %s end' % (body, self.ret_handler(f.ret))
        self.raises -= {'Break', 'Cont'}
        if self.spec.onraise and 'E_onex' in self.raises:
            self.code = 'try\n%s\nwith E_onex -> begin\n%s;\nraise E_onex end end' % (self.code, self.spec_text(self.spec.onraise, program=True).rstrip().rstrip(';'))
        if self.spec.raises_given:
            bad = sorted(self.raises - set(self.spec.raises))
            if bad:
                self.code = 'try\n%s\nwith %s end' % (self.code, ' | '.join(
                    '%s -> begin assert { [@expl:%s] false }; absurd end' % (e, S.expl(f, 'exn', 'does not throw %s' % e[2:], '')) for e in bad))
                self.raises -= set(bad)
            # declared exceptions that cannot happen are simply never raised

    def ret_exn(self, t):
        if t.k == 'void': return 'Ret_unit'
        return 'Ret_' + re.sub(r'\W+', '_', wt_ret(t)).strip('_')

    def ret_handler(self, t):
        if t.k == 'void': return 'Ret_unit -> ()'
        return '%s rv -> rv' % self.ret_exn(t)

    def body_code(self, f):
        """Code of f's constructor initialisers + body + destructor epilogue, as a block."""
        def go():
            self.cleanups.append([])
            if f.kind == 'ctor': self.ctor_inits(f)
            if f.key == 'call_dist':
                res = self.bind('(%s)' % self.dispatch_code('p_code', ['p_a', 'p_b', 'p_dropout']), 'd')
                if self.spec.exit: self.emit_spec(self.spec.exit)
            elif f.body is not None:
                res = self.stmts(f.body.get('inner', ()), tail=True)
            else:
                res = None
            if f.kind == 'dtor': self.dtor_epilogue(f)
            if res is None:
                self.run_cleanups(self.cleanups[-1])
                if self.ret_mode == 'fn' and self.spec.exit: self.emit_spec(self.spec.exit)
                res = '()' if f.ret.k == 'void' else None
            self.cleanups.pop()
            if res is None:
                res = 'absurd' if f.ret.k != 'void' else '()'
            return res
        saved_cleanups = self.cleanups
        self.cleanups = []
        self.scopes.append({})
        try:
            return self.merge_out(go)
        finally:
            self.scopes.pop()
            self.cleanups = saved_cleanups

    def merge_out(self, go):
        pre = self.out
        self.out = []
        try:
            r = go()
            lines = pre + self.out
        finally:
            self.out = []
        return 'begin\n%s\n%s end' % ('\n'.join(lines), r)

    # ------------------------------------------------------------------ ctor / dtor
    def new_obj(self, cls):
        v = self.fresh('o')
        self.emit('let %s = new_obj cls_%s in' % (v, cls))
        self.write('alive')
        return v

    def ctor_inits(self, f):
        cls = f.cls
        done = set()
        seen = {}
        for i in f.inits:
            if 'anyInit' in i:
                seen[self.w.fieldname(cls, i['anyInit']['name'])] = (i['inner'][0] if i.get('inner') else None)
            elif 'baseInit' in i:
                e = i['inner'][0] if i.get('inner') else None
                while e is not None and e.get('kind') in ('ExprWithCleanups', 'CXXBindTemporaryExpr'): e = e['inner'][0]
                if e is not None and e.get('kind') == 'CXXConstructExpr':
                    bc = strip_ref(self.p.types.of(e)).a
                    g = self.ctor_of(e, bc)
                    if g: self.call_func(g, self.this, self.args(g, e.get('inner', ()), e))
        for fd in self.p.classes[cls].fields:
            g = 'f_%s_%s' % (cls, fd.name)
            e = seen.get(fd.name)
            if e is not None and e.get('kind') == 'CXXDefaultInitExpr': e = fd.init
            elif e is None and fd.name not in seen: e = fd.init
            t = fd.t
            if t.k == 'obj' and not fd.isref:
                if e is None:
                    dc = self.p.find('%s::%s()' % (t.a, t.a))
                    o = self.new_obj(t.a)
                    if dc: self.call_func(dc[0], o, [])
                else:
                    o = self.construct_obj(e)
                self.set_global(g, self.this, o)
                continue
            if t.k == 'vec' and not fd.isref:
                if e is None:
                    o = self.vec_new(t.a)
                else:
                    o = self.bind(self.rv(e))
                self.emit('member_vec %s %s;' % (o, self.this))
                self.set_global(g, self.this, o)
                continue
            if fd.isref:
                self.set_global(g, self.this, self.rv_or_id(e))
                continue
            if e is None:
                if t.k == 'str': self.set_global(g, self.this, self.w.strlit(''))
                elif g in self.w.fields_used: self.set_global(g, self.this, '(any_%s ())' % S.anyname(wt(t)))
                continue
            self.set_global(g, self.this, self.rv(e))

    def dtor_epilogue(self, f):
        cls = f.cls
        for fd in reversed(self.p.classes[cls].fields):
            if fd.isref: continue
            if fd.t.k == 'obj':
                d = self.p.find('%s::~%s()' % (fd.t.a, fd.t.a))
                if d and (d[0].body or d[0].implicit):
                    o = self.bind('!f_%s_%s[%s]' % (cls, fd.name, self.this))
                    self.call_func(d[0], o, [])
                    self.emit('kill_obj %s;' % o); self.write('alive')
        for b in self.p.classes[cls].bases:
            d = self.p.find('%s::~%s()' % (b, b))
            if d: self.call_func(d[0], self.this, [])

    def dtor_of(self, cls):
        d = self.p.find('%s::~%s()' % (cls, cls))
        if d: return d[0]
        # implicit destructor not materialised by clang: synthesise when members need one
        need = [fd for fd in self.p.classes[cls].fields if fd.t.k == 'obj' and not fd.isref]
        if need or self.p.classes[cls].bases:
            from model import Func
            g = Func(); g.name = '~' + cls; g.cls = cls; g.kind = 'dtor'; g.key = '%s::~%s()' % (cls, cls); g.base = g.key[:-2]
            g.mangled = g.key; g.implicit = True; g.tu = self.f.tu; g.defaults = {}
            self.p.funcs[g.key] = g
            return g
        return None

    # ------------------------------------------------------------------ spec code
    def emit_spec(self, text):
        self.emit(self.spec_text(text, program=True) + ('' if text.rstrip().endswith((';', 'in')) else ';'))

    def spec_text(self, text, program=False):
        for m in re.finditer(r'\bset_(f_\w+|g_\w+|gh_\w+|bown)\b|\b(dqv)_\w+', text):
            self.write(m.group(1) or m.group(2))
        return self.w.spec.subst(text, self)

    # ------------------------------------------------------------------ globals
    def set_global(self, g, o, v):
        self.emit('set_%s %s (%s);' % (g, o, v))
        self.write(g)

    def vec_new(self, t):
        e = self.w.need_vec(t)
        v = self.fresh('vec')
        self.emit('let %s = vec_new_%s () in' % (v, e))
        self.write('alive', 'n_' + e)
        return v

    # ------------------------------------------------------------------ statements
    def stmts(self, ss, tail=False):
        """Translate a list of statements. With tail=True returns the value expression if the last statement is a return."""
        ss = [s for s in ss if isinstance(s, dict) and s.get('kind')]
        for i, s in enumerate(ss):
            last = tail and i == len(ss) - 1
            if last and s['kind'] == 'ReturnStmt' and self.tail_ok():
                return self.ret_value(s, tail=True)
            self.stmt(s)
        return None

    def tail_ok(self):
        return True

    def ends_abrupt(self, ss):
        ss = [s for s in ss if isinstance(s, dict) and s.get('kind')]
        if not ss: return False
        s = ss[-1]
        while s['kind'] == 'ExprWithCleanups': s = s['inner'][0]
        if s['kind'] in ('ReturnStmt', 'BreakStmt', 'ContinueStmt', 'CXXThrowExpr'): return True
        if s['kind'] == 'CompoundStmt': return self.ends_abrupt(s.get('inner', ()))
        if s['kind'] == 'IfStmt':
            inn = [c for c in s['inner'] if c.get('kind')]
            return len(inn) == 3 and self.ends_abrupt([inn[1]]) and self.ends_abrupt([inn[2]])
        return False

    def scoped(self, ss):
        """A nested C++ scope: returns a block."""
        def go():
            self.scopes.append({})
            self.cleanups.append([])
            try:
                self.stmts(ss)
                if not self.ends_abrupt(ss):
                    self.run_cleanups(self.cleanups[-1])
                else:
                    return self.diverge_value()
            finally:
                self.cleanups.pop()
                self.scopes.pop()
            return '()'
        return self.block(go)

    def diverge_value(self):
        return '()'

    def run_cleanups(self, frame):
        for fn in reversed(list(frame)):
            fn()

    def all_cleanups(self, upto=0):
        for fr in reversed(self.cleanups[upto:]):
            self.run_cleanups(fr)

    def stmt(self, n):
        k = n['kind']
        m = getattr(self, 's_' + k, None)
        if m: return m(n)
        if k.endswith(('Expr', 'Operator', 'Literal', 'ExprWithCleanups')):
            return self.discard(n)
        raise Unsupported('statement %s' % k)

    def discard(self, n):
        self.full_expr(lambda: self.expr_stmt(n))

    def full_expr(self, fn):
        """A full expression: temporaries with destructors die at its end."""
        self.cleanups.append([])
        r = fn()
        fr = self.cleanups.pop()
        if fr and r is not None:
            r = self.bind(r)
        self.run_cleanups(fr)
        return r

    def expr_stmt(self, n):
        c = self.rv(n, discard=True)
        if c and not re.match(r"^[\w']+$|^\(\)$", c):
            self.emit('let _ = %s in' % c)
        return None

    def s_CompoundStmt(self, n):
        self.emit(self.scoped(n.get('inner', ())) + ';')

    def s_NullStmt(self, n): pass

    def s_DeclStmt(self, n):
        for d in n.get('inner', ()):
            k = d.get('kind')
            if k == 'VarDecl': self.vardecl(d)
            elif k in ('TypedefDecl', 'TypeAliasDecl'):
                ty = d['type']
                self.p.types.typedefs.setdefault(d['name'], ty.get('desugaredQualType') or ty['qualType'])
            elif k in ('UsingDecl', 'UsingDirectiveDecl', 'StaticAssertDecl', 'CXXRecordDecl', 'EmptyDecl'): pass
            else: raise Unsupported('declaration %s' % k)

    def vname(self, name):
        return 'v_' + name

    def vardecl(self, d):
        name = d['name']; id_ = d['id']
        t = self.p.types.of(d)
        init = [x for x in d.get('inner', ()) if x.get('kind') and not x['kind'].endswith(('Comment', 'Attr'))]
        init = init[0] if init else None
        if d.get('storageClass') == 'static': raise Unsupported('static local %s' % name)
        wn = self.vname(name)
        sc = self.scopes[-1]
        if t.k == 'ref':
            t0 = t.a
            if t0.k in ('obj', 'vec', 'istream', 'ostream', 'map'):
                # reference to an object: alias by identity; a bound temporary lives as long as the reference
                e = init
                fr_before = self.cleanups
                self.cleanups.append([])
                c = self.rv(e)
                fr = self.cleanups.pop()
                self.cleanups[-1].extend(fr)
                self.emit('let %s = %s in' % (wn, c))
                sc[id_] = Var(name, wn, 'val', t0)
                return
            isconst = 'const ' in d['type']['qualType']
            if isconst or self.is_prvalue(init):
                c = self.full_expr(lambda: self.rv(init))
                self.emit('let %s = %s in' % (wn, c))
                sc[id_] = Var(name, wn, 'val', t0)
                return
            lv = self.lv(init)
            lv = self.freeze(lv)
            sc[id_] = Var(name, wn, 'alias', t0, lv)
            return
        if t.k == 'opaque' and 'chrono' in str(t.a):
            if init is not None: self.chrono_effects(init)
            sc[id_] = Var(name, wn, 'val', t)
            self.emit('let %s = any_int () in' % wn)
            return
        if t.k == 'opaque':
            sc[id_] = Var(name, wn, 'val', t)
            self.emit('let %s = any_int () in' % wn)
            return
        if t.k == 'obj':
            o = self.full_expr(lambda: self.construct_obj(init, t.a)) if init is not None else self.construct_obj(None, t.a)
            self.emit('let %s = %s in' % (wn, o))
            sc[id_] = Var(name, wn, 'val', t)
            self.add_dtor(t.a, wn)
            return
        if t.k in ('vec', 'istream', 'ostream', 'tokenizer'):
            c = self.full_expr(lambda: self.rv(init)) if init is not None else self.vec_new(t.a)
            self.emit('let %s = %s in' % (wn, c))
            sc[id_] = Var(name, wn, 'val', t)
            return
        if t.k == 'arr': raise Unsupported('local array %s' % name)
        if init is None:
            c = '(any_%s ())' % S.anyname(wt(t))
        else:
            c = self.full_expr(lambda: self.rv(init))
        if id_ in self.mut:
            self.emit('let %s = ref (%s) in' % (wn, c))
            sc[id_] = Var(name, wn, 'ref', t)
        else:
            self.emit('let %s = %s in' % (wn, c))
            sc[id_] = Var(name, wn, 'val', t)

    def chrono_effects(self, n):
        # clock values: arbitrary; only project functions called inside could have effects, and none take them
        def walk(x):
            if x.get('kind') in ('CallExpr', 'CXXMemberCallExpr'):
                g = self.callee(x)
                if g is not None: raise Unsupported('project call in a clock expression')
            for c in x.get('inner', ()): walk(c)
        walk(n)

    def add_dtor(self, cls, wn):
        d = self.dtor_of(cls)
        def go():
            if d is not None: self.call_func(d, wn, [])
            self.emit('kill_obj %s;' % wn); self.write('alive')
        go.obj = wn
        self.cleanups[-1].append(go)

    def s_ReturnStmt(self, n):
        c = self.ret_value(n, tail=False)
        self.uses_ret = True
        if self.ret_t.k == 'void':
            if c and c != '()': self.emit(c + ';')
            self.emit('raise Ret_unit;')
        else:
            self.emit('raise (%s (%s));' % (self.ret_exn(self.ret_t), c))

    def ret_value(self, n, tail):
        e = n['inner'][0] if n.get('inner') else None
        keep = None
        if e is None: c = '()'
        elif self.ret_t.k == 'obj':
            # returned local object: construction is elided (or equals a copy)
            x = e
            while x.get('kind') in ('ExprWithCleanups', 'ImplicitCastExpr', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr') or \
                  (x.get('kind') == 'CXXConstructExpr' and x.get('elidable')) or x.get('kind') == 'CXXFunctionalCastExpr' and x['inner'][0].get('kind') in ('CXXBindTemporaryExpr',):
                x = x['inner'][0]
            loc = None
            if x.get('kind') == 'CXXConstructExpr' and len(x.get('inner', ())) == 1:
                y = x['inner'][0]
                while y.get('kind') == 'ImplicitCastExpr': y = y['inner'][0]
                if y.get('kind') == 'DeclRefExpr' and self.p.types.of(y) == strip_ref(self.ret_t):
                    v = self.lookup(y['referencedDecl']['id'])
                    if v is not None and y['referencedDecl']['kind'] == 'VarDecl':
                        fr = [g for f in self.cleanups for g in f if getattr(g, 'obj', None) == v.wname]
                        if fr: loc = v.wname; keep = fr[-1]
            if loc: c = loc
            else: c = self.full_expr(lambda: self.construct_obj(e))
        elif self.ret_t.k == 'ref' and strip_ref(self.ret_t).k in ('real', 'int'):
            lv = self.lv(e)
            if lv.kind == 'mem': c = lv.a[0]
            else: raise Unsupported('returned reference')
        elif self.ret_t.k == 'void':
            self.expr_stmt(e); c = '()'
        else:
            c = self.full_expr(lambda: self.rv(e))
        # destructors of everything in scope
        if any(self.cleanups):
            if c != '()': c = self.bind(c)
            for fr in reversed(self.cleanups):
                for g in reversed(fr):
                    if g is not keep: g()
        if self.ret_mode == 'fn' and self.spec.exit:
            if c != '()':
                self.emit('let result = %s in' % c)
            self.emit_spec(self.spec.exit)
            if c != '()': c = 'result'
        return c

    def cond(self, n):
        return self.full_expr(lambda: self.rv(n))

    def s_IfStmt(self, n):
        inn = [c for c in n['inner'] if c.get('kind')]
        if n.get('hasInit') or n.get('hasVar'): raise Unsupported('if with declaration')
        c = self.cond(inn[0])
        saved, self.writes = self.writes, set()
        th = self.branch(inn[1])
        el = self.branch(inn[2]) if len(inn) > 2 else None
        quiet = not self.writes
        self.writes |= saved
        body = th + ' ' + (el or '')
        if quiet and not re.search(r':=|\braise\b|\babsurd\b', body):
            # no effect: what follows need not be verified once per branch
            self.emit('begin ensures { true } if %s then %s%s end;' % (c, th, ' else %s' % el if el else ''))
            return
        m = re.match(r'^begin\s+(v_\w+) := (true|false);\s*\(\)\s*end$', th)
        if quiet and el is None and m:
            b = self.bind(c)
            self.emit('begin ensures { !%s = (if %s then %s else old !%s) } if %s then %s end;' % (m.group(1), b, m.group(2), m.group(1), b, th))
            return
        self.emit('if %s then %s%s;' % (c, th, ' else %s' % el if el else ''))

    def branch(self, s):
        if s['kind'] == 'CompoundStmt': return self.scoped(s.get('inner', ()))
        return self.scoped([s])

    def has_jump(self, n, kind):
        """Does n contain a break/continue that targets the enclosing loop?"""
        k = n.get('kind')
        if k == kind: return True
        if k in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt'): return False
        if k == 'SwitchStmt' and kind == 'BreakStmt': return False
        return any(self.has_jump(c, kind) for c in n.get('inner', ()) if isinstance(c, dict))

    def loop_header(self):
        """Spec of the next loop; returns (invariant text, hooks)."""
        self.loopno += 1
        ls = self.spec.loops.get(self.loopno)
        rec = {'no': self.loopno, 'vars': [(v.name, v.wname, v.kind, v.t) for s in self.scopes for v in s.values()]}
        self.loops.append(rec)
        if ls is None:
            ls = S.LoopSpec()
        return ls

    def loop(self, cond_fn, body, inc, ls, do_while=False):
        no = self.loopno
        has_b = self.has_jump(body, 'BreakStmt'); has_c = self.has_jump(body, 'ContinueStmt')
        outer_writes = self.writes
        if ls.before: self.emit_spec(ls.before)
        def body_go():
            if ls.begin: self.emit_spec(ls.begin)
            self.loop_depth.append(len(self.cleanups))
            b = self.scoped(body.get('inner', ())) if body['kind'] == 'CompoundStmt' else self.scoped([body])
            self.loop_depth.pop()
            if has_c: b = 'try %s with Cont -> () end' % b
            self.emit(b + ';')
            if ls.end: self.emit_spec(ls.end)
            if inc is not None: inc()
            return '()'
        def inv_text(writes):
            r = ''
            for (label, tags, txt) in ls.invariants:
                r += '  invariant { [@expl:%s] %s }\n' % (S.expl(self.f, 'inv', label or 'loop %d' % no, tags), self.spec_text(txt))
            for g in sorted(writes):
                fr = self.frame(g, 'L%d' % no, ls)
                if fr: r += '  invariant { [@expl:%s] %s }\n' % (S.expl(self.f, 'inv', 'loop %d leaves other %s alone' % (no, g), ''), fr)
            for v in ls.variants:
                r += '  variant { [@expl:%s] %s }\n' % (S.expl(self.f, 'variant', 'loop %d terminates' % no, ''), self.spec_text(v))
            if not ls.variants: r += '  (* termination not claimed *)\n'
            return r
        def full():
            # translate the body first: its writes determine the frame invariants
            saved_loop, saved_calls = self.loopno, dict(self.call_no)
            self.writes = set()
            b = self.block(body_go)
            saved = self.out; self.out = []
            c = cond_fn() if cond_fn is not None else 'true'
            pre = self.out; self.out = saved
            w = self.writes
            self.writes = outer_writes | w
            if pre:
                c = 'begin\n%s\n%s end' % ('\n'.join(pre), c)
            self.snap = {}
            inv = inv_text(w)
            for m in re.finditer(r'\bl%d_((?:f|n|v|st|os|gh)_\w+|imem|dmem|dlen|dkind|bown|alive)\b' % no, inv + b):
                self.snap[m.group(1)] = m.group(0)
            pre_snap = ''.join('let ghost %s = !%s in\n' % (a, g) for g, a in sorted(self.snap.items()))
            self.snap = None
            return 'begin %slabel L%d in while %s do\n%s %s\ndone end' % (pre_snap, no, c, inv, b)
        if do_while:
            first = self.block(body_go)
            self.emit('try' if has_b else 'begin')
            self.emit(first + ';')
            n0 = self.loopno
            self.emit(full())
            self.emit('with Break -> () end;' if has_b else 'end;')
        else:
            w = full()
            if has_b: w = 'try %s with Break -> () end' % w
            self.emit(w + ';')
        if ls.after: self.emit_spec(ls.after)

    def frame(self, g, label, ls):
        """Frame condition of global map g relative to label (None: function entry)."""
        groups = frame_groups(g, self.p.classes)
        if groups is None or 'noframes' in self.spec.opts: return None
        def at(e):
            # value of e at loop entry: through snapshots taken before the loop
            def r(m):
                x = m.group(1)
                self.snap[x] = '%s_%s' % (label.lower(), x)
                return self.snap[x]
            return '(%s)' % re.sub(r"!(\w+)", r, e)
        def old(e): return '(old %s)' % e if label is None else at(e)
        conds = []
        x = 'b_' if groups[0] in ('mem', 'own') else 'o_'
        def add(lst, isold, lab):
            for (grp, e) in lst:
                if grp in groups or grp == 'all':
                    if e.startswith('{'):
                        t = re.sub(r'\bo_\b', x, self.spec_text(e[1:-1]))
                        conds.append('not (%s)' % (('(old (%s))' % t) if isold else at(self.w.spec.apply_heap(t))))
                    else:
                        t = self.spec_text(e)
                        t = '(old (%s))' % t if isold else at(self.w.spec.apply_heap(t))
                        conds.append('%s <> %s' % (x, t))
        add(self.spec.modifies, True, None)
        if self.f.kind in ('ctor', 'dtor'):
            own = [self.f.cls]
            for c in own: own += self.p.classes[c].bases if c in self.p.classes else []
            if any(c in groups for c in own): conds.append('%s <> this' % x)
        if ls is not None: add(ls.modifies, False, label)
        if groups[0] in ('mem', 'own'): dom = '%s[b_] <> 0' % old('!dkind')
        else: dom = '%s[o_]' % old('!alive')
        hyp = ' /\\ '.join([dom] + conds)
        if g == 'alive': concl = '(!alive)[o_]'
        else: concl = '(!%s)[%s] = %s[%s]' % (g, x, old('!' + g), x)
        return 'forall %s:int [(!%s)[%s]]. %s -> %s' % (x, g, x, hyp, concl)

    def s_ForStmt(self, n):
        inn = n['inner']     # init, condvar, cond, inc, body
        init, cv, cond, inc, body = inn
        if cv and cv.get('kind'): raise Unsupported('for with condition variable')
        def go():
            self.scopes.append({})
            self.cleanups.append([])
            if init and init.get('kind'): self.stmt(init)
            ls = self.loop_header()
            cf = (lambda: self.cond(cond)) if cond and cond.get('kind') else None
            inf = (lambda: self.discard(inc)) if inc and inc.get('kind') else None
            self.loop(cf, body, inf, ls)
            self.run_cleanups(self.cleanups[-1])
            self.cleanups.pop()
            self.scopes.pop()
            return '()'
        self.emit(self.block(go) + ';')

    def s_WhileStmt(self, n):
        inn = [c for c in n['inner'] if c.get('kind')]
        ls = self.loop_header()
        self.loop(lambda: self.cond(inn[0]), inn[1], None, ls)

    def is_false(self, n):
        while n.get('kind') in ('ParenExpr', 'ImplicitCastExpr'): n = n['inner'][0]
        return n.get('kind') in ('IntegerLiteral', 'CXXBoolLiteralExpr') and n.get('value') in ('0', False)

    def s_DoStmt(self, n):
        body, cond = n['inner'][0], n['inner'][1]
        if self.is_false(cond) and not self.has_jump(body, 'BreakStmt') and not self.has_jump(body, 'ContinueStmt'):
            self.emit(self.branch(body) + ';')
            return
        ls = self.loop_header()
        self.loop(lambda: self.cond(cond), body, None, ls, do_while=True)

    def s_CXXForRangeStmt(self, n):
        inn = [c for c in n['inner'] if c.get('kind')]
        # DeclStmt __range, __begin, __end, cond, inc, DeclStmt var, body
        rng = inn[0]['inner'][0]
        body = inn[-1]
        var = inn[-2]['inner'][0]
        rexpr = rng['inner'][0]
        t = strip_ref(self.p.types.of(rng))
        if t.k == 'opaque': t = strip_ref(self.p.types.of(rexpr))
        def go():
            self.scopes.append({}); self.cleanups.append([])
            if t.k == 'vec':
                e = self.w.need_vec(t.a)
                r = self.bind(self.rv(rexpr), 'rng')
                i = self.fresh('it')
                self.emit('let %s = ref 0 in' % i)
                self.scopes[-1]['__it' + i] = Var('__it', i, 'ref', INT)
                ls = self.loop_header()
                def pre():
                    wn = self.vname(var['name'])
                    vt = self.p.types.of(var)
                    if vt.k == 'ref' and not ('const ' in var['type']['qualType']) and t.a.k not in ('obj', 'vec'):
                        lv = Lv('vec', t.a, r, '!' + i, e)
                        self.scopes[-1][var['id']] = Var(var['name'], wn, 'alias', t.a, lv)
                    else:
                        self.emit('let %s = vec_get_%s %s !%s in' % (wn, e, r, i))
                        self.scopes[-1][var['id']] = Var(var['name'], wn, 'val', t.a)
                        if var['id'] in self.mut: raise Unsupported('range-for variable modified')
                self.range_pre = pre
                b2 = body if body['kind'] == 'CompoundStmt' else {'kind': 'CompoundStmt', 'inner': [body]}
                b3 = dict(b2); b3['inner'] = [{'kind': 'RangePre', 'fn': pre}] + list(b2.get('inner', ()))
                self.loop(lambda: '!%s < vec_size_%s %s' % (i, e, r), b3, lambda: self.emit('%s := !%s + 1;' % (i, i)), ls)
            elif t.k == 'map':
                i = self.fresh('more')
                self.emit('let %s = ref (any_bool ()) in' % i)
                ls = self.loop_header()
                def pre():
                    wn = self.vname(var['name'])
                    self.emit('let %s = any_pair_str_int () in' % wn)
                    self.scopes[-1][var['id']] = Var(var['name'], wn, 'val', T('pair', STR, t.b))
                    self.emit('let _ = assume_cmd (p_snd %s) in' % wn)
                b2 = body if body['kind'] == 'CompoundStmt' else {'kind': 'CompoundStmt', 'inner': [body]}
                b3 = dict(b2); b3['inner'] = [{'kind': 'RangePre', 'fn': pre}] + list(b2.get('inner', ()))
                self.loop(lambda: '!%s' % i, b3, lambda: self.emit('%s := any_bool ();' % i), ls)
            else:
                raise Unsupported('range for over %r' % t)
            self.run_cleanups(self.cleanups[-1]); self.cleanups.pop(); self.scopes.pop()
            return '()'
        self.emit(self.block(go) + ';')

    def s_RangePre(self, n):
        n['fn']()

    def s_BreakStmt(self, n):
        self.all_cleanups(self.loop_depth[-1])
        self.emit('raise Break;')

    def s_ContinueStmt(self, n):
        self.all_cleanups(self.loop_depth[-1])
        self.emit('raise Cont;')

    def s_CXXTryStmt(self, n):
        body = n['inner'][0]
        saved = self.raises
        self.raises = set()
        b = self.scoped(body.get('inner', ()))
        inner_raises = self.raises
        self.raises = saved
        handlers = []
        left = set(inner_raises)
        for h in n['inner'][1:]:
            var = [c for c in h['inner'] if c.get('kind') == 'VarDecl']
            comp = [c for c in h['inner'] if c.get('kind') == 'CompoundStmt'][0]
            if not var:
                ex = sorted(left)
            else:
                q = var[0]['type'].get('desugaredQualType') or var[0]['type']['qualType']
                q = q.replace('const ', '').replace('&', '').replace('onex::', '').strip()
                q = q.replace('std::', '')
                if q in ('OnexException', 'runtime_error'): ex = ['E_onex']
                elif q == 'invalid_argument': ex = ['E_invalid']
                elif q == 'out_of_range': ex = ['E_range']
                elif q == 'logic_error': ex = list(LOGIC)
                elif q == 'exception': ex = list(ALLEXN)
                else: raise Unsupported('catch of %s' % q)
            for e in ex:
                if e not in left: continue
                left.discard(e)
                self.curexn.append(e)
                handlers.append('%s -> %s' % (e, self.scoped(comp.get('inner', ()))))
                self.curexn.pop()
        self.raises |= left
        if handlers:
            self.emit('try %s with %s end;' % (b, ' | '.join(handlers)))
        else:
            self.emit(b + ';')

    def s_CXXThrowExpr(self, n):
        self.throw(n)

    def throw(self, n):
        if not n.get('inner'):
            if not self.curexn: raise Unsupported('rethrow outside handler')
            e = self.curexn[-1]
        else:
            q = n['inner'][0]['type'].get('desugaredQualType') or n['inner'][0]['type']['qualType']
            q = q.replace('const ', '').replace('onex::', '').replace('std::', '').strip()
            if q in EXN: e = EXN[q]
            else: raise Unsupported('throw of %s' % q)
        self.raises.add(e)
        self.emit('raise %s;' % e)

    def s_SwitchStmt(self, n):
        raise Unsupported('switch')

    # ------------------------------------------------------------------ lvalues
    def is_prvalue(self, n):
        while n.get('kind') in ('ExprWithCleanups', 'ParenExpr'): n = n['inner'][0]
        return n.get('kind') == 'MaterializeTemporaryExpr' or n.get('valueCategory') == 'prvalue'

    def freeze(self, lv):
        """Evaluate an lvalue's subexpressions once."""
        a = list(lv.a)
        if lv.kind == 'mem': a[0] = self.bind(a[0], 'p')
        elif lv.kind == 'vec': a[0] = self.bind(a[0]); a[1] = self.bind(a[1], 'ix')
        elif lv.kind == 'field': a[0] = self.bind(a[0])
        elif lv.kind == 'sub': a[0] = self.freeze(a[0])
        return Lv(lv.kind, lv.t, *a)

    def lv(self, n):
        k = n['kind']
        if k in ('ParenExpr', 'ExprWithCleanups', 'ConstantExpr'):
            return self.lv(n['inner'][0])
        if k == 'ImplicitCastExpr' and n.get('castKind') in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'LValueBitCast'):
            return self.lv(n['inner'][0])
        if k == 'MaterializeTemporaryExpr':
            t = self.p.types.of(n)
            return Lv('rv', t, self.rv(n['inner'][0]))
        if k == 'DeclRefExpr':
            rd = n['referencedDecl']
            v = self.lookup(rd['id'])
            if v is None:
                return self.gvar_lv(rd, n)
            if v.kind == 'alias': return v.lv
            return Lv('var', v.t, v)
        if k == 'MemberExpr':
            return self.member_lv(n)
        if k == 'ArraySubscriptExpr':
            b = self.rv(n['inner'][0]); i = self.rv(n['inner'][1])
            bt = self.p.types.of(n['inner'][0])
            if bt.k == 'ptr' and bt.a.k in ('real', 'int'):
                return Lv('mem', bt.a, 'padd %s (%s)' % (self.atom(b), i), bt.a.k)
            raise Unsupported('subscript of %r' % bt)
        if k == 'UnaryOperator' and n['opcode'] == '*':
            bt = self.p.types.of(n['inner'][0])
            b = self.rv(n['inner'][0])
            if bt.k == 'ptr' and bt.a.k in ('real', 'int'):
                return Lv('mem', bt.a, self.atom(b), bt.a.k)
            if bt.k == 'ptr' and bt.a.k == 'obj':
                return Lv('obj', bt.a, self.deref(b))
            raise Unsupported('dereference of %r' % bt)
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--') and not n.get('isPostfix'):
            self.rv(n, discard=True)
            return self.lv(n['inner'][0])
        if k in ('BinaryOperator', 'CompoundAssignOperator') and n['opcode'].endswith('=') and n['opcode'] not in ('==', '!=', '<=', '>='):
            self.rv(n, discard=True)
            return self.lv(n['inner'][0])
        if k == 'CXXThisExpr':
            return Lv('obj', T('obj', self.f.cls), self.this)
        if k == 'CXXOperatorCallExpr':
            r = self.opcall_lv(n)
            if r is not None: return r
        if k == 'CXXMemberCallExpr':
            r = self.memcall_lv(n)
            if r is not None: return r
        t = self.p.types.of(n)
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr') and n.get('valueCategory') == 'lvalue':
            g = self.callee(n)
            if g is not None and g.ret.k == 'ref' and strip_ref(g.ret).k in ('real', 'int'):
                if k == 'CXXOperatorCallExpr' and g.kind == 'method':
                    inn = [c for c in n['inner'][1:] if c.get('kind')]
                    o = self.obj_of(inn[0], False)
                    c = self.bind(self.call_func(g, o, self.args(g, inn[1:], n)), 'p')
                else:
                    c = self.bind(self.call_expr(n), 'p')
                return Lv('mem', strip_ref(g.ret), c, strip_ref(g.ret).k)
        if t.k in ('obj', 'vec', 'istream', 'ostream', 'map', 'tokenizer', 'ios'):
            return Lv('obj', t, self.rv(n))
        return Lv('rv', t, self.rv(n))

    def gvar_lv(self, rd, n):
        name = rd['name']
        if name in ('cout', 'cerr', 'clog'): return Lv('cout', T('ostream'))
        if name in self.p.globals:
            t, init, tu = self.p.globals[name]
            if t.k == 'opaque': return Lv('rv', t, '(any_int ())')
            if t.k in ('obj', 'vec', 'map'):
                self.w.gvars[name] = t
                return Lv('obj', t, 'gobj_' + name)
            self.w.gvars[name] = t
            return Lv('gvar', t, 'gv_' + name)
        if name in ('max_digits10',): return Lv('rv', INT, '17')
        if name in ('digits10',): return Lv('rv', INT, '15')
        raise Unsupported('variable %s' % name)

    def member_lv(self, n):
        e = self.p.ids.get((self.tu, n.get('referencedMemberDecl')))
        base = n['inner'][0]
        if e and e[0] == 'field':
            cls, fname = e[1], e[2]
            if self.p.classes[cls].kind == 'rec':
                if n.get('isArrow'): raise Unsupported('pointer to record')
                blv = self.lv(base)
                fd = self.p.field(cls, fname)
                return Lv('sub', fd.t, blv, 'r_%s_%s' % (cls, fname))
            o = self.obj_of(base, n.get('isArrow'))
            fd = self.p.field(cls, fname)
            g = 'f_%s_%s' % (cls, fname)
            if fd.t.k in ('obj', 'vec'):
                return Lv('obj', fd.t, '!%s[%s]' % (g, o))
            return Lv('field', fd.t, o, g)
        name = n.get('name')
        if name in ('first', 'second'):
            blv = self.lv(base)
            bt = strip_ref(blv.t)
            if bt.k == 'pair':
                return Lv('sub', bt.a if name == 'first' else bt.b, blv, name)
        raise Unsupported('member %s' % name)

    def obj_of(self, base, arrow):
        if base.get('kind') == 'CXXThisExpr': return self.this
        if arrow:
            c = self.rv(base)
            return self.deref(c)
        lv = self.lv(base)
        if lv.kind in ('obj',): return self.atom(self.bind(lv.a[0]))
        return self.atom(self.bind(self.load(lv)))

    def deref(self, c):
        c = self.bind(c)
        if c == self.this or c.startswith('gobj_'): return c
        self.emit('check_obj %s;' % c)
        return c

    def atom(self, c):
        if re.match(r"^[\w'!]+$", c): return c
        return '(%s)' % c

    def load(self, lv):
        k = lv.kind
        if k == 'var':
            v = lv.a[0]
            return ('!' + v.wname) if v.kind == 'ref' else v.wname
        if k == 'field': return '!%s[%s]' % (lv.a[1], lv.a[0])
        if k == 'gvar': return '!%s' % lv.a[0]
        if k == 'mem':
            return self.bind('load_%s %s' % (lv.a[1], self.atom(lv.a[0])))
        if k == 'vec':
            return self.bind('vec_get_%s %s %s' % (lv.a[2], self.atom(lv.a[0]), self.atom(lv.a[1])))
        if k == 'sub':
            b = self.load(lv.a[0])
            if lv.a[1] == 'first': return '(let (x_, _) = %s in x_)' % self.atom(b)
            if lv.a[1] == 'second': return '(let (_, x_) = %s in x_)' % self.atom(b)
            return '%s.%s' % (self.atom(b), lv.a[1])
        if k in ('obj', 'rv'): return lv.a[0]
        if k == 'cout': return '0'
        raise Unsupported('load of %s' % k)

    def store(self, lv, c):
        k = lv.kind
        if k == 'var':
            v = lv.a[0]
            if v.kind != 'ref': raise Unsupported('assignment to immutable %s' % v.name)
            self.emit('%s := %s;' % (v.wname, c))
        elif k == 'field': self.set_global(lv.a[1], lv.a[0], c)
        elif k == 'gvar':
            self.emit('%s := %s;' % (lv.a[0], c)); self.write(lv.a[0])
        elif k == 'mem':
            self.emit('store_%s %s %s;' % (lv.a[1], self.atom(lv.a[0]), self.atom(c)))
            self.write('dmem' if lv.a[1] == 'real' else 'imem')
        elif k == 'vec':
            self.emit('vec_set_%s %s %s %s;' % (lv.a[2], self.atom(lv.a[0]), self.atom(lv.a[1]), self.atom(c)))
            self.write('v_' + lv.a[2])
        elif k == 'sub':
            b = self.bind(self.load(lv.a[0]))
            if lv.a[1] == 'first': nc = '(%s, (let (_, x_) = %s in x_))' % (c, b)
            elif lv.a[1] == 'second': nc = '((let (x_, _) = %s in x_), %s)' % (b, c)
            else: nc = '{ %s with %s = %s }' % (b, lv.a[1], c)
            self.store(lv.a[0], nc)
        else: raise Unsupported('store to %s' % k)

    # ------------------------------------------------------------------ rvalues
    def rv(self, n, discard=False):
        k = n['kind']
        m = getattr(self, 'e_' + k, None)
        if m is None: raise Unsupported('expression %s' % k)
        if k in ('BinaryOperator', 'UnaryOperator', 'CompoundAssignOperator', 'CXXOperatorCallExpr', 'ExprWithCleanups', 'ParenExpr'):
            return m(n, discard)
        return m(n)

    def rv_or_id(self, n):
        return self.rv(n)

    def e_ExprWithCleanups(self, n, discard=False): return self.rv(n['inner'][0], discard)
    def e_ParenExpr(self, n, discard=False): return self.rv(n['inner'][0], discard)
    def e_ConstantExpr(self, n): return self.rv(n['inner'][0])
    def e_CXXDefaultArgExpr(self, n): raise Unsupported('default argument')

    def e_MaterializeTemporaryExpr(self, n):
        return self.rv(n['inner'][0])

    def e_CXXBindTemporaryExpr(self, n):
        t = self.p.types.of(n)
        c = self.rv(n['inner'][0])
        if t.k == 'obj':
            c = self.bind(c, 'tmpo')
            self.add_dtor(t.a, c)
        return c

    def e_CXXThisExpr(self, n): return self.this
    def e_CXXNullPtrLiteralExpr(self, n): return '0'
    def e_GNUNullExpr(self, n): return '0'
    def e_IntegerLiteral(self, n): return n['value']
    def e_CharacterLiteral(self, n): return str(n['value'])
    def e_CXXBoolLiteralExpr(self, n): return 'true' if n.get('value') else 'false'
    def e_FloatingLiteral(self, n): return real_lit(n['value'])
    def e_StringLiteral(self, n):
        import json
        try: s = json.loads(n['value'])
        except Exception: s = n['value']
        return self.w.strlit(s)
    def e_CXXThrowExpr(self, n):
        self.throw(n); return '()'
    def e_UnaryExprOrTypeTraitExpr(self, n):
        if n.get('name') != 'sizeof': raise Unsupported('%s' % n.get('name'))
        if 'argType' in n:
            q = n['argType'].get('desugaredQualType') or n['argType']['qualType']
            t = self.p.types.parse(q)
        else: t = self.p.types.of(n['inner'][0])
        if t.k not in SIZEOF: raise Unsupported('sizeof %r' % t)
        return str(SIZEOF[t.k])

    def e_ImplicitCastExpr(self, n):
        ck = n['castKind']; e = n['inner'][0]
        if ck == 'LValueToRValue':
            return self.load(self.lv(e))
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'ConstructorConversion', 'UserDefinedConversion', 'FunctionToPointerDecay',
                  'ArrayToPointerDecay', 'BitCast', 'BuiltinFnToFnPtr', 'LValueBitCast'):
            return self.rv(e)
        if ck == 'NullToPointer':
            t = self.p.types.of(n)
            return 'null_ptr' if wt(t) == 'ptr' else '0'
        if ck == 'IntegralCast':
            return self.int_cast(e, self.p.types.of(n))
        if ck == 'IntegralToFloating':
            t = self.p.types.of(e)
            c = self.rv(e)
            m = re.match(r'^(\d+)$', c)
            if m: return real_lit(c)
            return '(of_int %s)' % self.atom(c)
        if ck == 'FloatingToIntegral': return self.bind('f2i %s' % self.atom(self.rv(e)))
        if ck == 'FloatingCast': return self.rv(e)
        if ck == 'IntegralToBoolean': return '(%s <> 0)' % self.rv(e)
        if ck == 'FloatingToBoolean': return '(fne %s (of_int 0))' % self.atom(self.rv(e))
        if ck == 'PointerToBoolean':
            t = self.p.types.of(e)
            c = self.rv(e)
            return '(not (ptr_is_null %s))' % self.atom(c) if wt(t) == 'ptr' else '(%s <> 0)' % c
        if ck == 'ToVoid':
            c = self.rv(e, True) if e['kind'] in ('BinaryOperator',) else self.rv(e)
            if not re.match(r"^[\w']+$", c or '()'): self.emit('let _ = %s in' % c)
            return '()'
        raise Unsupported('cast %s' % ck)

    def int_cast(self, e, t):
        st = self.p.types.of(e)
        c = self.rv(e)
        if st.k == 'bool': return '(if %s then 1 else 0)' % c
        if t.k == 'uint' and st.k in ('int', 'char'):
            if re.match(r'^\d+$', c): return c
            return self.bind('to_unsigned %s' % self.atom(c), 'u')
        return c

    def e_CXXStaticCastExpr(self, n): return self.cast_expr(n)
    def e_CStyleCastExpr(self, n): return self.cast_expr(n)
    def e_CXXFunctionalCastExpr(self, n): return self.cast_expr(n)
    def cast_expr(self, n):
        ck = n.get('castKind')
        e = n['inner'][0]
        if ck in ('ConstructorConversion', 'NoOp'): return self.rv(e)
        if ck == 'BitCast':
            t = self.p.types.of(n)
            # malloc pattern
            x = e
            while x['kind'] in ('ParenExpr', 'ImplicitCastExpr'): x = x['inner'][0]
            if x['kind'] == 'CallExpr' and self.callee_name(x) == 'malloc' and t.k == 'ptr' and t.a.k in ('int', 'real'):
                sz = self.rv(x['inner'][1])
                self.write('bown', 'dlen', 'dkind')
                return self.bind('malloc_cells (%s) %d' % (sz, SIZEOF[t.a.k]), 'p')
            raise Unsupported('bit cast')
        m = dict(n); m['kind'] = 'ImplicitCastExpr'
        return self.e_ImplicitCastExpr(m)

    def e_DeclRefExpr(self, n):
        rd = n['referencedDecl']
        if rd['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            e = self.p.ids.get((self.tu, rd['id']))
            if e and e[0] == 'func':
                f = self.p.by_mangled[e[1]]
                for i, g in enumerate(self.w.fn_codes()):
                    if g.key == f.key:
                        return 'code_%s' % g.name
            raise Unsupported('function value %s' % rd['name'])
        if rd['kind'] == 'EnumConstantDecl': raise Unsupported('enum')
        return self.load(self.lv(n))

    def e_MemberExpr(self, n):
        return self.load(self.lv(n))

    def e_ArraySubscriptExpr(self, n):
        return self.load(self.lv(n))

    def e_UnaryOperator(self, n, discard=False):
        op = n['opcode']; e = n['inner'][0]
        t = self.p.types.of(n)
        if op == '!':
            return '(not %s)' % self.atom(self.rv(e))
        if op == '-':
            c = self.rv(e)
            if t.k == 'real': return '(fneg %s)' % self.atom(c)
            return '(- %s)' % self.atom(c)
        if op == '+': return self.rv(e)
        if op == '*': return self.load(self.lv(n))
        if op == '&':
            lv = self.lv(e)
            if lv.kind == 'mem': return lv.a[0]
            if lv.kind == 'obj': return lv.a[0]
            if lv.kind == 'var' and lv.t.k in ('obj', 'vec'): return lv.a[0].wname
            raise Unsupported('address of %s' % lv.kind)
        if op in ('++', '--'):
            lv = self.freeze(self.lv(e))
            c = self.load(lv)
            o = '+' if op == '++' else '-'
            if lv.t.k == 'ptr':
                nc = 'padd %s %s' % (self.atom(c), '1' if op == '++' else '(-1)')
            elif lv.t.k == 'real': nc = '%s %s (of_int 1)' % ('fadd' if op == '++' else 'fsub', self.atom(c))
            elif lv.t.k == 'uint' and op == '--': nc = 'usub %s 1' % self.atom(c)
            else: nc = '%s %s 1' % (c, o)
            if n.get('isPostfix') and not discard:
                old = self.fresh('old')
                self.emit('let %s = %s in' % (old, c))
                self.store(lv, nc)
                return old
            self.store(lv, nc)
            return '()' if discard else self.load(lv)
        raise Unsupported('unary %s' % op)

    REALOP = {'+': 'fadd', '-': 'fsub', '*': 'fmul', '/': 'fdiv'}
    CMPR = {'<': 'flt', '<=': 'fle', '>': 'fgt', '>=': 'fge', '==': 'feq', '!=': 'fne'}

    def arith(self, op, t, a, b):
        if t.k == 'real':
            if op not in self.REALOP: raise Unsupported('real %s' % op)
            return '(%s %s %s)' % (self.REALOP[op], self.atom(a), self.atom(b))
        if t.k == 'ptr':
            if op == '+': return 'padd %s %s' % (self.atom(a), self.atom(b))
            if op == '-': return 'padd %s (- %s)' % (self.atom(a), self.atom(b))
        if op in '+*': return '(%s %s %s)' % (a if op == '+' else self.atom(a), op, self.atom(b))
        if op == '-':
            if t.k == 'uint': return self.bind('usub %s %s' % (self.atom(a), self.atom(b)))
            return '(%s - %s)' % (a, self.atom(b))
        if op == '/': return self.bind('cdiv %s %s' % (self.atom(a), self.atom(b)))
        if op == '%': return self.bind('cmod %s %s' % (self.atom(a), self.atom(b)))
        raise Unsupported('integer %s' % op)

    def e_BinaryOperator(self, n, discard=False):
        op = n['opcode']; a, b = n['inner'][0], n['inner'][1]
        if op == '=':
            lt = self.p.types.of(a)
            lv = None
            c = self.rv(b)
            if re.search(r'[^\w!.\' ()-]', c) or True:
                pass
            lv = self.lv(a)
            if lv.kind in ('mem', 'vec', 'field', 'sub'): lv = self.freeze(lv)
            if lv.kind == 'rv' and lv.t.k == 'opaque': return '()'
            if lv.t.k == 'opaque': return '()'
            if not discard: c = self.bind(c)
            self.store(lv, c)
            return '()' if discard else c
        if op == ',':
            self.expr_stmt(a)
            return self.rv(b, discard) if b['kind'] in ('BinaryOperator', 'UnaryOperator', 'ExprWithCleanups', 'CompoundAssignOperator', 'CXXOperatorCallExpr') else self.rv(b)
        if op in ('&&', '||'):
            ca = self.rv(a)
            saved = self.out; self.out = []
            cb = self.rv(b)
            pre = self.out; self.out = saved
            if pre: cb = 'begin\n%s\n%s end' % ('\n'.join(pre), cb)
            return '(%s %s %s)' % (self.atom(ca), op, self.atom(cb) if not pre else '(%s)' % cb)
        ta = self.p.types.of(a); tb = self.p.types.of(b)
        t = self.p.types.of(n)
        ca = self.rv(a)
        if self.effectful(b): ca = self.bind(ca)
        cb = self.rv(b)
        if op in ('<', '<=', '>', '>=', '==', '!='):
            if ta.k == 'real': return '(%s %s %s)' % (self.CMPR[op], self.atom(ca), self.atom(cb))
            if ta.k == 'ptr' and wt(ta) == 'ptr':
                if op == '==': return '(ptr_eq %s %s)' % (self.atom(ca), self.atom(cb))
                if op == '!=': return '(not (ptr_eq %s %s))' % (self.atom(ca), self.atom(cb))
                raise Unsupported('pointer comparison')
            if ta.k == 'bool':
                r = '(bool_eq %s %s)' % (self.atom(ca), self.atom(cb))
                return r if op == '==' else '(not %s)' % r
            o = {'==': '=', '!=': '<>'}.get(op, op)
            return '(%s %s %s)' % (ca, o, cb)
        if t.k == 'ptr' and tb.k == 'ptr' and ta.k != 'ptr': ca, cb = cb, ca
        if op == '-' and ta.k == 'ptr' and tb.k == 'ptr': raise Unsupported('pointer difference')
        return self.arith(op, t, ca, cb)

    def effectful(self, n):
        k = n.get('kind')
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'CXXConstructExpr', 'CXXNewExpr', 'CompoundAssignOperator'): return True
        if k == 'UnaryOperator' and n.get('opcode') in ('++', '--'): return True
        if k == 'BinaryOperator' and n.get('opcode') == '=': return True
        return any(self.effectful(c) for c in n.get('inner', ()) if isinstance(c, dict))

    def e_CompoundAssignOperator(self, n, discard=False):
        op = n['opcode'][:-1]
        a, b = n['inner'][0], n['inner'][1]
        c2 = self.rv(b)
        if self.effectful(a): c2 = self.bind(c2)
        lv = self.freeze(self.lv(a))
        c1 = self.load(lv)
        lt = strip_ref(lv.t)
        ct = n.get('computeResultType', {})
        rt = self.p.types.parse(ct.get('desugaredQualType') or ct.get('qualType') or 'int') if ct else lt
        if rt.k == 'real' and lt.k != 'real': raise Unsupported('compound assignment int/real')
        if lt.k == 'real' and self.p.types.of(b).k != 'real': c2 = '(of_int %s)' % self.atom(c2)
        c = self.arith(op, lt, c1, c2)
        self.store(lv, c)
        return '()' if discard else self.load(lv)

    def e_ConditionalOperator(self, n):
        c = self.rv(n['inner'][0])
        def br(x):
            saved = self.out; self.out = []
            v = self.rv(x)
            pre = self.out; self.out = saved
            return 'begin\n%s\n%s end' % ('\n'.join(pre), v) if pre else self.atom(v)
        t = self.p.types.of(n)
        if t.k == 'obj': raise Unsupported('conditional object')
        return self.bind('(if %s then %s else %s)' % (c, br(n['inner'][1]), br(n['inner'][2])))

    # ------------------------------------------------------------------ new / delete
    def e_CXXNewExpr(self, n):
        t = self.p.types.of(n)
        inn = [c for c in n.get('inner', ()) if c.get('kind')]
        if n.get('isArray'):
            if t.a.k not in ('real', 'int'): raise Unsupported('new[] of %r' % t.a)
            c = self.rv(inn[0])
            self.write('bown', 'dlen', 'dkind')
            return self.bind('new_array (%s)' % c, 'p')
        if t.a.k in ('real', 'int'):
            self.write('bown', 'dlen', 'dkind')
            return self.bind('new_scalar ()', 'p')
        if t.a.k != 'obj': raise Unsupported('new %r' % t.a)
        return self.construct_obj(inn[0] if inn else None, t.a.a)

    def e_CXXDeleteExpr(self, n):
        e = n['inner'][0]
        t = self.p.types.of(e)
        c = self.rv(e)
        if t.k != 'ptr': raise Unsupported('delete %r' % t)
        if wt(t) == 'ptr':
            arr = n.get('isArrayAsWritten') or n.get('isArray')
            self.emit('%s %s;' % ('delete_array' if arr else 'delete_scalar', self.atom(c)))
            self.write('dkind', 'dlen')
            return '()'
        if t.a.k == 'char' or t.a.k == 'void':
            self.emit('delete_char %s %s;' % ('true' if (n.get('isArrayAsWritten') or n.get('isArray')) else 'false', self.atom(c)))
            return '()'
        if t.a.k != 'obj' or n.get('isArray'): raise Unsupported('delete %r' % t)
        o = self.bind(c, 'del')
        d = self.dtor_of(t.a.a)
        def go():
            self.emit('check_obj %s;' % o)
            if d is not None: self.call_func(d, o, [])
            self.emit('kill_obj %s;' % o); self.write('alive')
            return '()'
        self.emit('if %s <> 0 then %s;' % (o, self.block(go)))
        return '()'

    # ------------------------------------------------------------------ construction
    def ctor_of(self, e, cls):
        """The constructor a CXXConstructExpr calls."""
        q = (e.get('ctorType') or {}).get('qualType')
        cands = [f for f in self.p.funcs.values() if f.kind == 'ctor' and f.cls == cls]
        n = len([c for c in e.get('inner', ()) if c.get('kind')])
        if q:
            for f in cands:
                if f.node is not None and f.node['type']['qualType'] == q: return f
            sig = self.norm_sig(q)
            for f in cands:
                if f.key.split('(', 1)[1][:-1] == sig: return f
        cands = [f for f in cands if len(f.params) == n and (f.body is not None or f.inits or f.implicit)]
        if len(cands) == 1: return cands[0]
        if not cands and n == 0: return None
        return self.pick_overload(cands, e)

    def norm_sig(self, q):
        from model import norm_param
        i = q.index('(')
        return ','.join(norm_param(x) for x in split_top(q[i + 1:-1]) if x)

    def pick_overload(self, cands, e):
        ts = [strip_ref(self.p.types.of(c)) for c in e.get('inner', ()) if c.get('kind')]
        for f in cands:
            if [strip_ref(p[1]) for p in f.params] == ts: return f
        raise Unsupported('constructor %s' % (e.get('type', {}).get('qualType')))

    def construct_obj(self, e, cls=None):
        """Evaluate e (a class prvalue) into a fresh object and return its id."""
        if e is None:
            g = self.p.find('%s::%s()' % (cls, cls))
            o = self.new_obj(cls)
            if g: self.call_func(g[0], o, [])
            else: self.default_fields(cls, o)
            return o
        k = e['kind']
        if k in ('ExprWithCleanups', 'ParenExpr', 'MaterializeTemporaryExpr', 'CXXFunctionalCastExpr', 'ConstantExpr') or \
           (k == 'ImplicitCastExpr' and e['castKind'] in ('NoOp', 'ConstructorConversion')):
            return self.construct_obj(e['inner'][0], cls)
        if k == 'CXXBindTemporaryExpr':
            return self.construct_obj(e['inner'][0], cls)      # ownership moves to the caller
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            c2 = strip_ref(self.p.types.of(e)).a
            inn = [c for c in e.get('inner', ()) if c.get('kind')]
            if e.get('elidable') and len(inn) == 1:
                return self.construct_obj(inn[0], c2)
            g = self.ctor_of(e, c2)
            if g is None:
                o = self.new_obj(c2); self.default_fields(c2, o); return o
            args = self.args(g, e.get('inner', ()), e)
            o = self.new_obj(c2)
            if g.implicit and g.body is None and len(g.params) == 1: raise Unsupported('implicit copy of %s' % c2)
            self.call_func(g, o, args)
            return o
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
            return self.bind(self.rv(e), 'o')
        if k == 'CXXDefaultInitExpr': raise Unsupported('default init')
        raise Unsupported('object from %s' % k)

    def default_fields(self, cls, o):
        # implicit trivial default constructor
        from model import Func
        g = Func(); g.name = cls; g.cls = cls; g.kind = 'ctor'; g.key = '%s::%s()' % (cls, cls); g.base = '%s::%s' % (cls, cls)
        g.implicit = True; g.tu = self.tu; g.defaults = {}; g.mangled = g.key
        self.call_func(g, o, [])

    def e_CXXTemporaryObjectExpr(self, n): return self.e_CXXConstructExpr(n)

    def e_CXXConstructExpr(self, n):
        t = strip_ref(self.p.types.of(n))
        inn = [c for c in n.get('inner', ()) if c.get('kind')]
        if t.k == 'obj': return self.construct_obj(n, t.a)
        args = [c for c in inn if c['kind'] != 'CXXDefaultArgExpr']
        if t.k in ('pair', 'rec', 'str', 'tokiter') and len(args) == 1 and \
           strip_ref(self.p.types.of(args[0])).k == t.k:
            return self.rv(args[0])
        if t.k == 'pair':
            if not args: return self.default(t)
            if len(args) == 2:
                a = self.rv(args[0])
                if self.effectful(args[1]): a = self.bind(a)
                return '(%s, %s)' % (a, self.rv(args[1]))
        if t.k == 'rec': return self.construct_rec(n, t)
        if t.k == 'str':
            if not args: return self.w.strlit('')
            if len(args) == 1:
                at = strip_ref(self.p.types.of(args[0]))
                c = self.rv(args[0])
                if at.k == 'ptr' and at.a.k == 'char': return 'str_of_cstr %s' % self.atom(c) if 'lit_' not in c else c
                return c
            for a in args: self.rv(a)
            return '(any_str ())'
        if t.k == 'vec':
            e = self.w.need_vec(t.a)
            self.write('alive', 'n_' + e, 'v_' + e)
            if not args: return self.vec_new(t.a)
            at = strip_ref(self.p.types.of(args[0]))
            if len(args) == 1 and at == t:
                if n.get('elidable') or self.is_prvalue(args[0]): return self.rv(args[0])
                if t.a.k in ('obj',): raise Unsupported('copy of vector of objects')
                if self.returned_local(n): return self.rv(args[0])
                return self.bind('vec_copy_%s %s' % (e, self.atom(self.rv(args[0]))), 'vec')
            if len(args) == 1 and at.k in ('int', 'uint'):
                c = self.rv(args[0])
                return self.bind('vec_ctor_%s %s %s' % (e, self.atom(c), self.atom(self.default(t.a))), 'vec')
            if len(args) == 2 and at.k in ('int', 'uint'):
                c = self.bind(self.rv(args[0]))
                v = self.rv(args[1])
                if t.a.k == 'vec':
                    e2 = en(t.a.a)
                    self.write('n_' + e2, 'v_' + e2)
                    return self.bind('vecvec_ctor_%s %s %s' % (e2, c, self.atom(v)), 'vec')
                return self.bind('vec_ctor_%s %s %s' % (e, c, self.atom(v)), 'vec')
            if len(args) == 2 and at.k == 'tokiter' and t.a.k == 'str':
                a = self.bind(self.rv(args[0])); b = self.rv(args[1])
                return self.bind('vec_of_tokens %s %s' % (a, self.atom(b)), 'vec')
            raise Unsupported('vector constructor')
        if t.k in ('istream', 'ostream'):
            self.write('alive', 'st_ok', 'st_pos', 'st_src', 'st_open', 'st_row', 'io_src', 'io_open') if t.k == 'istream' else self.write('alive', 'os_len', 'os_tok', 'os_prec', 'os_path', 'io_dst', 'io_open')
            if not args: raise Unsupported('unopened stream')
            c = self.rv(args[0])
            return self.bind('%s_open %s' % ('ist' if t.k == 'istream' else 'ost', self.atom(c)), 'st')
        if t.k == 'tokenizer':
            # char_separator(const char*) or tokenizer(line, sep)
            if len(args) == 1 and strip_ref(self.p.types.of(args[0])).k == 'ptr' or len(args) > 1 and all(x.get('kind') == 'CXXDefaultArgExpr' for x in args[1:]):
                return self.bind('mk_separator %s' % self.atom(self.rv(args[0])))
            if len(args) != 2 or strip_ref(self.p.types.of(args[0])).k != 'str': raise Unsupported('tokenizer')
            a = self.bind(self.rv(args[0])); b = self.rv(args[1])
            return self.bind('mk_tokenizer %s %s' % (a, self.atom(b)))
        if t.k == 'opaque':
            if len(args) == 1 and (n.get('elidable') or strip_ref(self.p.types.of(args[0])).k in ('int', 'uint')): return self.rv_raw(args[0])
            self.chrono_effects(n)
            return '(any_int ())'
        if t.k == 'ptr' and args: return self.rv(args[0])
        raise Unsupported('construction of %r' % t)

    def returned_local(self, n):
        return getattr(self, 'in_return', False)

    def construct_rec(self, n, t):
        cls = t.a
        g = self.ctor_of(n, cls)
        inn = [c for c in n.get('inner', ()) if c.get('kind')]
        if g is None: return self.default(t)
        return self.rec_ctor(g, self.args(g, inn, n))

    def rec_ctor(self, g, args):
        cls = g.cls
        if g.body is not None and [x for x in g.body.get('inner', ()) if x.get('kind')]: raise Unsupported('record constructor with a body')
        sc = {}
        for (name, t, id_, ic), a in zip(g.params, args):
            sc[id_] = Var(name, self.bind(a), 'val', strip_ref(t))
        saved = self.scopes, self.tu
        self.scopes = [sc]; self.tu = g.tu
        vals = {}
        for i in g.inits:
            if 'anyInit' in i and i.get('inner'):
                e = i['inner'][0]
                fd = self.p.field(cls, self.w.fieldname(cls, i['anyInit']['name']))
                if e['kind'] == 'CXXDefaultInitExpr': e = fd.init
                vals[fd.name] = self.rv(e)
        self.scopes, self.tu = saved
        parts = []
        for fd in self.p.classes[cls].fields:
            parts.append('r_%s_%s = %s' % (cls, fd.name, vals.get(fd.name) or ('any_%s ()' % S.anyname(wt(fd.t)))))
        return self.bind('{ %s }' % '; '.join(parts), 'rec')

    def default(self, t):
        k = t.k
        if k in ('int', 'uint', 'char', 'obj', 'fn'): return '0'
        if k == 'bool': return 'false'
        if k == 'real': return '(of_int 0)'
        if k == 'str': return self.w.strlit('')
        if k == 'ptr': return 'null_ptr' if wt(t) == 'ptr' else '0'
        if k == 'pair': return '(%s, %s)' % (self.default(t.a), self.default(t.b))
        if k == 'rec':
            g = self.p.find('%s::%s()' % (t.a, t.a))
            if not g: raise Unsupported('default of %s' % t.a)
            return self.rec_ctor(g[0], [])
        raise Unsupported('default of %r' % t)

    # ------------------------------------------------------------------ calls
    def callee_ref(self, n):
        x = n['inner'][0]
        while x.get('kind') in ('ImplicitCastExpr', 'ParenExpr'): x = x['inner'][0]
        return x

    def callee_name(self, n):
        x = self.callee_ref(n)
        if x['kind'] == 'DeclRefExpr': return x['referencedDecl'].get('name')
        if x['kind'] == 'MemberExpr': return x.get('name')
        return None

    def callee(self, n):
        """Project function called by n, or None."""
        x = self.callee_ref(n)
        if x['kind'] == 'DeclRefExpr': e = self.p.ids.get((self.tu, x['referencedDecl']['id']))
        elif x['kind'] == 'MemberExpr': e = self.p.ids.get((self.tu, x.get('referencedMemberDecl')))
        else: e = None
        if e and e[0] == 'func': return self.p.by_mangled[e[1]]
        return None

    def args(self, g, inn, n):
        """Argument codes for a call of project function g."""
        inn = [c for c in inn if c.get('kind')]
        out = []
        for i, (name, t, id_, ic) in enumerate(g.params):
            a = inn[i] if i < len(inn) else {'kind': 'CXXDefaultArgExpr'}
            if a['kind'] == 'CXXDefaultArgExpr':
                d = g.defaults.get(i)
                if d is None: raise Unsupported('default argument of %s' % g.key)
                saved = self.tu; self.tu = d[1]
                out.append(self.rv(d[0]))
                self.tu = saved
                continue
            t0 = strip_ref(t)
            if t.k == 'ref' and not ic and t0.k in ('int', 'uint', 'bool', 'real', 'rec', 'pair', 'str', 'ptr'):
                out.append(self.freeze(self.lv(a)))
                continue
            if t.k != 'ref' and t0.k == 'obj':
                c = self.construct_obj(a)
                self.add_dtor(t0.a, c)
            else:
                c = self.rv(a)
            if any(self.effectful(b) for b in inn[i + 1:]): c = self.bind(c)
            out.append(c)
        return out

    def e_CallExpr(self, n): return self.call_expr(n)
    def e_CXXMemberCallExpr(self, n): return self.call_expr(n)

    def call_expr(self, n):
        g = self.callee(n)
        if n['kind'] == 'CXXMemberCallExpr':
            m = self.callee_ref(n)
            if g is None: return self.lib_member(n, m)
            if g.virtual and not g.body or (g.virtual and self.overriders(g)):
                o = self.obj_of(m['inner'][0], m.get('isArrow'))
                return self.virtual_call(g, o, self.args(g, n['inner'][1:], n))
            o = self.obj_of(m['inner'][0], m.get('isArrow'))
            return self.call_func(g, o, self.args(g, n['inner'][1:], n))
        if g is not None:
            return self.call_func(g, None, self.args(g, n['inner'][1:], n))
        x = self.callee_ref(n)
        ft = self.p.types.of(x)
        if ft.k == 'fn':
            fc = self.bind(self.rv(x) if x['kind'] != 'DeclRefExpr' else self.load(self.lv(x)), 'fp')
            args = [self.bind(self.rv(a)) for a in n['inner'][1:]]
            return self.call_pointer(fc, args)
        return self.lib_call(n, x)

    def overriders(self, g):
        r = []
        for c in self.p.classes.values():
            if g.cls in c.bases:
                for f in self.p.funcs.values():
                    if f.cls == c.name and f.name == g.name and f.kind == 'method' and f.body is not None: r.append(f)
        return sorted(r, key=lambda f: f.key)

    def virtual_call(self, g, o, args):
        """Dynamic dispatch: any of the overriding functions may run."""
        fs = self.overriders(g)
        if g.body is not None: fs.append(g)
        if not fs: raise Unsupported('virtual %s' % g.key)
        args = [self.bind(a) for a in args]
        w = self.fresh('vt')
        self.emit('let %s = any_int () in' % w)
        code = None
        for f in reversed(fs):
            def go(f=f): return self.call_func(f, o, args)
            b = self.block(go)
            code = b if code is None else 'if %s = %d then %s else %s' % (w, fs.index(f), b, code)
        if g.ret.k == 'void':
            self.emit(code + ';'); return '()'
        return self.bind('(%s)' % code)

    def call_pointer(self, fc, args):
        d = self.w.dispatch_func()
        if d is not None:
            return self.call_func(d, None, [fc] + args)
        return self.bind('(%s)' % self.dispatch_code(fc, args), 'd')

    def dispatch_code(self, fc, args):
        code = 'absurd'
        for f in reversed(self.w.fn_codes()):
            if not self.w.contract(f).given: continue
            def go(f=f): return self.call_func(f, None, args)
            b = self.block(go)
            code = 'if %s = code_%s then %s else %s' % (fc, f.name, b, code)
        return code

    def hook_before(self, name):
        k = self.call_no[name] = self.call_no.get(name, 0) + 1
        for key in ((name, 0), (name, k)):
            h = self.spec.before_call.get(key)
            if h: self.emit_spec(h)
        return k

    def hook_after(self, name, k, ret=None):
        for key in ((name, 0), (name, k)):
            h = self.spec.after_call.get(key)
            if h:
                self.last_ret = ret
                self.emit_spec(h)

    def call_func(self, g, this, args):
        sp = self.w.contract(g)
        if sp.given and 'inline' not in sp.opts and not (g.key == self.f.key):
            args = [self.atom(self.load(a) if isinstance(a, Lv) else a) for a in args]
            t = self.w.translate(g)
            self.writes |= t.writes
            self.raises |= set(sp.raises) if sp.raises_given else t.raises
            self.calls.add(g.key)
            al = ([this] if this is not None and g.kind != 'fn' and not g.static else []) + args
            self.last_args = al
            k = self.hook_before(g.name)
            call = '%s %s' % (mangle(g.key), ' '.join(al) if al else '()')
            if g.ret.k == 'void':
                self.emit(call + ';')
                self.hook_after(g.name, k)
                return '()'
            r = self.bind(call, 'r')
            self.hook_after(g.name, k, r)
            return r
        return self.inline(g, this, args)

    def inline(self, g, this, args):
        if g.key in self.inline_stack or g.key == self.f.key or len(self.inline_stack) > 12:
            raise Unsupported('recursion through %s' % g.key)
        if g.body is None and not g.inits and not g.implicit:
            raise Unsupported('no body for %s' % g.key)
        sc = {}
        m = set()
        k = self.hook_before(g.name)
        if g.body: self.scan_mut(g.body, m)
        for (name, t, id_, ic), a in zip(g.params, args):
            t0 = strip_ref(t)
            if isinstance(a, Lv):
                sc[id_] = Var(name, None, 'alias', t0, a); continue
            v = self.fresh('v_' + name)
            if id_ in m and t0.k not in ('obj', 'vec', 'istream', 'ostream'):
                self.emit('let %s = ref (%s) in' % (v, a))
                sc[id_] = Var(name, v, 'ref', t0)
            else:
                self.emit('let %s = %s in' % (v, a))
                sc[id_] = Var(name, v, 'val', t0)
        self.outer.append(self.scopes)
        saved = (self.scopes, self.this, self.ret_mode, self.ret_t, self.uses_ret, self.tu, self.mut, self.cleanups, self.loop_depth, self.vname)
        self.scopes = [sc]
        self.this = this
        self.ret_mode = 'inline'; self.ret_t = g.ret; self.uses_ret = False; self.tu = g.tu
        self.mut = self.mut | m
        self.cleanups = []; self.loop_depth = []
        depth = len(self.inline_stack) + 1
        self.inline_stack.append(g.key)
        f0, self.fcur = getattr(self, 'fcur', None), g
        cls0 = self.f
        try:
            out0 = self.out; self.out = []
            body = self.body_code(g)
            self.out = out0
            if self.uses_ret:
                body = 'try %s with %s end' % (body, self.ret_handler(g.ret))
        finally:
            (self.scopes, self.this, self.ret_mode, self.ret_t, self.uses_ret, self.tu, self.mut, self.cleanups, self.loop_depth, _) = saved
            self.inline_stack.pop()
            self.outer.pop()
        if g.ret.k == 'void':
            self.emit(body + ';')
            self.hook_after(g.name, k)
            return '()'
        body = simplify_block(body)
        r = self.bind('(%s)' % body if body.startswith('try') else body, 'r')
        self.hook_after(g.name, k, r)
        return r

    # ------------------------------------------------------------------ library calls
    def lib_call(self, n, x):
        name = x['referencedDecl'].get('name') if x['kind'] == 'DeclRefExpr' else None
        args = [a for a in n['inner'][1:] if a.get('kind')]
        t = strip_ref(self.p.types.of(n))
        if name in ('min', 'max') and len(args) == 2:
            at = strip_ref(self.p.types.of(args[0]))
            a = self.rv(args[0])
            if self.effectful(args[1]): a = self.bind(a)
            b = self.rv(args[1])
            if at.k == 'real': return '(f%s %s %s)' % (name, self.atom(a), self.atom(b))
            if at.k in ('int', 'uint'): return '(i%s %s %s)' % (name, self.atom(a), self.atom(b))
        if name == 'infinity': return 'inf'
        if name == 'max' and not args and t.k == 'int' and 'int' == (n.get('type') or {}).get('qualType'): return '2147483647'
        if name in ('sqrt', 'floor', 'ceil', 'fabs', 'round', 'trunc'):
            return '(f%s %s)' % (name if name != 'fabs' else 'abs', self.atom(self.real(args[0])))
        if name == 'abs':
            at = strip_ref(self.p.types.of(args[0]))
            c = self.atom(self.rv(args[0]))
            return '(fabs %s)' % c if at.k == 'real' else '(iabs %s)' % c
        if name == 'pow':
            a = self.bind(self.real(args[0]))
            b = self.rv(args[1])
            if b in ('2', '2.0', '(of_int 2)'): return '(fmul %s %s)' % (a, a)
            return '(fpow %s %s)' % (a, self.atom(self.real(args[1])))
        if name in ('isinf', 'isnan', 'isfinite'):
            return '(f%s %s)' % (name, self.atom(self.real(args[0])))
        if name == 'make_pair':
            a = self.rv(args[0])
            if self.effectful(args[1]): a = self.bind(a)
            return '(%s, %s)' % (a, self.rv(args[1]))
        if name in ('move', 'forward') and len(args) == 1: return self.rv(args[0])
        if name == 'swap' and len(args) == 2:
            l1 = self.freeze(self.lv(args[0])); l2 = self.freeze(self.lv(args[1]))
            if l1.kind in ('obj', 'rv') or l2.kind in ('obj', 'rv'): raise Unsupported('swap of objects')
            a = self.fresh('sw'); b = self.fresh('sw')
            self.emit('let %s = %s in' % (a, self.load(l1))); self.emit('let %s = %s in' % (b, self.load(l2)))
            self.store(l1, b); self.store(l2, a)
            return '()'
        if name == 'free':
            c = self.rv(args[0])
            at = self.inner_ptr_type(args[0])
            if at is not None and at.a.k in ('real', 'int'):
                self.emit('free_cells %s;' % self.atom(c)); self.write('dkind', 'dlen')
            else:
                self.emit('free_char %s;' % self.atom(c))
            return '()'
        if name in ('memset', 'memcpy', 'memmove'):
            at = self.inner_ptr_type(args[0])
            if at is None or at.a.k not in ('real',): raise Unsupported(name)
            d = self.bind(self.rv(args[0]))
            self.write('dmem')
            if name == 'memset':
                v = self.rv(args[1])
                if v != '0': raise Unsupported('memset of %s' % v)
                sz = self.rv(args[2])
                self.emit('memset_real %s (%s);' % (d, sz))
            else:
                s = self.bind(self.rv(args[1])); sz = self.rv(args[2])
                self.emit('memcpy_real %s %s (%s);' % (d, s, sz))
            return d
        if name in ('fill', 'fill_n') and len(args) == 3:
            at = self.p.types.of(args[0])
            if at.k == 'ptr' and at.a.k == 'real':
                d = self.bind(self.rv(args[0])); b = self.bind(self.rv(args[1])); v = self.bind(self.real(args[2]))
                self.write('dmem')
                self.emit('%s_real %s %s %s;' % (name, d, b, v))
                return '()'
        if name == 'copy' and len(args) == 3:
            at = self.p.types.of(args[0])
            if at.k == 'ptr' and at.a.k == 'real':
                a = [self.bind(self.rv(q)) for q in args]
                self.write('dmem')
                self.emit('copy_real %s;' % ' '.join(a))
                return '()'
        if name in ('stoi', 'stod', 'stol'):
            c = self.atom(self.rv(args[0]))
            self.raises |= {'E_invalid', 'E_range'}
            return self.bind('%s %s' % ('stod' if name == 'stod' else 'stoi', c), 'num')
        if name == 'getline':
            st = self.bind(self.rv(args[0]))
            lv = self.lv(args[1])
            self.write('st_ok', 'st_row')
            l = self.fresh('line')
            self.emit('let %s = ist_getline %s in' % (l, st))
            self.store(lv, l)
            return st
        if name == 'distance':
            a = self.bind(self.rv(args[0])); b = self.bind(self.rv(args[1]))
            return self.bind('tok_distance %s %s' % (a, b))
        if name == 'trim_right' or name == 'trim':
            return '()'
        if name == 'setprecision':
            return 'manip:prec:' + self.rv(args[0])
        if name in ('setw', 'setfill'):
            return 'manip:other:0'
        if name == 'now': return '(any_int ())'
        if name == 'readline': return self.bind('rl_readline ()', 'cs')
        if name == 'add_history': self.rv(args[0]); return '()'
        if name == 'strlen':
            return self.bind('c_strlen %s' % self.atom(self.rv(args[0])))
        if name == 'strcmp':
            a = self.bind(self.rv(args[0])); b = self.rv(args[1])
            if b.startswith('lit_'): b = 'cstr_lit'
            return self.bind('c_strcmp %s %s' % (a, b))
        if name == 'printf':
            for a in args[1:]: self.expr_stmt(a)
            return '0'
        raise Unsupported('library function %s' % name)

    def real(self, a):
        t = strip_ref(self.p.types.of(a))
        c = self.rv(a)
        if t.k == 'real': return c
        if re.match(r'^\d+$', c): return real_lit(c)
        return '(of_int %s)' % self.atom(c)

    def inner_ptr_type(self, a):
        while True:
            t = self.p.types.of(a)
            if t.k == 'ptr' and t.a.k not in ('void', 'char'): return t
            if a.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr') and a.get('inner'): a = a['inner'][0]
            else: return t if t.k == 'ptr' else None

    def lib_member(self, n, m):
        name = m['name']
        base = m['inner'][0]
        bt = self.base_type(base, m.get('isArrow'))
        args = [a for a in n['inner'][1:] if a.get('kind') and a['kind'] != 'CXXDefaultArgExpr']
        if bt.k == 'vec':
            e = self.w.need_vec(bt.a)
            o = self.bind(self.rv(base))
            if name == 'size': return self.bind('vec_size_%s %s' % (e, o))
            if name == 'empty': return self.bind('(vec_size_%s %s = 0)' % (e, o))
            if name == 'push_back' or name == 'emplace_back' and len(args) == 1 and strip_ref(self.p.types.of(args[0])) == bt.a:
                if bt.a.k == 'obj':
                    c = self.construct_obj_copy(args[0], bt.a.a)
                elif bt.a.k == 'vec': raise Unsupported('push_back of vector')
                else: c = self.rv(args[0])
                self.emit('vec_push_%s %s %s;' % (e, o, self.atom(c)))
                self.write('n_' + e, 'v_' + e)
                return '()'
            if name == 'pop_back':
                self.emit('vec_pop_%s %s;' % (e, o)); self.write('n_' + e); return '()'
            if name == 'clear':
                self.emit('vec_clear_%s %s;' % (e, o)); self.write('n_' + e); return '()'
            if name == 'reserve':
                for a in args: self.rv(a)
                return '()'
            if name == 'resize':
                c = self.bind(self.rv(args[0]))
                if bt.a.k in ('obj', 'vec'): raise Unsupported('resize')
                v = self.rv(args[1]) if len(args) > 1 else self.default(bt.a)
                self.emit('vec_resize_%s %s %s %s;' % (e, o, c, self.atom(v)))
                self.write('n_' + e, 'v_' + e)
                return '()'
            if name in ('back', 'front', 'at'):
                return self.load(self.memcall_lv(n))
            raise Unsupported('vector::%s' % name)
        if bt.k == 'str':
            c = self.bind(self.rv(base))
            if name in ('c_str', 'data'): return c
            if name in ('size', 'length'): return self.bind('str_len %s' % c)
            if name == 'empty': return self.bind('(str_len %s = 0)' % c)
            if name in ('find', 'rfind', 'compare'):
                for a in args: self.rv(a)
                return '(any_int ())'
            if name == 'substr':
                for a in args: self.rv(a)
                return '(any_str ())'
            if name == 'back': return self.bind('str_at %s (str_len %s - 1)' % (c, c))
            raise Unsupported('string::%s' % name)
        if bt.k in ('istream', 'ostream', 'ios'):
            lv = self.lv(base) if not m.get('isArrow') else None
            if lv is not None and lv.kind == 'cout': return '()'
            o = self.bind(self.load(lv) if lv is not None else self.rv(base))
            out = self.is_ostream(base)
            if name == 'is_open': return self.bind('%s_is_open %s' % ('ost' if out else 'ist', o))
            if name in ('operator bool',): return self.bind('%s_good %s' % ('ost' if out else 'ist', o))
            if name in ('good',): return self.bind('%s_good %s' % ('ost' if out else 'ist', o))
            if name in ('fail',): return '(not %s_good %s)' % ('ost' if out else 'ist', o)
            if name == 'operator!': return '(not %s_good %s)' % ('ost' if out else 'ist', o)
            if name == 'bad': return self.bind('st_bad %s' % o)
            if name == 'eof': return '(any_bool ())'
            if name == 'close':
                self.emit('st_close %s;' % o); return '()'
            if name == 'clear':
                self.emit('ist_clear %s;' % o); self.write('st_ok'); return '()'
            if name == 'seekg':
                c = self.rv(args[0])
                if c.strip('() ') != '0': raise Unsupported('seekg %r' % c)
                self.emit('ist_rewind %s;' % o); self.write('st_row', 'st_pos'); return '()'
            if name == 'precision' and len(args) == 1:
                c = self.rv(args[0])
                self.emit('ost_setprec %s %s;' % (o, self.atom(c))); self.write('os_prec'); return '6'
            if name == 'flush': return '()'
            raise Unsupported('stream::%s' % name)
        if bt.k == 'tokenizer':
            o = self.bind(self.rv(base))
            if name in ('begin', 'end'): return self.bind('tok_%s %s' % (name, o))
            raise Unsupported('tokenizer::%s' % name)
        if bt.k == 'map':
            if name == 'find':
                c = self.bind(self.rv(args[0]))
                return 'mapiter:' + c
            if name == 'end': return 'mapend'
            if name == 'count':
                c = self.rv(args[0])
                return self.bind('(if cmd_known %s then 1 else 0)' % self.atom(c))
            raise Unsupported('map::%s' % name)
        if bt.k == 'opaque':
            for a in args: self.rv(a)
            t = strip_ref(self.p.types.of(n))
            if t.k == 'real': return '(any_dbl ())'
            if t.k == 'str' or name == 'str': return '(any_str ())'
            if name == 'what': return self.w.strlit('')
            return '(any_int ())'
        raise Unsupported('member %s of %r' % (name, bt))

    def base_type(self, base, arrow):
        x = base
        t = strip_ref(self.p.types.of(x))
        while t.k in ('opaque', 'ios') and x.get('kind') in ('ImplicitCastExpr', 'ParenExpr') and x.get('inner'):
            x = x['inner'][0]
            t = strip_ref(self.p.types.of(x))
        if arrow and t.k == 'ptr': t = t.a
        return t

    def is_ostream(self, base):
        x = base
        while True:
            t = strip_ref(self.p.types.of(x))
            if t.k in ('istream', 'ostream'): return t.k == 'ostream'
            if x.get('inner'): x = x['inner'][0]
            else: return False

    def construct_obj_copy(self, a, cls):
        """Object stored by value into a container: copy-construct."""
        t = strip_ref(self.p.types.of(a))
        x = a
        while x.get('kind') in ('ImplicitCastExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups'): x = x['inner'][0]
        if x.get('kind') in ('CXXBindTemporaryExpr', 'CXXConstructExpr'):
            return self.construct_obj(x)
        src = self.bind(self.rv(a))
        g = self.p.find('%s::%s(%s)' % (cls, cls, cls))
        if not g: raise Unsupported('copy of %s' % cls)
        o = self.new_obj(cls)
        self.call_func(g[0], o, [src])
        return o

    def memcall_lv(self, n):
        m = self.callee_ref(n)
        if self.callee(n) is not None or m['kind'] != 'MemberExpr': return None
        bt = self.base_type(m['inner'][0], m.get('isArrow'))
        if bt.k == 'vec' and m['name'] in ('at', 'back', 'front'):
            e = self.w.need_vec(bt.a)
            o = self.bind(self.rv(m['inner'][0]))
            if m['name'] == 'back': i = self.bind('vec_size_%s %s - 1' % (e, o), 'ix')
            elif m['name'] == 'front': i = '0'
            else: i = self.bind(self.rv(n['inner'][1]), 'ix')
            if bt.a.k in ('obj', 'vec'):
                return Lv('obj', bt.a, self.bind('vec_get_%s %s %s' % (e, o, self.atom(i))))
            return Lv('vec', bt.a, o, i, e)
        return None

    # ------------------------------------------------------------------ operators
    def opcall_lv(self, n):
        op = self.callee_name(n)
        g = self.callee(n)
        inn = n['inner'][1:]
        if op == 'operator[]' and g is None:
            bt = strip_ref(self.p.types.of(inn[0]))
            if bt.k == 'vec':
                e = self.w.need_vec(bt.a)
                o = self.bind(self.rv(inn[0]))
                i = self.rv(inn[1])
                if bt.a.k in ('obj', 'vec'):
                    return Lv('obj', bt.a, self.bind('vec_get_%s %s %s' % (e, o, self.atom(i))))
                return Lv('vec', bt.a, o, i, e)
            if bt.k == 'str':
                c = self.bind(self.rv(inn[0])); i = self.rv(inn[1])
                return Lv('rv', CHAR, self.bind('str_at %s %s' % (c, self.atom(i))))
            if bt.k == 'map':
                c = self.rv(inn[1])
                return Lv('rv', bt.b, self.bind('cmd_lookup %s' % self.atom(c)))
            raise Unsupported('operator[] of %r' % bt)
        if op in ('operator=', 'operator+=') and g is not None:
            self.e_CXXOperatorCallExpr(n)
            return self.lv(inn[0])
        if op == 'operator=' and g is None:
            self.e_CXXOperatorCallExpr(n, True)
            return self.lv(inn[0])
        if op == 'operator*' and g is None:
            bt = strip_ref(self.p.types.of(inn[0]))
            x = inn[0]
            while bt.k == 'opaque' and x.get('inner'): x = x['inner'][0]; bt = strip_ref(self.p.types.of(x))
            if bt.k == 'tokiter':
                c = self.load(self.lv(x)) if x.get('valueCategory') == 'lvalue' else self.rv(x)
                return Lv('rv', STR, self.bind('tok_get %s' % self.atom(c)))
        return None

    def e_CXXOperatorCallExpr(self, n, discard=False):
        op = self.callee_name(n)
        g = self.callee(n)
        inn = [c for c in n['inner'][1:] if c.get('kind')]
        if g is not None:
            if g.kind == 'method':
                if g.cls in self.p.classes and self.p.classes[g.cls].kind == 'rec':
                    if op == 'operator=':
                        c = self.rv(inn[1])
                        lv = self.lv(inn[0])
                        self.store(self.freeze(lv), c)
                        return '()'
                    raise Unsupported('record operator %s' % op)
                o = self.obj_of(inn[0], False)
                if op == 'operator=' and g.implicit and g.body is None: raise Unsupported('implicit assignment %s' % g.cls)
                args = self.args(g, inn[1:], n)
                r = self.call_func(g, o, args)
                if g.ret.k == 'ref' and strip_ref(g.ret).k in ('real', 'int') and not discard:
                    return self.bind('load_%s %s' % (strip_ref(g.ret).k, self.atom(r)))
                return r
            return self.call_func(g, None, self.args(g, inn, n))
        if op in ('operator<<', 'operator>>'):
            return self.stream_op(n, op)
        if op == 'operator=':
            bt = strip_ref(self.p.types.of(inn[0]))
            if bt.k == 'opaque': self.chrono_effects(inn[1]); return '()'
            if bt.k == 'vec':
                e = self.w.need_vec(bt.a)
                if bt.a.k in ('obj', 'vec'): raise Unsupported('assignment of vector of objects')
                s = self.bind(self.rv(inn[1])); d = self.bind(self.rv(inn[0]))
                self.emit('vec_assign_%s %s %s;' % (e, d, s)); self.write('n_' + e, 'v_' + e)
                return '()'
            if bt.k in ('pair', 'rec', 'str', 'tokiter'):
                c = self.rv(inn[1])
                if bt.k == 'str' and strip_ref(self.p.types.of(inn[1])).k != 'str':
                    c = self.rv(inn[1])
                self.store(self.freeze(self.lv(inn[0])), c)
                return '()'
            raise Unsupported('assignment of %r' % bt)
        if op in ('operator[]', 'operator*'):
            return self.load(self.opcall_lv(n))
        if op == 'operator!':
            o = self.bind(self.load(self.lv(inn[0])))
            return '(not (%s_good %s))' % ('ost' if self.is_ostream(inn[0]) else 'ist', o)
        if op in ('operator==', 'operator!='):
            t0 = self.deep_type(inn[0])
            if t0.k == 'tokiter' or self.deep_type(inn[1]).k == 'tokiter':
                a = self.bind(self.tok(inn[0])); b = self.bind(self.tok(inn[1]))
                r = 'tok_eq %s %s' % (a, b)
                return '(%s)' % r if op == 'operator==' else '(not (%s))' % r
            a = self.rv_raw(inn[0]); b = self.rv_raw(inn[1])
            if a.startswith('mapiter:') or b.startswith('mapiter:'):
                it = a if a.startswith('mapiter:') else b
                ot = b if it == a else a
                if ot != 'mapend': raise Unsupported('map iterator comparison')
                r = 'cmd_known %s' % it[8:]
                return '(not (%s))' % r if op == 'operator==' else '(%s)' % r
            if 'str' in (strip_ref(self.p.types.of(inn[0])).k, strip_ref(self.p.types.of(inn[1])).k):
                r = 'str_eq %s %s' % (self.atom(a), self.atom(b))
                return '(%s)' % r if op == 'operator==' else '(not (%s))' % r
            raise Unsupported('comparison of %r' % t0)
        if op in ('operator++', 'operator--'):
            x = inn[0]
            while x.get('kind') == 'ImplicitCastExpr': x = x['inner'][0]
            lv = self.freeze(self.lv(x))
            if strip_ref(lv.t).k == 'tokiter' and op == 'operator++':
                c = self.load(lv)
                old = self.bind('old_ %s' % self.atom(c), 'oldit') if not discard and len(inn) > 1 else None
                self.store(lv, 'tok_next %s' % self.atom(c))
                return old or '()'
        if op == 'operator+':
            for a in inn: self.rv(a)
            return '(any_str ())'
        if op == 'operator-':
            t = strip_ref(self.p.types.of(n))
            if t.k == 'opaque': self.chrono_effects(n); return '(any_int ())'
        if op == 'operator()': raise Unsupported('call operator')
        if op in ('operator<', 'operator>=', 'operator>', 'operator<='):
            t = self.deep_type(inn[0])
            if t.k == 'opaque': return '(any_bool ())'
        raise Unsupported('operator %s' % op)

    def rv_raw(self, n): return self.rv(n)

    def deep_type(self, n):
        t = strip_ref(self.p.types.of(n))
        while t.k == 'opaque' and n.get('inner'):
            n = n['inner'][0]; t = strip_ref(self.p.types.of(n))
        return t

    def tok(self, n):
        while strip_ref(self.p.types.of(n)).k == 'opaque' and n.get('kind') in ('ImplicitCastExpr', 'MaterializeTemporaryExpr') and n.get('inner'): n = n['inner'][0]
        if n.get('valueCategory') == 'lvalue' or n.get('kind') == 'DeclRefExpr': return self.load(self.lv(n))
        return self.rv(n)

    def stream_op(self, n, op):
        """Flatten s << a << b ... and emit the operations left to right."""
        chain = []
        x = n
        while True:
            while x.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr'): x = x['inner'][0]
            if x.get('kind') == 'CXXOperatorCallExpr' and self.callee_name(x) == op and self.callee(x) is None:
                chain.append(x['inner'][2]); x = x['inner'][1]
            elif x.get('kind') == 'CXXMemberCallExpr' and self.callee_name(x) == op:
                chain.append(x['inner'][1]); x = self.callee_ref(x)['inner'][0]
            else: break
        chain.reverse()
        lv = self.lv(x)
        if lv.kind == 'cout':
            for a in chain: self.out_arg(a)
            return '0'
        if strip_ref(lv.t).k == 'opaque':      # ostringstream and the like: content not modelled
            for a in chain: self.out_arg(a)
            return '0'
        st = self.bind(self.load(lv))
        if op == 'operator<<':
            for a in chain:
                kind, c = self.out_arg(a)
                if kind == 'prec': self.emit('ost_setprec %s %s;' % (st, self.atom(c))); self.write('os_prec')
                elif kind == 'flush': pass
                elif kind == 'skip': raise Unsupported('output manipulator')
                else:
                    self.emit('ost_%s %s %s;' % (kind, st, self.atom(c))); self.write('os_len', 'os_tok')
            return st
        for a in chain:
            y = a
            t = strip_ref(self.p.types.of(a))
            l = self.freeze(self.lv(a))
            lt = strip_ref(l.t)
            if lt.k not in ('int', 'uint', 'real', 'str'): raise Unsupported('extraction into %r' % lt)
            k = {'int': 'int', 'uint': 'int', 'real': 'real', 'str': 'str'}[lt.k]
            old = self.load(l)
            v = self.fresh('in')
            self.emit('let %s = ist_read_%s %s %s in' % (v, k, st, self.atom(old)))
            self.write('st_ok', 'st_pos')
            self.store(l, v)
        return st

    def out_arg(self, a):
        x = a
        while x.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr') and \
              x.get('castKind') in (None, 'FunctionToPointerDecay', 'NoOp', 'ArrayToPointerDecay'): x = x['inner'][0]
        if x.get('kind') == 'DeclRefExpr' and x['referencedDecl'].get('kind') == 'FunctionDecl':
            nm = x['referencedDecl']['name']
            if nm == 'endl': return ('char', '10')
            if nm == 'flush': return ('flush', '')
            return ('skip', '')
        t = strip_ref(self.p.types.of(a))
        if x.get('kind') == 'StringLiteral':
            try: v = json.loads(x['value'])
            except Exception: v = None
            if v is not None and len(v) == 1: return ('char', str(ord(v)))
            return ('str', self.rv(x))
        c = self.rv(a)
        if c.startswith('manip:'):
            _, k, v = c.split(':', 2)
            return ('prec', v) if k == 'prec' else ('skip', '')
        if t.k in ('int', 'uint'): return ('int', c)
        if t.k == 'char': return ('char', c)
        if t.k == 'real': return ('real', c)
        if t.k == 'str': return ('str', c)
        if t.k == 'bool': return ('int', '(if %s then 1 else 0)' % c)
        if t.k == 'ptr': return ('str', '(any_str ())')
        if t.k == 'opaque': return ('skip', '')
        raise Unsupported('output of %r' % t)

def wt_ret(t):
    w = wt(t)
    return w.replace('(', '').replace(')', '').replace(', ', '_')

def real_lit(v):
    v = str(v)
    m = re.match(r'^(\d+)(?:\.0*)?$', v)
    if m: return '(of_int %s)' % m.group(1)
    return '(rd %s)' % real_lit0(v)

def real_lit0(v):
    v = str(v)
    if re.match(r'^-?\d+$', v): return v + '.0'
    m = re.match(r'^(-?\d+)(?:\.(\d*))?(?:[eE]([+-]?\d+))?$', v)
    if not m: raise Unsupported('literal %s' % v)
    s = m.group(1) + '.' + (m.group(2) or '0')
    if m.group(3): s += 'e' + str(int(m.group(3)))
    return s

def simplify_block(b):
    m = re.match(r"^begin\s+(\(?[\w'!\[\]. ]+\)?) end$", b)
    if m: return m.group(1).strip()
    return b
