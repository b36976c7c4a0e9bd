"""Program model: classes, fields, globals and functions of /repo, from the clang AST."""
import re
from ctypes_ import *

SKIP_CLASSES = {'OnexException'}

class Func:
    def __init__(self):
        self.key = self.name = self.cls = None
        self.params = []      # (name, T, node)
        self.ret = VOID
        self.node = None; self.body = None; self.inits = []
        self.kind = 'fn'      # fn | method | ctor | dtor
        self.static = False
        self.virtual = False
        self.file = None; self.line = 0
        self.implicit = False

class Field:
    def __init__(self, cls, name, t, init, isref):
        self.cls, self.name, self.t, self.init, self.isref = cls, name, t, init, isref

class Cls:
    def __init__(self, name):
        self.name = name; self.fields = []; self.bases = []; self.kind = 'obj'; self.methods = []; self.has_dtor = False

def norm_param(q):
    q = re.sub(r'\b(const|onex::|std::|class|struct)\b', '', q)
    q = q.replace('onex::', '').replace('std::', '').replace('::', '')
    q = q.replace('const', '').replace('&&', '%%').replace('&', '').replace('%%', '&&').replace(' ', '')
    q = q.replace('basic_string<char>', 'string').replace('double', 'data_t').replace('basic_ifstream<char>', 'ifstream').replace('basic_ofstream<char>', 'ofstream')
    q = q.replace('unsignedint', 'unsigned')
    return q

class Program:
    def __init__(self, tus):
        self.types = Types()
        self.classes = {}
        self.funcs = {}        # key -> Func
        self.by_mangled = {}
        self.ids = {}          # (tu, id) -> ('field', cls, name) | ('func', mangled) | ('gvar', name) | ('parm', ...)
        self.globals = {}      # name -> (T, init node)
        self.lines = {}
        self.overrides = {}
        self.field_ids = {}
        for tu, decls in tus.items():
            for d in decls:
                self.pass1(tu, d, None)
        # class kinds
        for c in self.classes.values():
            self.types.classes[c.name] = 'obj'
        changed = True
        recs = set(self.classes)
        while changed:
            changed = False
            for n in list(recs):
                c = self.classes[n]
                for q in c._fq:
                    t = None
                    q1 = q
                    base = q1.replace('const ', '').strip()
                    if base.endswith('*') or base.endswith('&') or 'vector' in base or 'tokenizer' in base or base.startswith('std::map') \
                       or base.replace('onex::', '') in self.classes and base.replace('onex::', '') not in recs:
                        recs.discard(n); changed = True; break
                if n in recs and (c.has_user_dtor or c.bases or c.virtual or c.n_methods > 1 or not c._fq):
                    recs.discard(n); changed = True
        for n in recs:
            self.classes[n].kind = 'rec'; self.types.classes[n] = 'rec'
        self.types.cache.clear()
        for tu, decls in tus.items():
            for d in decls:
                self.pass2(tu, d, None)

    def line_of(self, f, off):
        if f is None or off is None: return 0
        if f not in self.lines:
            try: self.lines[f] = open(f, 'rb').read()
            except OSError: self.lines[f] = b''
        return self.lines[f][:off].count(b'\n') + 1

    # ---- pass 1: class names, field types, typedefs
    def pass1(self, tu, n, cls):
        k = n.get('kind')
        if k in ('NamespaceDecl', 'LinkageSpecDecl', 'TranslationUnitDecl'):
            for c in n.get('inner', ()): self.pass1(tu, c, cls)
        elif k in ('TypedefDecl', 'TypeAliasDecl'):
            ty = n['type']
            self.types.typedefs[n['name']] = ty.get('desugaredQualType') or ty['qualType']
        elif k == 'CXXRecordDecl' and n.get('completeDefinition') and n.get('name'):
            name = n['name']
            if name in SKIP_CLASSES: return
            c = self.classes.get(name)
            if c is None:
                c = self.classes[name] = Cls(name)
                c._fq = []; c.has_user_dtor = False; c.virtual = False; c.n_methods = 0
                for b in n.get('bases', ()):
                    c.bases.append(b['type']['qualType'].replace('onex::', '').replace('class ', ''))
                for m in n.get('inner', ()):
                    if m.get('kind') == 'FieldDecl':
                        c._fq.append(m['type'].get('desugaredQualType') or m['type']['qualType'])
                    if m.get('kind') == 'CXXDestructorDecl' and not m.get('isImplicit'):
                        c.has_user_dtor = True
                    if m.get('kind') == 'CXXMethodDecl' and not m.get('isImplicit'):
                        c.n_methods += 1
                        if m.get('virtual'): c.virtual = True

    # ---- pass 2: fields, functions, globals
    def pass2(self, tu, n, cls):
        k = n.get('kind')
        if k in ('NamespaceDecl', 'LinkageSpecDecl', 'TranslationUnitDecl'):
            for c in n.get('inner', ()): self.pass2(tu, c, cls)
        elif k == 'CXXRecordDecl' and n.get('completeDefinition') and n.get('name'):
            name = n['name']
            if name in SKIP_CLASSES: return
            c = self.classes[name]
            first = not c.fields
            for m in n.get('inner', ()):
                if m.get('kind') == 'FieldDecl':
                    t = self.types.of(m)
                    isref = t.k == 'ref'
                    init = None
                    if m.get('hasInClassInitializer'):
                        inn = [x for x in m.get('inner', ()) if x.get('kind', '').endswith(('Expr', 'Literal', 'Operator'))]
                        init = inn[0] if inn else None
                    f = Field(name, m['name'], strip_ref(t), init, isref)
                    f.tu = tu
                    if first: c.fields.append(f)
                    elif init is not None:
                        for g in c.fields:
                            if g.name == m['name'] and g.init is None: g.init = init; g.tu = tu
                    self.ids[(tu, m['id'])] = ('field', name, m['name'])
                elif m.get('kind') in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl'):
                    self.func(tu, m, name)
                elif m.get('kind') == 'CXXRecordDecl':
                    self.pass2(tu, m, name)
        elif k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl'):
            self.func(tu, n, None)
        elif k == 'VarDecl':
            t = self.types.of(n)
            self.ids[(tu, n['id'])] = ('gvar', n['name'])
            init = [x for x in n.get('inner', ()) if 'kind' in x and not x['kind'].endswith('Comment')]
            if n['name'] not in self.globals or init:
                if not n.get('storageClass') == 'extern' or n['name'] not in self.globals:
                    self.globals[n['name']] = (t, init[0] if init else None, tu)

    def func(self, tu, n, cls):
        m = n.get('mangledName') or n.get('name')
        if n['kind'] in ('CXXConstructorDecl', 'CXXDestructorDecl') and not n.get('mangledName'):
            m = '%s::%s%s' % (cls, n['name'], n['type']['qualType'])
        if cls is None and n.get('parentDeclContextId'):
            prev = n.get('previousDecl')
            e = self.ids.get((tu, prev))
            if e and e[0] == 'func':
                cls = self.by_mangled[e[1]].cls
                m = e[1]
        f = self.by_mangled.get(m)
        if f is None:
            f = Func()
            f.name = n['name']; f.cls = cls; f.mangled = m
            f.kind = {'FunctionDecl': 'fn', 'CXXMethodDecl': 'method', 'CXXConstructorDecl': 'ctor', 'CXXDestructorDecl': 'dtor'}[n['kind']]
            self.by_mangled[m] = f
            ps = [p for p in n.get('inner', ()) if p.get('kind') == 'ParmVarDecl']
            sig = ','.join(norm_param(p['type'].get('qualType')) for p in ps)
            base = (cls + '::' if cls else '') + f.name
            f.base = base
            f.key = '%s(%s)' % (base, sig)
            f.defaults = {}
            f.tu = tu
            self.funcs[f.key] = f
            q = n['type']['qualType']
            f.virtual = bool(n.get('virtual'))
            f.implicit = bool(n.get('isImplicit'))
            f.static = n.get('storageClass') == 'static' and f.kind == 'method'
        self.ids[(tu, n['id'])] = ('func', m)
        ps = [p for p in n.get('inner', ()) if p.get('kind') == 'ParmVarDecl']
        for i, p in enumerate(ps):
            inn = [x for x in p.get('inner', ()) if 'kind' in x and not x['kind'].endswith(('Comment', 'Attr'))]
            if p.get('init') and inn and i not in f.defaults:
                f.defaults[i] = (inn[0], tu)
        body = [x for x in n.get('inner', ()) if x.get('kind') in ('CompoundStmt', 'CXXTryStmt')]
        has_init = any(x.get('kind') == 'CXXCtorInitializer' for x in n.get('inner', ()))
        if f.body is None and (body or has_init):
            f.node = n; f.tu = tu
            f.body = body[0] if body else None
            f.inits = [x for x in n.get('inner', ()) if x.get('kind') == 'CXXCtorInitializer']
            f.file = n.get('_f'); f.line = self.line_of(n.get('_f'), n.get('_o'))
        if not f.params or f.node is n:
            f.params = []
            for i, p in enumerate(ps):
                q = p['type'].get('qualType')
                t = self.types.of(p)
                isconst = q.strip().startswith('const') or 'const ' in q
                f.params.append((p.get('name') or '_a%d' % i, t, p.get('id'), isconst))
        # return type
        q = n['type']['qualType']
        r = self.ret_of(q)
        f.ret = self.types.parse(r) if f.kind in ('fn', 'method') else VOID
        if f.ret.k == 'opaque':
            d = n['type'].get('desugaredQualType')
            if d: f.ret = self.types.parse(self.ret_of(d))

    @staticmethod
    def ret_of(q):
        d = 0
        for i, c in enumerate(q):
            if c == '<': d += 1
            elif c == '>': d -= 1
            elif c == '(' and d == 0:
                return q[:i].strip()
        return q

    def find(self, name):
        """Functions matching a spec name: exact key or unqualified-by-signature base name."""
        if name in self.funcs: return [self.funcs[name]]
        return [f for f in self.funcs.values() if f.base == name]

    def field(self, cls, name):
        c = self.classes[cls]
        for f in c.fields:
            if f.name == name: return f
        for b in c.bases:
            if b in self.classes:
                r = self.field(b, name)
                if r: return r
        return None

    def all_fields(self, cls):
        return self.classes[cls].fields
