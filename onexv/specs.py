"""Specification files: WhyML items (logic, memory model, library contracts) and contracts of functions in /repo."""
import re, os, glob
from ctypes_ import *

class LoopSpec:
    def __init__(self):
        self.invariants = []   # (label, tags, text)
        self.variants = []
        self.begin = self.end = self.after = self.before = ''
        self.modifies = []     # (map group, expr)

class FnSpec:
    def __init__(self, name=None):
        self.name = name
        self.given = False
        self.params = []
        self.requires = []     # (label, tags, text)
        self.ensures = []
        self.exc = []          # (exception, label, tags, text)
        self.raises = set(); self.raises_given = False
        self.loops = {}
        self.entry = self.exit = self.onraise = ''
        self.after_call = {}   # (name, nth or 0) -> text
        self.before_call = {}
        self.modifies = []
        self.pures = []
        self.file = None; self.line = 0
        self.uses = []
        self.trusted = None
        self.opts = {}

class Item:
    def __init__(self, kind, name, text, src):
        self.kind, self.name, self.text, self.src = kind, name, text, src
        self.heap = None       # globals (for predicate/function)
        self.params = ''

IDENT = re.compile(r"(?<![\w'.@$])([A-Za-z_][\w']*)")

class Spec:
    def __init__(self, d):
        self.items = {}
        self.order = []
        self.funcs = {}
        self.base = {}         # base name -> FnSpec (when unambiguous)
        for f in sorted(glob.glob(os.path.join(d, '*.spec'))):
            self.parse_file(f)
        self.prog = None
        self.heap_closure()

    # ------------------------------------------------------------- parsing
    def parse_file(self, path):
        lines = open(path).read().split('\n')
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith('%%'):
                j = i + 1
                while j < len(lines) and not lines[j].startswith(('%%', 'fn ')): j += 1
                self.item(l[2:].strip() + '\n' + '\n'.join(x for x in lines[i + 1:j] if not x.startswith('#')), (path, i + 1))
                i = j
            elif l.startswith('fn '):
                j = i + 1
                while j < len(lines) and not lines[j].startswith(('%%', 'fn ')): j += 1
                self.fn(lines[i:j], (path, i + 1))
                i = j
            else: i += 1

    def item(self, text, src):
        m = re.match(r'^(\w+)\s+([\w\']+)', text)
        kind, name = m.group(1), m.group(2)
        if kind == 'opaque':      # a defined predicate the solvers see as uninterpreted; NAME_def unfolds one instance
            m = re.match(r'^opaque\s+(\w+)\s+((?:\([^()]*\)\s*)*)=\s*(.*)$', text, re.S)
            ps = m.group(2).strip(); args = ' '.join(a for g in re.findall(r'\(([^:()]*):', ps) for a in g.split())
            self.item('sym %s %s : bool' % (name, ps), src)
            self.item('assume %s_def %s : unit ensures { %s %s <-> (%s) }' % (name, ps, name, args, m.group(3).strip()), src)
            return
        if name in self.items: raise Exception('%s:%d: duplicate item %s' % (src[0], src[1], name))
        it = Item(kind, name, text.rstrip(), src)
        self.items[name] = it
        self.order.append(name)

    def fn(self, lines, src):
        m = re.match(r'^fn\s+(.*?)\s+\(([^()]*)\)\s*$', lines[0])
        if not m: raise Exception('%s:%d: bad fn header' % src)
        s = FnSpec(m.group(1))
        s.given = True
        s.params = [x.strip() for x in m.group(2).split(',') if x.strip()]
        s.file, s.line = src
        if s.name in self.funcs: raise Exception('duplicate spec %s' % s.name)
        self.funcs[s.name] = s
        cur = s
        i = 1
        def block(i, first):
            # text within balanced braces starting in `first`
            t = first
            while t.count('{') != t.count('}') or '{' not in t:
                i += 1
                if i >= len(lines): raise Exception('%s:%d: unbalanced block' % src)
                x = lines[i]
                if not x.strip().startswith('#'): t += '\n' + x
            a = t.index('{'); b = t.rindex('}')
            return i, t[:a].strip(), t[a + 1:b].strip()
        while i < len(lines):
            l = lines[i].strip()
            if not l or l.startswith('#'): i += 1; continue
            w = l.split()[0]
            if w in ('requires', 'ensures', 'invariant', 'variant', 'raises', 'entry', 'exit', 'onraise', 'after-call', 'before-call', 'begin', 'end', 'after', 'before'):
                if w == 'raises' and '{' not in l:
                    s.raises_given = True; s.raises |= set(l.split()[1:]); i += 1; continue
                i, head, body = block(i, l)
                h = head.split(None, 1)
                rest = h[1] if len(h) > 1 else ''
                exn = None
                if w == 'raises':
                    exn, _, rest = rest.partition(' ')
                if w in ('requires', 'ensures', 'invariant', 'raises'):
                    m = re.match(r'^([A-Z]\d\d(?:,[A-Z]\d\d)*)?\s*(?:\[(.*)\])?$', rest.strip())
                    if not m: raise Exception('%s:%d: bad clause head %r' % (src[0], src[1] + i, head))
                    tags, label = m.group(1) or '', m.group(2) or ''
                    c = (label, tags, body)
                    if w == 'requires': s.requires.append(c)
                    elif w == 'ensures': s.ensures.append(c)
                    elif w == 'invariant': cur.invariants.append(c)
                    else:
                        s.exc.append((exn,) + c); s.raises.add(exn)
                elif w == 'variant': cur.variants.append(body)
                elif w in ('entry', 'exit', 'onraise'): setattr(s, w, (getattr(s, w) + '\n' + body).strip())
                elif w in ('after-call', 'before-call'):
                    d = s.after_call if w == 'after-call' else s.before_call
                    nm = rest.strip().split('#')
                    d[(nm[0], int(nm[1]) if len(nm) > 1 else 0)] = body
                else: setattr(cur, w, (getattr(cur, w) + '\n' + body).strip())
            elif w == 'loop':
                cur = LoopSpec(); s.loops[int(l.split()[1])] = cur
            elif w == 'modifies':
                m = re.match(r'^modifies\s+([\w.]+)\s*:\s*(.*)$', l)
                if not m: raise Exception('%s:%d: bad modifies' % (src[0], src[1] + i))
                t = m.group(2)
                if t.startswith('{'):
                    i, head, body = block(i, t)
                    cur.modifies.append((m.group(1), '{' + body + '}'))
                else:
                    for e in split_top(t):
                        cur.modifies.append((m.group(1), e))
            elif w == 'noraise': s.raises_given = True
            elif w == 'uses': s.uses += l.split()[1:]
            elif w == 'trusted': s.trusted = l.partition(' ')[2]
            elif w == 'opt':
                a = l.split(); s.opts[a[1]] = a[2] if len(a) > 2 else '1'
            else: raise Exception('%s:%d: unknown clause %r' % (src[0], src[1] + i, l))
            i += 1

    # ------------------------------------------------------------- heap arguments of predicates
    @staticmethod
    def gname(m):
        s = m.group(1)
        if '.' in s: return 'f_' + s.replace('.', '_')
        return s

    AT = re.compile(r'@(?!expl:|stop_split)([A-Za-z_]\w*(?:\.\w+)?)')

    def heap_closure(self):
        hp = {}
        for it in self.items.values():
            if it.kind in ('predicate', 'function', 'inductive'):
                hp[it.name] = set(self.gname(m) for m in self.AT.finditer(it.text))
        changed = True
        while changed:
            changed = False
            for n, g in hp.items():
                for m in IDENT.finditer(self.items[n].text):
                    x = m.group(1)
                    if x in hp and x != n and not hp[x] <= g:
                        g |= hp[x]; changed = True
        self.heap = {n: sorted(g) for n, g in hp.items() if g}
        # lemmas about two states: the earlier one is passed as ghost arguments h_*
        self.two = {}
        for it in self.items.values():
            if it.kind == 'lemma' and re.search(r'\bold\b', it.text):
                self.two[it.name] = sorted(set(re.findall(r'\bh_(\w+)', self.olds(it.text))))

    def olds(self, text):
        """Replace old X in the text of a lemma: heap names refer to the earlier state."""
        out = ''
        while True:
            m = re.search(r'\bold\s*', text)
            if not m: return out + text
            out += text[:m.start()]; i = j = m.end()
            if text[i] == '(':
                d = 0
                while True:
                    if text[j] == '(': d += 1
                    elif text[j] == ')':
                        d -= 1
                        if d == 0: break
                    j += 1
                j += 1
            else:
                m = re.compile(r'@?[\w.]+').match(text, i); j = m.end()
            x = self.AT.sub(lambda m: 'h_' + self.gname(m), text[i:j])
            def r(m):
                n = m.group(1)
                return '$%s %s' % (n, ' '.join('h_' + g for g in self.heap[n])) if n in self.heap else n
            out += IDENT.sub(r, x)
            text = text[j:]

    # ------------------------------------------------------------- lookup
    def attach(self, prog):
        """Bind function specs to functions of the program."""
        self.prog = prog
        self.bykey = {}
        self.unattached = []
        for n, s in self.funcs.items():
            if n.startswith('%'): continue
            if n == 'call_dist': continue
            fs = prog.find(n)
            fs = [f for f in fs if f.body is not None or f.inits or f.implicit]
            if len(fs) > 1: fs = [f for f in fs if len(f.params) == len(s.params)]
            if len(fs) > 1: fs = [f for f in fs if not f.implicit]
            if len(fs) != 1 or len(fs[0].params) != len(s.params):
                self.unattached.append(n); continue
            self.bykey[fs[0].key] = s
        return self

    NONE = FnSpec()

    def for_func(self, f):
        return self.bykey.get(f.key, self.NONE)

    # ------------------------------------------------------------- substitution in contracts and hooks
    def subst(self, text, tr):
        f = tr.f
        sp = tr.spec
        for a, b in zip(sp.params, [x[0] for x in f.params]):
            if a != b:
                text = re.sub(r"\bp_%s\b" % re.escape(a), '\0p_%s' % b, text)
        text = text.replace('\0', '')
        def var(m):
            n = m.group(1)
            return tr.spec_var(n)
        text = re.sub(r'\$(\w+)', var, text)
        text = re.sub(r'\bSTR\(([^()]*)\)', lambda m: tr.w.strlit(m.group(1)), text)
        return self.globals_of(text)

    def globals_of(self, text):
        return self.AT.sub(lambda m: '!' + self.gname(m), text)

    def apply_heap(self, text, inside=False):
        """Add the heap arguments to uses of heap predicates."""
        def r(m):
            n = m.group(1)
            if n in self.heap:
                return '%s %s' % (n, ' '.join(('g_' if inside else '!') + g for g in self.heap[n]))
            if n in self.two:
                return '%s %s' % (n, ' '.join('(pure { old !%s })' % g for g in self.two[n]))
            if "'" in n and n.split("'")[0] in self.two:      # the earlier state is the one at a label
                x, l = n.split("'", 1)
                return '%s %s' % (x, ' '.join('(pure { !%s at %s })' % (g, l) for g in self.two[x]))
            return n
        return IDENT.sub(r, text)

def _apply_heap_body(self, text, me):
    def r(m):
        n = m.group(1)
        if n in self.heap and n != me:
            return '%s %s' % (n, ' '.join('g_' + g for g in self.heap[n]))
        return n
    return IDENT.sub(r, text)
Spec.apply_heap_body = _apply_heap_body

def anyname(w):
    return re.sub(r'\W+', '_', w).strip('_')

def expl(f, kind, label, tags):
    return '%s|%s|%s' % (tags or '-', kind, (label or '').replace(']', ')').replace('[', '('))
