"""C++ type strings (as clang prints them) -> translation types."""
import re

class T:
    __slots__ = ('k', 'a', 'b')
    def __init__(self, k, a=None, b=None):
        self.k = k; self.a = a; self.b = b
    def __repr__(self):
        return self.k + ('<%r%s>' % (self.a, ', %r' % self.b if self.b is not None else '') if self.a is not None else '')
    def __eq__(self, o):
        return isinstance(o, T) and (self.k, self.a, self.b) == (o.k, o.a, o.b)
    def __hash__(self):
        return hash((self.k, self.a, self.b))

INT, UINT, BOOL, REAL, VOID, STR = T('int'), T('uint'), T('bool'), T('real'), T('void'), T('str')
CHAR = T('char')

class Unsupported(Exception):
    pass

BASIC = {
    'int': INT, 'long': INT, 'short': INT, 'long long': INT, 'signed char': CHAR, 'char': CHAR, 'unsigned char': CHAR,
    'unsigned int': UINT, 'unsigned long': UINT, 'unsigned long long': UINT, 'unsigned short': UINT, 'size_t': UINT,
    'std::size_t': UINT, 'unsigned': UINT, 'size_type': UINT, 'ptrdiff_t': INT, 'difference_type': INT, 'std::ptrdiff_t': INT,
    'bool': BOOL, 'double': REAL, 'float': REAL, 'long double': REAL, 'void': VOID,
    'int8_t': INT, 'int16_t': INT, 'int32_t': INT, 'int64_t': INT, 'uint32_t': UINT, 'uint64_t': UINT,
    'std::string': STR, 'string': STR, 'std::basic_string<char>': STR, 'basic_string<char>': STR,
    'std::ofstream': T('ostream'), 'std::ifstream': T('istream'), 'std::ostream': T('ostream'), 'std::istream': T('istream'),
    'ofstream': T('ostream'), 'ifstream': T('istream'), 'ostream': T('ostream'), 'istream': T('istream'),
    'std::basic_ofstream<char>': T('ostream'), 'std::basic_ostream<char>': T('ostream'),
    'std::basic_ifstream<char>': T('istream'), 'std::basic_istream<char>': T('istream'), 'std::basic_ios<char>': T('ios'),
    'std::nullptr_t': T('null'), 'nullptr_t': T('null'),
}

def split_top(s, sep=','):
    out, d, cur = [], 0, ''
    for c in s:
        if c in '<([': d += 1
        if c in '>)]': d -= 1
        if c == sep and d == 0:
            out.append(cur.strip()); cur = ''
        else:
            cur += c
    out.append(cur.strip())
    return out

class Types:
    def __init__(self):
        self.typedefs = {}
        self.classes = {}     # short class name -> 'obj' | 'rec'
        self.cache = {}

    def parse(self, s):
        s = s.strip()
        if s in self.cache:
            return self.cache[s]
        t = self._parse(s)
        self.cache[s] = t
        return t

    def _parse(self, s):
        s = s.strip()
        for q in ('class ', 'struct ', 'enum ', 'const ', 'volatile ', 'typename '):
            if s.startswith(q):
                return self.parse(s[len(q):])
        if s.endswith(' const'):
            return self.parse(s[:-6])
        m = re.match(r'^(.*)\(\*(?:const)?\)\((.*)\)(?: noexcept.*)?$', s)
        if m:
            return T('fn', tuple([m.group(1).strip()] + [x for x in split_top(m.group(2)) if x]))
        if s.endswith('&&'):
            return T('ref', self.parse(s[:-2]))
        if s.endswith('&'):
            return T('ref', self.parse(s[:-1]))
        if s.endswith('*const'):
            return T('ptr', self.parse(s[:-6]))
        if s.endswith('*'):
            return T('ptr', self.parse(s[:-1]))
        m = re.match(r'^(.*)\[(\d+)\]$', s)
        if m:
            return T('arr', self.parse(m.group(1)), int(m.group(2)))
        if s in BASIC:
            return BASIC[s]
        if s.startswith('onex::'):
            return self.parse(s[6:])
        m = re.match(r'^(?:std::)?(?:__cxx11::)?(\w+)<(.*)>$', s)
        if m:
            args = split_top(m.group(2))
            if m.group(1) == 'vector':
                return T('vec', self.parse(args[0]))
            if m.group(1) == 'pair':
                return T('pair', self.parse(args[0]), self.parse(args[1]))
            if m.group(1) == 'map':
                return T('map', self.parse(args[0]), self.parse(args[1]))
            if m.group(1) == 'basic_string':
                return STR
            if m.group(1) == 'numeric_limits':
                return T('opaque', s)
        if s in self.classes:
            return T(self.classes[s], s)
        if s in self.typedefs and self.typedefs[s] != s:
            return self.parse(self.typedefs[s])
        if 'token_iterator' in s or 'tokenizer' in s and s.endswith('iterator'):
            return T('tokiter')
        if 'tokenizer' in s or re.match(r'^(boost::)?char_separator\b', s):
            return T('tokenizer')
        if 'chrono' in s:
            return T('opaque', 'chrono')
        return T('opaque', s)

    def of(self, node):
        """Type of an AST node ('type' dict)."""
        ty = node.get('type') or {}
        for key in ('qualType', 'desugaredQualType'):
            if key in ty:
                t = self.parse(ty[key])
                if not has_opaque(t):
                    return t
        return self.parse(ty.get('desugaredQualType') or ty.get('qualType') or 'void')

def has_opaque(t):
    if not isinstance(t, T): return False
    if t.k == 'opaque': return True
    return has_opaque(t.a) or has_opaque(t.b)

def strip_ref(t):
    while t.k == 'ref':
        t = t.a
    return t
