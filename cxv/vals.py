"""Value domain of the symbolic executor: python constants where possible, z3 terms otherwise."""
import z3

class Unsupported(Exception):
    """the construct is outside of what the verifier models"""

S = z3.StringSort()
I = z3.IntSort()
B = z3.BoolSort()
F64 = z3.Float64()
F32 = z3.Float32()

_uf = {}
def uf(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    if k not in _uf:
        _uf[k] = z3.Function(name, *sorts)
    return _uf[k]

_sorts = {}
def usort(name):
    if name not in _sorts:
        _sorts[name] = z3.DeclareSort(name)
    return _sorts[name]

def is_z3(x):
    return isinstance(x, z3.ExprRef)

def zs(x):
    """string -> z3"""
    if isinstance(x, str):
        return str_val(x)
    if isinstance(x, z3.SeqRef):
        return x
    if isinstance(x, CodeOf):
        raise Unsupported('code used as string')
    raise Unsupported('not a string: %r' % (type(x),))

_strcache = {}
def str_val(x):
    if x not in _strcache:
        out = ''
        for ch in x:
            o = ord(ch)
            if 32 <= o < 127 and ch != '\\':
                out += ch
            else:
                out += '\\u{%x}' % o
        _strcache[x] = z3.StringVal(out)
    return _strcache[x]

def zi(x):
    if isinstance(x, bool):
        return z3.IntVal(1 if x else 0)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, CodeOf):
        return x.code()
    if isinstance(x, z3.BoolRef):
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, z3.ArithRef):
        return x
    raise Unsupported('not an int: %r' % (type(x),))

def zb(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, z3.BoolRef):
        return x
    raise Unsupported('not a bool: %r' % (type(x),))

def simp(x):
    return z3.simplify(x)

def b_const(x):
    """python bool if x is constant, else None"""
    if isinstance(x, bool):
        return x
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    return None

def mk_bool(x):
    if isinstance(x, bool):
        return x
    y = z3.simplify(x)
    c = b_const(y)
    return y if c is None else c

def b_not(x):
    return (not x) if isinstance(x, bool) else z3.Not(x)

def b_and(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return False
        else:
            out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)

def b_or(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if x:
                return True
        else:
            out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)

def b_imp(a, b):
    return b_or(b_not(a), b)

def lift(x):
    """z3 term of a scalar/string/bool value"""
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, str):
        return str_val(x)
    if isinstance(x, CodeOf):
        return x.code()
    if is_z3(x):
        return x
    raise Unsupported('cannot lift %r' % (type(x),))

def eq(a, b):
    if isinstance(a, CodeOf) and isinstance(b, CodeOf) and a.signed == b.signed:
        return eq(a.s, b.s)
    if isinstance(a, CodeOf) and isinstance(b, int):
        c = chr_of(b, a.signed)
        return False if c is None else eq(a.s, c)
    if isinstance(b, CodeOf) and isinstance(a, int):
        return eq(b, a)
    if isinstance(a, (bool, int, str)) and isinstance(b, (bool, int, str)):
        return a == b
    la, lb = lift(a), lift(b)
    if la.sort() != lb.sort():
        if la.sort() == B and lb.sort() == I:
            la = zi(la)
        elif la.sort() == I and lb.sort() == B:
            lb = zi(lb)
        else:
            raise Unsupported('eq of different sorts %s %s' % (la.sort(), lb.sort()))
    if z3.is_fp(la):
        return z3.fpEQ(la, lb)
    return mk_bool(la == lb)

def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, CodeOf) and isinstance(b, CodeOf):
        return CodeOf(ite(c, a.s, b.s), a.signed)
    if isinstance(a, bool) and isinstance(b, bool) and a == b:
        return a
    if isinstance(a, (int, str)) and type(a) == type(b) and a == b:
        return a
    return z3.If(c, lift(a), lift(b))

def chr_of(code, signed):
    if signed and code < 0:
        code += 256
    if 0 <= code < 256:
        return chr(code)
    return None

class CodeOf:
    """the integer value of a char (kept symbolic as long as it is only compared)"""
    def __init__(self, s, signed=True):
        self.s, self.signed = s, signed
    def code(self):
        if isinstance(self.s, str):
            c = ord(self.s)
            return z3.IntVal(c - 256 if self.signed and c > 127 else c)
        c = z3.StrToCode(self.s)
        # characters beyond 255 do not exist in C++ strings; the solver's alphabet has them
        return z3.If(c > 127, z3.If(c > 255, -1, c - 256), c) if self.signed else z3.If(c > 255, 255, c)

# ---------------------------------------------------------------- strings
def s_len(s):
    return len(s) if isinstance(s, str) else z3.Length(s)

def s_cat(*xs):
    out = []
    for x in xs:
        if isinstance(x, str):
            if x == '':
                continue
            if out and isinstance(out[-1], str):
                out[-1] += x
                continue
        out.append(x)
    if not out:
        return ''
    if len(out) == 1:
        return out[0]
    return z3.Concat(*[zs(x) for x in out])

def s_sub(s, i, n):
    if isinstance(s, str) and isinstance(i, int) and isinstance(n, int):
        return s[i:i + n] if i >= 0 and n >= 0 else ''
    return z3.simplify(z3.SubString(zs(s), zi(i), zi(n)))

def s_at(s, i):
    if isinstance(s, str) and isinstance(i, int):
        return s[i] if 0 <= i < len(s) else ''
    return z3.simplify(z3.SubString(zs(s), zi(i), z3.IntVal(1)))

def s_prefix(p, s):
    if isinstance(p, str) and isinstance(s, str):
        return s.startswith(p)
    if isinstance(p, str) and p == '':
        return True
    return z3.PrefixOf(zs(p), zs(s))

def s_suffix(p, s):
    if isinstance(p, str) and isinstance(s, str):
        return s.endswith(p)
    return z3.SuffixOf(zs(p), zs(s))

def s_contains(s, t):
    if isinstance(t, str) and isinstance(s, str):
        return t in s
    return z3.Contains(zs(s), zs(t))

def s_index(s, t, start=0):
    if isinstance(s, str) and isinstance(t, str) and isinstance(start, int):
        return s.find(t, start)
    return z3.IndexOf(zs(s), zs(t), zi(start))

# ---------------------------------------------------------------- ints
def _arith(op, a, b):
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
        a, b = int(a), int(b)
        return {'+': a + b, '-': a - b, '*': a * b}[op]
    a, b = zi(a), zi(b)
    return simp({'+': a + b, '-': a - b, '*': a * b}[op]) if op != '*' else simp(a * b)

def add(a, b): return _arith('+', a, b)
def sub(a, b): return _arith('-', a, b)
def mul(a, b): return _arith('*', a, b)

def lt(a, b):
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
        return a < b
    return mk_bool(zi(a) < zi(b))

def le(a, b):
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
        return a <= b
    return mk_bool(zi(a) <= zi(b))

def imin(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return min(a, b)
    return z3.If(zi(a) <= zi(b), zi(a), zi(b))

def imax(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return max(a, b)
    return z3.If(zi(a) >= zi(b), zi(a), zi(b))

INT_TYPES = {'int': (32, True), 'unsigned int': (32, False), 'long': (64, True), 'unsigned long': (64, False),
             'long long': (64, True), 'unsigned long long': (64, False), 'short': (16, True),
             'unsigned short': (16, False), 'signed char': (8, True), 'unsigned char': (8, False), 'char': (8, True)}

def strip_cv(t):
    t = t.strip()
    ch = True
    while ch:
        ch = False
        for p in ('const ', 'volatile '):
            if t.startswith(p):
                t = t[len(p):]
                ch = True
        for p in (' const', ' volatile'):
            if t.endswith(p):
                t = t[:-len(p)]
                ch = True
    return t

def strip_ref(t):
    t = t.strip()
    while t.endswith('&'):
        t = t[:-1].strip()
    return t

def bare(t):
    return strip_cv(strip_ref(strip_cv(t)))

def is_ref(t):
    return t.rstrip().endswith('&')

# ---------------------------------------------------------------- structured values
class Loc:
    """a glvalue: root object and access path"""
    __slots__ = ('root', 'path')
    def __init__(self, root, path=()):
        self.root, self.path = root, path
    def f(self, name):
        return Loc(self.root, self.path + (('f', name),))
    def at(self, idx):
        return Loc(self.root, self.path + (('i', idx),))
    def ch(self, idx):
        return Loc(self.root, self.path + (('c', idx),))
    def opt(self):
        return Loc(self.root, self.path + (('o',),))
    def alt(self):
        return Loc(self.root, self.path + (('a',),))
    def __repr__(self):
        return 'Loc(%s%s)' % (self.root, ''.join('.%s' % (p[-1],) for p in self.path))
    def key(self):
        return (self.root, tuple(p[1] if p[0] == 'f' else (p[0], str(p[1:])) for p in self.path))

class Struct:
    __slots__ = ('type', 'fields')
    def __init__(self, type, fields):
        self.type, self.fields = type, fields
    def with_(self, name, v):
        d = dict(self.fields)
        d[name] = v
        return Struct(self.type, d)
    def __repr__(self):
        return 'Struct(%s)' % self.type

class Vec:
    """contiguous container with elements of a z3 sort"""
    __slots__ = ('et', 'arr', 'len')
    def __init__(self, et, arr, len):
        self.et, self.arr, self.len = et, arr, len
    def __repr__(self):
        return 'Vec(%s,%s,%s)' % (self.et, self.arr, self.len)

class FnVec:
    """std::vector<std::function<void()>>: an opaque part (z3 Seq of uninterpreted functions) and appended closures"""
    __slots__ = ('base', 'items')
    def __init__(self, base, items=()):
        self.base, self.items = base, tuple(items)
    def __repr__(self):
        return 'FnVec(%s,%d)' % (self.base, len(self.items))

class FnElem:
    """an opaque std::function"""
    __slots__ = ('term', 'tag')
    def __init__(self, term, tag=None):
        self.term, self.tag = term, tag

class SetV:
    __slots__ = ('arr',)
    def __init__(self, arr):
        self.arr = arr

class Opt:
    __slots__ = ('has', 'val', 'et')
    def __init__(self, has, val, et):
        self.has, self.val, self.et = has, val, et

class Variant:
    __slots__ = ('alts', 'idx', 'val')
    def __init__(self, alts, idx, val):
        self.alts, self.idx, self.val = alts, idx, val

class UPtr:
    __slots__ = ('loc', 'null')
    def __init__(self, loc):
        self.loc = loc

class Iter:
    """iterator / pointer into a container or string: loc of the container and index"""
    __slots__ = ('loc', 'idx', 'rev')
    def __init__(self, loc, idx, rev=False):
        self.loc, self.idx, self.rev = loc, idx, rev
    def __repr__(self):
        return 'Iter(%s,%s)' % (self.loc, self.idx)

class Ptr:
    __slots__ = ('loc',)
    def __init__(self, loc):
        self.loc = loc

class Closure:
    def __init__(self, node, caps, this):
        self.node, self.caps, self.this = node, caps, this

class FuncRef:
    def __init__(self, f):
        self.f = f

class OStreamIter:
    def __init__(self, loc):
        self.loc = loc

class BackIns:
    def __init__(self, loc):
        self.loc = loc

class Regex:
    __slots__ = ('pat',)
    def __init__(self, pat):
        self.pat = pat

class Opaque:
    """value of a type that is not modelled; using it in any other way than passing it around is unsupported"""
    __slots__ = ('type', 'info')
    def __init__(self, type, info=None):
        self.type, self.info = type, info
    def __repr__(self):
        return 'Opaque(%s)' % self.type

class ExcVal:
    __slots__ = ('type', 'msg', 'tag')
    def __init__(self, type, msg, tag=None):
        self.type, self.msg, self.tag = type, msg, tag

class CxxThrow(Exception):
    def __init__(self, ev):
        self.ev = ev

class ExitCall(Exception):
    def __init__(self, code):
        self.code = code

class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v

class BreakEx(Exception):
    pass

class ContinueEx(Exception):
    pass

class StopPath(Exception):
    """path ends here (infeasible or loop cut point)"""

class Restart(Exception):
    """loop information changed: explore the function again"""

class All:
    """goal or fact: for all j in [lo,hi): fn(j)"""
    def __init__(self, lo, hi, fn, tag='', only=None):
        self.only = only        # facts: the terms worth instantiating at
        self.lo, self.hi, self.fn, self.tag = lo, hi, fn, tag
        self.tmpl = self.store = None


def b_iff(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    return zb(a) == zb(b)
