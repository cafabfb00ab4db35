"""Calls, constructors and the trusted contracts of the standard library functions that /repo uses."""
import re
import z3
from .vals import *
from .engine import MAXLEN, NeedBranch, Impure, short, strip_targs, first_targ
from .interp import Interp
from .fs import FsLib
from .sysmodel import SysLib, NOW, NOWD
from .regex import to_re

NPOS = (1 << 64) - 1

# ---- uninterpreted library functions (their only known property is being functions)
PF = uf('path_filename', S, S)
PJ = uf('path_join', S, S, S)
QUOTE = uf('quoted', S, S)
REGEX = uf('regex_full_match', S, S, B)          # (text, pattern)
TOLOWER = uf('tolower', I, I)
TOUPPER = uf('toupper', I, I)
INT_STR = uf('int_to_string', I, S)
FILL = uf('fill', I, S, S)
MAPHAS = uf('enum_has', S, B)
MAPVAL = uf('enum_val', S, I)
ENUM_N = z3.Const('enum_count', I)
ISOK = uf('istream_ok', S, B)
ISEOF = uf('istream_eof', S, B)


def int_str(x):
    if isinstance(x, bool):
        return '1' if x else '0'
    if isinstance(x, int):
        return str(x)
    return INT_STR(zi(x))


def fill(n, c):
    if z3.is_int_value(n):
        n = n.as_long()
    if isinstance(n, int) and isinstance(c, str):
        return c * n
    if isinstance(n, int) and 0 <= n <= 4:
        return s_cat(*([zs(c)] * n)) if n > 1 else zs(c) if n else ''
    return FILL(zi(n), zs(c))


class VC(FsLib, SysLib, Interp):
    # ------------------------------------------------------------------ helpers
    def as_str(self, v):
        v = self.V(v)
        if isinstance(v, (str, z3.SeqRef)):
            return v
        if isinstance(v, CodeOf):
            return v.s
        if isinstance(v, Iter):
            s = self.load(v.loc)
            if isinstance(s, (str, z3.SeqRef)):
                return s_sub(s, v.idx, sub(s_len(s), v.idx)) if not (isinstance(v.idx, int) and v.idx == 0) else s
        if isinstance(v, list):
            return s_cat(*[self.as_str(x) for x in v])
        if isinstance(v, Ptr) and v.loc is not None:
            return self.as_str(v.loc)
        raise Unsupported('not a string: %r' % (v,))

    def is_strv(self, v):
        return isinstance(v, (str, z3.SeqRef))

    def tmp(self, node, typ, v, tag='x'):
        return self.new_root(self.frames[-1].key + (tag, node['_u']), typ, v)

    def throw(self, t, msg=''):
        raise CxxThrow(ExcVal(t, msg))

    def call_value(self, f, args, node):
        """call a function object with evaluated arguments"""
        if isinstance(f, Loc):
            f = self.load(f)
        if isinstance(f, Closure):
            fn = self.pick_inst(f, args)
            return self.call_fn(fn, None, args, node, caps=dict(f.caps), capthis=f.this)
        if isinstance(f, FnElem):
            h = self.ghost.get('call_opaque')
            if h is None:
                raise Unsupported('call of an opaque function')
            return h(self, f, args)
        if isinstance(f, FuncRef):
            c = f.f
            if c['id'] in self.prog.fn:
                return self.call_fn(self.prog.fn[c['id']], None, args, node)
            return self.lib_free(c, args, node)
        raise Unsupported('call of %r' % (f,))

    def pick_inst(self, cl, args):
        ids = [i for i in cl.node['insts'] if i in self.prog.fn]
        if len(ids) == 1:
            return self.prog.fn[ids[0]]
        for i in ids:
            fn = self.prog.fn[i]
            ok = len(fn['params']) == len(args)
            for p, a in zip(fn['params'], args):
                t = None
                if isinstance(a, Loc):
                    v = self.load(a)
                    t = v.type if isinstance(v, Struct) else self.type_of(a)
                elif isinstance(a, Struct):
                    t = a.type
                if t is not None and t != '?' and bare(p['type']) != bare(t):
                    ok = False
            if ok:
                return fn
        raise Unsupported('no matching lambda instantiation')

    # ------------------------------------------------------------------ call nodes
    def ex_call(self, n):
        if 'callee' not in n or n['callee'] is None:
            f = self.rv(n['fn'])
            return self.call_value(f, [self.ev(a) for a in n['args']], n)
        c = n['callee']
        if c['name'] == '__builtin_unreachable':
            self.oblige('unreachable', False, 'safety')
            raise StopPath()
        if c.get('body') and c['id'] in self.prog.fn:
            fn = self.prog.fn[c['id']]
            args = [self.ev(a) for a in n['args']]
            return self.call_fn(fn, None, args, n)
        q = short(c['q'])
        if q in ('__assert_fail',):
            if '__assert_fail' in self.libover:
                self.libover['__assert_fail'](self)
            self.oblige('assertion of the program', False, 'assert')
            raise StopPath()
        args = [self.ev(a) for a in n['args']]
        if 'cv' in n and not args:
            return int(n['cv'])
        return self.lib_free(c, args, n)

    def ex_mcall(self, n):
        c = n['callee']
        obj = self.ev(n['obj'])
        if n.get('arrow'):
            o = self.V(obj)
            if isinstance(o, Ptr):
                obj = o.loc
                if obj is None:
                    raise Unsupported('null object')
            elif isinstance(o, Iter):
                obj = self.deref(o)
        args = [self.ev(a) for a in n['args']]
        if c.get('virtual') and not n.get('qualified'):
            v = self.V(obj)
            if isinstance(v, Struct):
                t = v.type
                for f in self.prog.override.get(c['id'], []):
                    if bare(f['cls']) == t:
                        return self.call_fn(f, obj, args, n)
                if c['id'] in self.prog.fn and bare(self.prog.fn[c['id']]['cls']) == t:
                    return self.call_fn(self.prog.fn[c['id']], obj, args, n)
        if c.get('body') and c['id'] in self.prog.fn:
            if not isinstance(obj, Loc):
                obj = self.tmp(n, c['cls'], obj, 'o')
            v = self.load(obj)
            if isinstance(v, Closure):
                return self.call_value(v, args, n)
            return self.call_fn(self.prog.fn[c['id']], obj, args, n)
        return self.lib_method(c, obj, args, n)

    def ex_opcall(self, n):
        c = n['callee']
        op = n['op']
        if c is not None and c.get('lambda') and op == '()':
            f = self.V(self.ev(n['args'][0]))
            args = [self.ev(a) for a in n['args'][1:]]
            if isinstance(f, Closure):
                fn = self.prog.fn[c['id']] if c['id'] in self.prog.fn else self.pick_inst(f, args)
                return self.call_fn(fn, None, args, n, caps=dict(f.caps), capthis=f.this)
            return self.call_value(f, args, n)
        if c is not None and c.get('body') and c['id'] in self.prog.fn:
            args = [self.ev(a) for a in n['args']]
            fn = self.prog.fn[c['id']]
            if c.get('method'):
                obj = args[0]
                if isinstance(obj, Loc) is False:
                    obj = self.tmp(n, c['cls'], obj, 'o')
                if c.get('virtual'):
                    v = self.load(obj)
                    for f in self.prog.override.get(c['id'], []):
                        if isinstance(v, Struct) and bare(f['cls']) == v.type:
                            fn = f
                return self.call_fn(fn, obj, args[1:], n)
            return self.call_fn(fn, None, args, n)
        args = [self.ev(a) for a in n['args']]
        if c is not None and c.get('virtual') and args and isinstance(self.V(args[0]), Struct):
            v = self.V(args[0])
            for f in self.prog.override.get(c['id'], []):
                if bare(f['cls']) == v.type:
                    return self.call_fn(f, args[0], args[1:], n)
        return self.lib_op(op, c, args, n)

    # ------------------------------------------------------------------ construction
    def ex_construct(self, n):
        c = n['callee']
        t = bare(n['t'])
        cls = bare(c['cls'])
        if n.get('copy') or n.get('move'):
            a = self.ev(n['args'][0])
            v = self.V(a)
            if n.get('move') and isinstance(a, Loc):
                self.moved(a, v)
            return v
        if c.get('body') and c['id'] in self.prog.fn:
            args = [self.ev(a) for a in n['args']]
            loc = self.new_root(self.frames[-1].key + ('n', n['_u']), t, self.skeleton(t))
            self.call_fn(self.prog.fn[c['id']], loc, args, n)
            return self.load(loc)
        args = [self.ev(a) for a in n['args']]
        if cls in self.prog.rec:
            if not args:
                if self.prog.is_a(cls, 'std::exception'):
                    return ExcVal(cls, '')
                return self.default_struct(cls)
            if self.prog.is_a(cls, 'std::exception'):   # inherited constructor
                return ExcVal(cls, self.as_str(args[0]))
        return self.lib_construct(cls, c, args, n)

    def skeleton(self, t):
        fs = {}
        for f in self.prog.all_fields(t) or []:
            fs[f['name']] = Opaque('uninitialised')
        return Struct(t, fs)

    def moved(self, loc, v):
        """moved-from strings and vectors of the repository's own objects are left empty"""
        try:
            if isinstance(v, Vec):
                self.write(loc, self.empty_vec(v.et))
            elif isinstance(v, (str, z3.SeqRef)) and self.type_of(loc) in ('std::string',):
                self.write(loc, '')
            elif isinstance(v, FnVec):
                self.write(loc, FnVec(None))
        except Unsupported:
            pass

    def lib_construct(self, cls, c, args, n):
        ps = [bare(p) for p in c['params']]
        A = [self.V(a) for a in args]
        if cls == 'std::string':
            if not A:
                return ''
            if isinstance(A[0], Opaque) and A[0].type == 'envptr':
                if self.branch(A[0].info[0]):
                    self.throw('std::logic_error')
                return A[0].info[1]
            if len(A) >= 1 and ps and ps[0].startswith('std::initializer_list'):
                return self.as_str(A[0])
            if len(A) >= 2 and ps[0] in ('unsigned long',) and ps[1] == 'char':
                return fill(A[0], self.as_str(A[1]))
            if len(A) >= 2 and isinstance(A[0], Iter) and isinstance(A[1], Iter):
                s = self.load(A[0].loc)
                return s_sub(s, A[0].idx, sub(A[1].idx, A[0].idx))
            if len(A) >= 2 and self.is_strv(A[0]) and isinstance(A[1], (int, z3.ArithRef)) and not isinstance(A[1], bool):
                s = A[0]
                if ps[0].startswith('const char') or ps[0] == 'char *':
                    return s_sub(s, 0, A[1])
                cnt = A[2] if len(A) > 2 and isinstance(A[2], (int, z3.ArithRef)) else sub(s_len(s), A[1])
                return self.substr(s, A[1], cnt)
            return self.as_str(A[0])
        if cls == 'std::string_view' or cls.startswith('std::basic_string_view'):
            if not A:
                return ''
            if len(A) == 2 and not isinstance(A[1], Opaque):
                if isinstance(A[0], Iter) and isinstance(A[1], Iter):
                    return s_sub(self.load(A[0].loc), A[0].idx, sub(A[1].idx, A[0].idx))
                return s_sub(self.as_str(A[0]), 0, A[1])
            return self.as_str(A[0])
        if cls == 'std::filesystem::path':
            return self.as_str(A[0]) if A else ''
        r = self.fs_construct(cls, args, n)
        if r is not NotImplemented:
            return r
        r = self.sys_construct(cls, c, args, n)
        if r is not NotImplemented:
            return r
        if cls.startswith('std::allocator') or cls.startswith('std::hash') or cls.startswith('std::equal_to') \
                or cls.startswith('std::less'):
            return Opaque(cls)
        if cls.startswith('std::vector<') or cls.startswith('std::list<'):
            et = self.elem_type(cls)
            A = [a for a in A if not (isinstance(a, Opaque) and a.type.startswith('std::allocator'))]
            if et.startswith('std::function<'):
                return FnVec(None, A[0] if A and isinstance(A[0], list) else ())
            if not A:
                return self.empty_vec(et)
            if isinstance(A[0], list):
                v = self.empty_vec(et)
                for x in A[0]:
                    v = self.vec_push(v, x)
                return v
            if isinstance(A[0], Vec):
                return A[0]
            if len(A) == 2 and isinstance(A[0], Iter) and isinstance(A[1], Iter):
                return self.sub_vec(self.load(A[0].loc), A[0].idx, A[1].idx)
            if len(A) == 2 and isinstance(A[0], Opaque) and A[0].type == 'mapbegin' and self.sort_of(et) is not None:
                self.assume(z3.And(ENUM_N >= 1, ENUM_N <= MAXLEN))
                return Vec(et, z3.Const('enum_pairs', z3.ArraySort(I, self.sort_of(et))), ENUM_N)
            if len(A) == 2 and isinstance(A[0], Opaque) and A[0].type == 'istream_iterator':
                return A[0].info
            if len(A) == 2 and isinstance(A[0], Opaque) and A[0].type == 'argv':
                return self.sub_vec(A[0].info[0], A[0].info[1], A[1].info[1])
            return Opaque(cls)
        if cls.startswith('std::function<'):
            return A[0]
        if cls.startswith('std::basic_stringstream') or cls.startswith('std::basic_ostringstream'):
            return Struct('sstream', {'buf': ''})
        if cls.startswith('std::basic_istringstream'):
            return Struct('istream', {'buf': self.as_str(A[0]) if A else '', 'fail': False, 'eof': False})
        if cls.startswith('std::ostream_iterator'):
            return OStreamIter(args[0])
        if cls.startswith('std::istream_iterator'):
            if not A:
                return Opaque('istream_iterator_end')
            st = A[0]
            h = self.libover.get('tokens')
            if h is None:
                raise Unsupported('istream_iterator')
            return Opaque('istream_iterator', h(self, st.fields['buf']))
        if cls.startswith('__gnu_cxx::__normal_iterator'):
            return A[0] if A else Opaque(cls)
        if cls.startswith('std::optional<'):
            et = first_targ(cls[len('std::optional<'):-1])
            if not A or (isinstance(A[0], Opaque) and A[0].type == 'nullopt'):
                return Opt(False, None, et)
            return A[0] if isinstance(A[0], Opt) else Opt(True, A[0], et)
        if cls.startswith('std::variant<'):
            return self.make_variant(cls, A[0])
        if cls.startswith('std::unique_ptr<'):
            return UPtr(None) if not A or isinstance(A[0], Ptr) and A[0].loc is None else (A[0] if isinstance(A[0], UPtr) else UPtr(A[0].loc))
        if cls.startswith('std::unordered_set<') or cls.startswith('std::set<'):
            arr = z3.K(S, z3.BoolVal(False))
            if A and isinstance(A[0], list):
                for x in A[0]:
                    arr = z3.Store(arr, zs(x), z3.BoolVal(True))
            elif A and isinstance(A[0], SetV):
                return A[0]
            return SetV(arr)
        if cls.startswith('std::basic_regex'):
            return Regex(self.as_str(A[0]))
        if cls == 'std::error_code':
            return Struct('error_code', {'val': False})
        if cls.startswith('std::array<'):
            return A[0] if A else self.default_value(cls)
        if cls == 'std::exception':
            return ExcVal('std::exception', '')
        if self.prog.is_a(cls, 'std::exception') or cls in ('std::runtime_error', 'std::logic_error'):
            return ExcVal(cls, self.as_str(A[0]) if A else '')
        if cls.startswith('std::pair<'):
            return (A[0], A[1])
        h = self.libover.get('construct:' + short(cls))
        if h is None:
            for k, hh in self.libover.items():
                if k.startswith('construct:') and cls.startswith(k[10:]):
                    h = hh
        if h:
            return h(self, c, args, n)
        return Opaque(cls)

    def make_variant(self, cls, v):
        alts = split_targs(cls[len('std::variant<'):-1])
        t = v.type if isinstance(v, Struct) else '?'
        if t in alts:
            return Variant(alts, alts.index(t), v)
        raise Unsupported('variant alternative %s' % t)

    def sub_vec(self, v, lo, hi):
        """elements [lo,hi) of v as a new vector"""
        n = simp(zi(sub(hi, lo)))
        n = n.as_long() if z3.is_int_value(n) else n
        if isinstance(lo, int) and lo == 0:
            return Vec(v.et, v.arr, n)
        if isinstance(n, int) and n <= 16:
            out = self.empty_vec(v.et)
            for i in range(n):
                out = self.vec_push(out, self.vec_get(v, add(lo, i)))
            return out
        a = self.fresh('slice', v.arr.sort())
        self.assume(All(0, n, lambda j: eq(z3.Select(a, zi(j)), z3.Select(v.arr, zi(add(lo, j)))), 'slice'))
        j0 = lo
        r = Vec(v.et, a, n)
        # reading v at an interesting index makes the shifted index interesting in the slice
        self.assume(All(lo, hi, lambda j: eq(z3.Select(a, zi(sub(j, lo))), z3.Select(v.arr, zi(j))), 'slice'))
        return r

    def concat_vec(self, v, w):
        """v ++ w"""
        if isinstance(w.len, int) and w.len <= 16:
            out = v
            for i in range(w.len):
                out = self.vec_push(out, self.vec_get(w, i))
            return out
        a = self.fresh('cat', v.arr.sort())
        self.assume(All(0, v.len, lambda j: eq(z3.Select(a, zi(j)), z3.Select(v.arr, zi(j))), 'cat'))
        self.assume(All(0, w.len, lambda j: eq(z3.Select(a, zi(add(v.len, j))), z3.Select(w.arr, zi(j))), 'cat'))
        n = add(v.len, w.len)
        self.assume(All(v.len, n, lambda j: eq(z3.Select(a, zi(j)), z3.Select(w.arr, zi(sub(j, v.len)))), 'cat'))
        return Vec(v.et, a, n)

    def substr(self, s, pos, cnt):
        n = s_len(s)
        if self.branch(lt(n, pos)):
            self.throw('std::out_of_range')
        if isinstance(cnt, int) and cnt == NPOS:
            cnt = sub(n, pos)
        return s_sub(s, pos, cnt)

    # ------------------------------------------------------------------ predicates over elements
    def transformed(self, rng, f, node):
        """std::views::transform over a list: the list of the results (strings or what is printed as one)"""
        v = self.V(rng)
        if not isinstance(v, Vec):
            raise Unsupported('transform of %r' % (v,))
        x = z3.Const('elem!%d' % node['_u'], v.arr.sort().range())

        def th():
            loc = self.new_root(self.frames[-1].key + ('el', node['_u']), v.et, x)
            r = self.V(self.call_value(f, [loc], node))
            if isinstance(r, Opaque) and r.type == 'quoted':
                r = r.info
            return r
        try:
            r = self.pure(th)
        except Impure as e:
            raise Unsupported('transformation is not pure: %s' % e)
        if len(r) != 1 or r[0][0] or r[0][1] != 'ret':
            raise Unsupported('transformation with cases')
        r = r[0][2]
        if not (is_z3(r) and r.sort() == S):
            raise Unsupported('transformation to %r' % (r,))
        if z3.eq(r, x):
            return v
        if r.num_args() == 1 and z3.eq(r.arg(0), x):
            arr = z3.Map(r.decl(), v.arr)
        else:
            k = z3.Int('k!%d' % node['_u'])
            arr = z3.Lambda([k], z3.substitute(r, (x, z3.Select(v.arr, k))))
        return Vec('std::string', arr, v.len)

    def elem_pred(self, f, vec_or_str, node):
        """formula of predicate object f over an element value (z3 substitution template)"""
        if isinstance(vec_or_str, Vec):
            et = vec_or_str.et
            es = vec_or_str.arr.sort().range()
        else:
            et, es = 'char', S
        x = z3.Const('elem!%d' % node['_u'], es)

        def th():
            v = x
            if bare(et) == 'char':
                self.asserts.append(z3.Length(x) == 1)
                self.solver.add(z3.Length(x) == 1)
            elif es == S:
                self.solver.add(z3.Length(x) <= MAXLEN)
            loc = self.new_root(self.frames[-1].key + ('el', node['_u']), et, v)
            r = self.to_bool(self.call_value(f, [loc], node))
            if self.store[loc.root] is not v:
                raise Unsupported('predicate modifies the element')
            return r
        cnt = dict(self.counter)
        try:
            res = self.pure(th)
        except Impure as e:
            raise Unsupported('predicate is not pure: %s' % e)
        used = {k for k in self.counter if self.counter[k] != cnt.get(k, 0)}
        if used:
            raise Unsupported('predicate needs fresh symbols %s' % used)
        p = b_or(*[b_and(*(conds + [v])) for conds, _, v in res])
        p = mk_bool(p)

        def pred(val):
            if isinstance(p, bool):
                return p
            return mk_bool(z3.substitute(p, (x, lift(val))))
        return pred

    def elem_at(self, v, i):
        return self.vec_get(v, i) if isinstance(v, Vec) else s_at(v, i)

    def first_index(self, v, lo, hi, pred, node):
        """least index in [lo,hi) satisfying pred, else hi"""
        if isinstance(lo, int) and isinstance(hi, int) and hi - lo <= 12:
            for i in range(lo, hi):
                c = pred(self.elem_at(v, i))
                if self.branch(c):
                    return i
            return hi
        r = self.fresh('find', I)
        self.assume([le(lo, r), le(r, hi)])
        self.assume(All(lo, r, lambda j: b_not(pred(self.elem_at(v, j))), 'not found before'))
        self.reg_idx(r)
        if self.branch(lt(r, hi)):
            self.assume(pred(self.elem_at(v, r)))
            return r
        self.assume(eq(r, hi))
        return hi

    # ------------------------------------------------------------------ free functions
    def lib_free(self, c, args, n):
        q = short(c['q'])
        h = self.libover.get(q)
        if h:
            r = h(self, c, args, n)
            if r is not NotImplemented:
                return r
        m = getattr(self, 'lf_' + re.sub(r'\W', '_', q), None)
        if m is None:
            raise Unsupported('library function ' + q)
        self.trusted.add(q)
        return m(c, args, n)

    def lf_move(self, c, args, n):
        if len(args) == 3:    # std::move(first, last, out)
            a, b, o = [self.V(x) for x in args]
            if isinstance(o, BackIns):
                src = self.load(a.loc)
                self.write(o.loc, self.concat_vec(self.load(o.loc), self.sub_vec(src, a.idx, b.idx)))
                return o
            raise Unsupported('std::move to %r' % (o,))
        return args[0]

    lf_forward = lf_move
    def lf_addressof(self, c, args, n): return Ptr(args[0])
    def lf_as_const(self, c, args, n): return args[0]
    def lf_back_inserter(self, c, args, n): return BackIns(args[0])
    def lf_exit(self, c, args, n): raise ExitCall(self.V(args[0]))

    def rng(self, a, b):
        a, b = self.V(a), self.V(b)
        if not isinstance(a, Iter) or not isinstance(b, Iter) or a.loc.key() != b.loc.key() or a.rev:
            raise Unsupported('range')
        v = self.load(a.loc)
        if not isinstance(v, (Vec, str, z3.SeqRef)):
            raise Unsupported('range over %r' % (v,))
        return a, b, v

    def lf_find(self, c, args, n):
        if len(args) == 2:   # ranges::find(range, value)
            return self.range_find(args, n)
        a, b, v = self.rng(args[0], args[1])
        x = self.V(args[2])
        if isinstance(x, Iter):
            x = self.as_str(x)
        r = self.first_index(v, a.idx, b.idx, lambda e: eq(e, x), n)
        return Iter(a.loc, r)

    def lf_find_if(self, c, args, n):
        a, b, v = self.rng(args[0], args[1])
        p = self.elem_pred(self.V(args[2]), v, n)
        return Iter(a.loc, self.first_index(v, a.idx, b.idx, p, n))

    def lf_find_if_not(self, c, args, n):
        a, b, v = self.rng(args[0], args[1])
        p = self.elem_pred(self.V(args[2]), v, n)
        return Iter(a.loc, self.first_index(v, a.idx, b.idx, lambda e: b_not(p(e)), n))

    def quant(self, v, lo, hi, pred, n):
        """does every element satisfy pred?"""
        r = self.first_index(v, lo, hi, lambda e: b_not(pred(e)), n)
        return mk_bool(eq(r, hi))

    def rng_or_range(self, args):
        if len(args) == 3 and not isinstance(self.V(args[0]), Iter):
            pr = self.V(args[2])    # a projection: the default one only
            if not (isinstance(pr, Struct) and not pr.fields or isinstance(pr, Opaque)):
                raise Unsupported('projection')
            args = args[:2]
        if len(args) == 2:
            loc = args[0]
            v = self.V(loc)
            if not isinstance(v, (Vec, str, z3.SeqRef)):
                raise Unsupported('range')
            if not isinstance(loc, Loc):
                loc = self.new_root(('rngtmp', len(self.frames)), '?', v)
            return Iter(loc, 0), Iter(loc, v.len if isinstance(v, Vec) else s_len(v)), v, args[1]
        a, b, v = self.rng(args[0], args[1])
        return a, b, v, args[2]

    def lf_all_of(self, c, args, n):
        a, b, v, f = self.rng_or_range(args)
        p = self.elem_pred(self.V(f), v, n)
        return self.quant(v, a.idx, b.idx, p, n)

    def lf_any_of(self, c, args, n):
        a, b, v, f = self.rng_or_range(args)
        p = self.elem_pred(self.V(f), v, n)
        return b_not(self.quant(v, a.idx, b.idx, lambda e: b_not(p(e)), n))

    def lf_none_of(self, c, args, n):
        a, b, v, f = self.rng_or_range(args)
        p = self.elem_pred(self.V(f), v, n)
        return self.quant(v, a.idx, b.idx, lambda e: b_not(p(e)), n)

    def whole_range(self, args):
        r = args[0]
        v = self.V(r)
        if not isinstance(r, Loc) or not isinstance(v, Vec) or self.sort_of(v.et) != S:
            raise Unsupported('range algorithm on %r' % (v,))
        for x in args[1:]:
            x = self.V(x)
            if not (isinstance(x, Struct) and not x.fields or isinstance(x, Opaque)):
                raise Unsupported('range algorithm with comparison')
        return r, v

    @staticmethod
    def forward(t):
        """witnesses are followed in one direction only"""
        return isinstance(t, int) or ('to' not in re.findall(r'wit_u?(to|from)', s := str(t)) and s.count('wit_') <= 1)

    @staticmethod
    def backward(t):
        return isinstance(t, int) or ('from' not in re.findall(r'wit_u?(to|from)', s := str(t)) and s.count('wit_') <= 1)

    def lf_ranges__sort(self, c, args, n):
        r, v = self.whole_range(args)
        if isinstance(v.len, int) and v.len <= 1:
            return Iter(r, v.len)
        a = self.fresh('sorted', v.arr.sort())
        p, q = (self.fresh('wit_' + x, z3.ArraySort(I, I)) for x in ('from', 'to'))
        el = lambda w, i: z3.Select(w, zi(i))

        def perm(i):
            k = z3.Select(p, zi(i))
            self.reg_idx(k)
            return b_and(le(0, k), lt(k, v.len), eq(el(a, i), el(v.arr, k)), eq(z3.Select(q, k), i))

        def inv(j):
            k = z3.Select(q, zi(j))
            self.reg_idx(k)
            return b_and(le(0, k), lt(k, v.len), eq(el(a, k), el(v.arr, j)), eq(z3.Select(p, k), j))
        self.assume(All(0, v.len, perm, only=self.forward))
        self.assume(All(0, v.len, inv, only=self.backward))
        flat = lambda t: isinstance(t, int) or str(t).count('wit_') <= 1
        self.assume(All(0, v.len, lambda i: b_and(*[b_imp(b_and(le(0, t), lt(t, v.len)), b_and(b_imp(le(i, t), el(a, i) <= el(a, t)), b_imp(le(t, i), el(a, t) <= el(a, i))))
                                                    for t in self.idx_dependent() if flat(i) and flat(t) and not (t is i)])))
        self.write(r, Vec(v.et, a, v.len))
        return Iter(r, v.len)

    def lf_ranges__unique(self, c, args, n):
        r, v = self.whole_range(args)
        if isinstance(v.len, int) and v.len <= 1:
            return (Iter(r, v.len), Iter(r, v.len))
        a = self.fresh('uniq', v.arr.sort())
        m = self.fresh('uniq_len', I)
        p, q = (self.fresh('wit_u' + x, z3.ArraySort(I, I)) for x in ('from', 'to'))
        el = lambda w, i: z3.Select(w, zi(i))
        self.assume([le(0, m), le(m, v.len), b_imp(lt(0, v.len), lt(0, m))])

        def src(i):
            k, nx = z3.Select(p, zi(i)), add(i, 1)
            self.reg_idx(k)
            return b_and(le(i, k), lt(k, v.len), eq(el(a, i), el(v.arr, k)),
                         b_imp(lt(nx, m), b_and(lt(k, z3.Select(p, zi(nx))), b_not(eq(el(a, i), el(a, nx))))))

        def dst(j):
            k = z3.Select(q, zi(j))
            self.reg_idx(k)
            return b_and(le(0, k), lt(k, m), le(k, j), eq(el(a, k), el(v.arr, j)))
        self.assume(All(0, m, src, only=self.forward))
        self.assume(All(0, v.len, dst, only=self.backward))
        self.write(r, Vec(v.et, a, v.len))
        return (Iter(r, m), Iter(r, v.len))

    lf_ranges__all_of = lf_all_of
    lf_ranges__any_of = lf_any_of

    def lf_for_each(self, c, args, n):
        """desugared to a loop"""
        a, b, f = self.V(args[0]), self.V(args[1]), args[2]
        fr = self.frames[-1]
        it = self.new_root(fr.key + ('fe', n['_u']), '__iter', a)
        fr.env['fe%d' % n['_u']] = it
        fr.names['fe%d' % n['_u']] = ('__it', '__iter')
        fv = self.V(f)

        def body():
            el = self.deref(self.load(it))
            self.call_value(fv, [el], n)

        self.loop(n, lambda: lt(self.load(it).idx, b.idx), body,
                  lambda: self.write(it, self.advance(self.load(it), 1)))
        return fv

    def lf_distance(self, c, args, n):
        a, b = self.V(args[0]), self.V(args[1])
        return sub(b.idx, a.idx)

    def lf_next(self, c, args, n):
        return self.advance(self.V(args[0]), self.V(args[1]) if len(args) > 1 else 1)

    def lf_prev(self, c, args, n):
        return self.advance(self.V(args[0]), sub(0, self.V(args[1])) if len(args) > 1 else -1)

    def lf_empty(self, c, args, n): return self.m_empty(self.V(args[0]))
    def lf_size(self, c, args, n): return self.m_size(self.V(args[0]))
    lf_ssize = lf_size
    def lf_begin(self, c, args, n): return Iter(args[0], 0)
    lf_cbegin = lf_begin
    def lf_end(self, c, args, n): return Iter(args[0], self.m_size(self.V(args[0])))
    lf_cend = lf_end

    def lf_cmp_less_equal(self, c, args, n): return le(self.V(args[0]), self.V(args[1]))
    def lf_cmp_less(self, c, args, n): return lt(self.V(args[0]), self.V(args[1]))
    def lf_cmp_greater(self, c, args, n): return lt(self.V(args[1]), self.V(args[0]))
    def lf_cmp_greater_equal(self, c, args, n): return le(self.V(args[1]), self.V(args[0]))
    def lf_cmp_equal(self, c, args, n): return eq(self.V(args[0]), self.V(args[1]))
    def lf_cmp_not_equal(self, c, args, n): return b_not(eq(self.V(args[0]), self.V(args[1])))

    def lf_min(self, c, args, n):
        a, b = self.V(args[0]), self.V(args[1])
        if 'numeric_limits' in c['q']:
            raise Unsupported('limits')
        return a if self.branch(le(a, b)) else b

    def lf_max(self, c, args, n):
        a, b = self.V(args[0]), self.V(args[1])
        return a if self.branch(le(b, a)) else b

    def limits(self, c, which):
        m = re.match(r'std::numeric_limits<(.*)>::', c['q'])
        t = bare(m.group(1)) if m else bare(c['ret'])
        if t in INT_TYPES:
            bits, s = INT_TYPES[t]
            r = {'min': -(1 << (bits - 1)) if s else 0, 'max': (1 << (bits - (1 if s else 0))) - 1}[which]
            return r
        return z3.Const('limit_%s_%s' % (which, t), F64 if t == 'double' else F32)

    def lf_numeric_limits__min(self, c, args, n): return self.limits(c, 'min')
    def lf_numeric_limits__max(self, c, args, n): return self.limits(c, 'max')
    lf_numeric_limits__lowest = lf_numeric_limits__min

    def lf_to_string(self, c, args, n):
        return self.print_form(self.V(args[0]), bare(c['params'][0]))

    def print_form(self, v, t):
        """what operator<< / to_string produces"""
        if isinstance(v, CodeOf):
            if t in ('char', 'unsigned char', 'signed char'):
                return v.s
            return int_str(v.code())
        if isinstance(v, (str, z3.SeqRef)):
            return QUOTE(zs(v)) if 'filesystem::path' in t and 'string' not in t else v
        if isinstance(v, (bool, z3.BoolRef)):
            return ite(v, '1', '0')
        if t in ('signed char', 'unsigned char'):
            return uf('byte_as_char', I, S)(zi(v))
        if isinstance(v, (int, z3.ArithRef)):
            return int_str(v)
        if isinstance(v, z3.FPRef):
            return uf('fp_to_string', v.sort(), S)(v)
        if is_z3(v):
            return uf('print_' + str(v.sort()), v.sort(), S)(v)
        if isinstance(v, Opaque) and v.type == 'quoted':
            return v.info
        raise Unsupported('printing %r' % (v,))

    def ctype_val(self, v):
        v = self.V(v)
        return v if isinstance(v, CodeOf) else v

    def lf_tolower(self, c, args, n):
        v = self.V(args[0])
        if isinstance(v, CodeOf) and isinstance(v.s, str):
            return ord(v.s.lower()) if v.s.isascii() else TOLOWER(ord(v.s))
        if isinstance(v, CodeOf):    # one value per character, whether it is passed as signed or unsigned char
            return TOLOWER(z3.StrToCode(zs(v.s)))
        return TOLOWER(zi(v))

    def lf_toupper(self, c, args, n):
        v = self.V(args[0])
        if isinstance(v, CodeOf):
            return ord(v.s.upper()) if isinstance(v.s, str) and v.s.isascii() else TOUPPER(z3.StrToCode(zs(v.s)))
        return TOUPPER(zi(v))

    def cls_of(self, v, fn):
        v = self.V(v)
        x = v.s if isinstance(v, CodeOf) else None
        if x is None:
            raise Unsupported('ctype')
        return fn(x)

    def lf_isdigit(self, c, args, n): return self.cls_of(args[0], lambda x: z3.InRe(zs(x), z3.Range('0', '9')))
    def lf_isalpha(self, c, args, n): return self.cls_of(args[0], lambda x: z3.InRe(zs(x), z3.Union(z3.Range('a', 'z'), z3.Range('A', 'Z'))))
    def lf_isalnum(self, c, args, n): return self.cls_of(args[0], lambda x: z3.InRe(zs(x), z3.Union(z3.Range('a', 'z'), z3.Range('A', 'Z'), z3.Range('0', '9'))))
    def lf_isspace(self, c, args, n): return self.cls_of(args[0], lambda x: z3.InRe(zs(x), z3.Union(z3.Re(' '), z3.Range('\t', '\r'))))

    def lf_quoted(self, c, args, n):
        return Opaque('quoted', QUOTE(zs(self.as_str(args[0]))))

    def lf_regex_match(self, c, args, n):
        s = self.as_str(args[0])
        r = self.V(args[1])
        if not isinstance(r, Regex):
            raise Unsupported('regex')
        return self.regex_full(s, r.pat)

    def regex_full(self, s, pat):
        if isinstance(pat, str):
            r = to_re(pat)
            if r is not None:
                return z3.InRe(zs(s), r)
        return REGEX(zs(s), zs(pat))

    def lf_visit(self, c, args, n):
        f, v = args[0], args[1]
        var = self.V(v)
        if not isinstance(var, Variant) or not isinstance(v, Loc):
            raise Unsupported('visit of %r' % (var,))
        if not isinstance(var.idx, int):
            for i, t in enumerate(var.alts):
                if i == len(var.alts) - 1 or self.branch(eq(var.idx, i)):
                    var = Variant(var.alts, i, self.sym(t, 'alt%d' % i))
                    self.write(v, var)
                    break
        return self.call_value(self.V(f), [v.alt()], n)

    def type_of(self, loc):
        if loc.path and loc.path[-1][0] == 'a':
            v = self.load(Loc(loc.root, loc.path[:-1]))
            if isinstance(v, Variant) and isinstance(v.idx, int):
                return v.alts[v.idx]
        return super().type_of(loc)

    def lf_holds_alternative(self, c, args, n):
        v = self.V(args[0])
        t = bare(c['targs'][0])
        if isinstance(v, Variant):
            if t not in v.alts:
                raise Unsupported('holds_alternative ' + t)
            return eq(v.idx, v.alts.index(t))
        raise Unsupported('holds_alternative of %r' % (v,))

    def lf_make_unique(self, c, args, n):
        t = bare(c['targs'][0])
        k = self.counter.get('heap', 0)
        self.counter['heap'] = k + 1
        loc = self.new_root(('heap', k), t, self.skeleton(t))
        h = self.libover.get('make_unique:' + t)
        if h:
            h(self, loc, args, n)
            return UPtr(loc)
        cand = self.find_ctor(t, args)
        if cand is None:
            raise Unsupported('make_unique<%s>' % t)
        # default arguments that the forwarding call does not pass
        self.call_ctor(cand, loc, args, n)
        return UPtr(loc)

    def find_ctor(self, t, args):
        best = None
        for f in self.prog.fn.values():
            if f.get('cls') == t and 'inits' in f and len(f['params']) >= len(args):
                ok = True
                for p, a in zip(f['params'], args):
                    v = self.V(a)
                    pt = bare(p['type'])
                    if isinstance(v, Vec) != pt.startswith('std::vector'):
                        ok = False
                    if self.is_strv(v) != (pt in ('std::string', 'std::string_view', 'char')):
                        ok = False
                if ok and (best is None or len(f['params']) < len(best['params'])):
                    best = f
        return best

    def call_ctor(self, f, loc, args, n):
        args = list(args)
        for p in f['params'][len(args):]:
            args.append(self.default_value(p['type']))
        self.call_fn(f, loc, args, n)

    def lf_getenv(self, c, args, n):
        nm = self.as_str(args[0])
        if not isinstance(nm, str):
            raise Unsupported('getenv of a computed name')
        isnull = z3.Const('env_unset_' + nm, B)
        return Opaque('envptr', (isnull, z3.Const('env_' + nm, S)))

    def lf_isatty(self, c, args, n):
        fd = self.V(args[0])
        r = z3.Const('isatty_%s' % fd, I)
        return r

    def lf_current_exception(self, c, args, n):
        if not self.cur_exc:
            raise Unsupported('current_exception')
        return Opaque('exception_ptr', self.cur_exc[-1])

    def lf_rethrow_exception(self, c, args, n):
        raise CxxThrow(self.V(args[0]).info)

    def lf_throw_with_nested(self, c, args, n):
        v = self.V(args[0])
        raise CxxThrow(v)

    def lf_sort(self, c, args, n):
        """some permutation (of which only the length is used)"""
        a, b, v = self.rng(args[0], args[1])
        if not (a.idx == 0 and self.known(eq(b.idx, v.len))):
            raise Unsupported('sort of a part')
        self.write(a.loc, Vec(v.et, self.fresh('sorted', v.arr.sort()), v.len))
        return None

    def lf_fill_n(self, c, args, n):
        o, cnt, x = [self.V(a) for a in args]
        if isinstance(o, OStreamIter):
            self.out(o.loc, fill(cnt, self.as_str(x)))
            return o
        raise Unsupported('fill_n')

    def lf_transform(self, c, args, n):
        a, b, v = self.rng(args[0], args[1])
        o = self.V(args[2])
        if isinstance(o, OStreamIter) and isinstance(v, (str, z3.SeqRef)):
            f = self.V(args[3])
            fn = self.pick_inst(f, [])  if isinstance(f, Closure) else None
            nm = 'map_' + (self.char_function(f, n) if fn else 'fn')
            s = s_sub(v, a.idx, sub(b.idx, a.idx))
            self.out(o.loc, uf(nm, S, S)(zs(s)))
            return o
        raise Unsupported('transform')

    def char_function(self, f, n):
        """what a function of one character computes, as a term over the character"""
        x = z3.Const('char', S)
        fn = self.pick_inst(f, [])
        t = bare(fn['params'][0]['type'])
        v = CodeOf(x) if t in ('signed char', 'unsigned char') else x
        loc = self.new_root(('transformed', n['_u']), t, v)
        r = self.pure(lambda: self.V(self.call_value(f, [loc], n)))
        if len(r) != 1 or r[0][1] != 'ret':
            raise Unsupported('transform with cases')
        v = r[0][2]
        return 'of_' + str(z3.simplify(zi(v.code() if isinstance(v, CodeOf) else v)) if not isinstance(v, z3.SeqRef) else z3.simplify(v))

    def lf_from_chars(self, c, args, n):
        """from_chars(first, last, value): contract over uninterpreted FC_ok / FC_val / FC_len / FC_range"""
        a, b = self.V(args[0]), self.V(args[1])
        t = bare(c['params'][2])
        if not (isinstance(a, Iter) and isinstance(b, Iter)):
            raise Unsupported('from_chars')
        s = self.load(a.loc)
        txt = s_sub(s, a.idx, sub(b.idx, a.idx))
        tt = t.replace(' ', '_')
        srt = self.sort_of(t)
        ec = uf('FC_ec_' + tt, S, I)(zs(txt))           # 0 ok, 22 invalid, 34 range
        ln = uf('FC_len_' + tt, S, I)(zs(txt))
        val = uf('FC_val_' + tt, S, srt)(zs(txt))
        self.assume(z3.Or(ec == 0, ec == 22, ec == 34))
        self.assume(z3.And(ln >= 0, ln <= zi(s_len(txt))))
        self.assume(z3.Implies(ec == 22, ln == 0))
        self.assume(z3.Implies(z3.And(ec != 22), ln >= 1))
        if t in INT_TYPES:
            self.assume(self.in_range(val, t))
        h = self.ghost.get('fc_digits')
        if h and t in INT_TYPES and len(c['params']) == 4 and (len(args) < 4 or self.V(args[3]) == 10):
            # decimal digits are read up to the first other character
            digit, dec = h
            i = a.idx
            d = b_and(lt(0, s_len(txt)), digit(s, i))
            v = dec(zs(s), zi(i), zi(add(i, ln)))
            hi = INT_TYPES[t][0] - (1 if INT_TYPES[t][1] else 0)
            self.reg_idx(add(i, ln))
            self.assume(b_imp(d, b_and(ec != 22, v >= 0, b_iff(ec == 0, v < 2 ** hi), b_imp(ec == 0, eq(val, v)), b_or(eq(ln, s_len(txt)), b_not(digit(s, add(i, ln)))))))
            self.assume(All(i, add(i, ln), lambda k: b_imp(d, digit(s, k))))
        if self.branch(ec == 0):
            self.write(args[2], val)
            e = 0
        elif self.branch(ec == 34):
            e = 34
        else:
            e = 22
        return Struct('from_chars_result', {'ptr': Iter(a.loc, add(a.idx, ln)), 'ec': e})

    # ------------------------------------------------------------------ streams
    def out(self, loc, s):
        if not isinstance(loc, Loc):
            raise Unsupported('stream')
        v = self.load(loc)
        h = self.ghost.get('out')
        if h:
            h(self, loc, s)
        if isinstance(v, Struct) and v.type == 'file' and 'id' in v.fields:
            return self.file_out(loc, v, s)
        if isinstance(v, Struct) and 'buf' in v.fields:
            self.write(loc, v.with_('buf', s_cat(v.fields['buf'], s)))
            return
        raise Unsupported('output to %r' % (v,))

    # ------------------------------------------------------------------ operators
    def lib_op(self, op, c, args, n):
        A0 = self.V(args[0])
        q = short(c['q']) if c else ''
        h = self.libover.get('op:' + q)
        if h:
            r = h(self, c, args, n)
            if r is not NotImplemented:
                return r
        if op == '<=>' and len(args) == 2:
            A1 = self.V(args[1])
            return Opaque('ordering', (self.lib_compare('<', A0, A1, c), self.lib_compare('>', A0, A1, c)))
        if op in ('<', '>', '<=', '>=', '==', '!=') and len(args) == 2:
            A1 = self.V(args[1])
            for x, y, o in ((A0, A1, op), (A1, A0, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op))):
                if isinstance(x, Opaque) and x.type == 'ordering' and not (isinstance(y, Opaque) and y.type == 'ordering'):
                    less, more = x.info
                    return {'<': less, '>': more, '<=': b_not(more), '>=': b_not(less), '==': b_and(b_not(less), b_not(more)), '!=': b_or(less, more)}[o]
        if op == '()':
            if q == 'ranges::__find_fn::operator()':
                return self.range_find(args[1:], n)
            if q in ('ranges::__all_of_fn::operator()',):
                return self.lf_all_of(c, args[1:], n)
            if q in ('ranges::__any_of_fn::operator()',):
                return self.lf_any_of(c, args[1:], n)
            if q in ('ranges::__none_of_fn::operator()',):
                return self.lf_none_of(c, args[1:], n)
            if q in ('ranges::__sort_fn::operator()',):
                return self.lf_ranges__sort(c, args[1:], n)
            if q in ('ranges::__unique_fn::operator()',):
                return self.lf_ranges__unique(c, args[1:], n)
            if q in ('ranges::__find_if_fn::operator()',):
                a, b, v, f = self.rng_or_range(args[1:])
                p = self.elem_pred(self.V(f), v, n)
                return Iter(a.loc, self.first_index(v, a.idx, b.idx, p, n))
            if q in ('ranges::__for_each_fn::operator()',):
                r = args[1]
                if not isinstance(r, Loc):
                    r = self.tmp(n, '?', r)
                return self.lf_for_each(c, [Iter(r, 0), Iter(r, self.m_size(self.V(r))), args[2]], n)
            if q.endswith('_Transform::operator()') and len(args) == 3:
                return self.transformed(args[1], self.V(args[2]), n)
            if q.endswith('_Begin::operator()'):
                return Iter(args[1], 0)
            if q.endswith('_End::operator()'):
                return Iter(args[1], self.m_size(self.V(args[1])))
            if isinstance(A0, (Closure, FnElem, FuncRef)):
                return self.call_value(A0, args[1:], n)
            raise Unsupported('call operator ' + q)
        if op == '<<':
            return self.shift_out(args, c, n)
        if op == '>>':
            return self.shift_in(args, c, n)
        if op == '[]':
            i = self.V(args[1])
            if isinstance(A0, (str, z3.SeqRef)):
                self.safety('string index in range', b_and(le(0, i), le(i, s_len(A0)) if 'view' not in q else lt(i, s_len(A0))))
                if isinstance(args[0], Loc):
                    return args[0].ch(i)
                return self.char_at(A0, i)
            if isinstance(A0, Vec):
                self.safety('vector index in range', b_and(le(0, i), lt(i, A0.len)))
                if isinstance(args[0], Loc):
                    return args[0].at(i)
                return self.vec_get(A0, i)
            if isinstance(A0, Iter):
                return self.deref(self.advance(A0, i))
            raise Unsupported('operator[] of %r' % (A0,))
        if op == '*' and len(args) == 1:
            if isinstance(A0, Iter):
                return self.deref(A0)
            if isinstance(A0, Opt):
                self.safety('optional has a value', A0.has)
                return args[0].opt() if isinstance(args[0], Loc) else A0.val
            if isinstance(A0, UPtr):
                if A0.loc is None or not isinstance(A0.loc, Loc):
                    raise Unsupported('deref of unique_ptr')
                return A0.loc
            raise Unsupported('operator* of %r' % (A0,))
        if op == '->':
            if isinstance(A0, Iter):
                return Ptr(self.deref(A0))
            if isinstance(A0, UPtr) and isinstance(A0.loc, Loc):
                return Ptr(A0.loc)
            if isinstance(A0, Opaque) and A0.type == 'mapiter':
                self.safety('map iterator is dereferenceable', A0.info[0])
                return Ptr(self.new_root(('mapel', n['_u']), '?', A0.info[1]))
            raise Unsupported('operator-> of %r' % (A0,))
        if op in ('++', '--'):
            if isinstance(A0, Iter):
                new = self.advance(A0, 1 if op == '++' else -1)
                self.write(args[0], new)
                return A0 if len(args) == 2 else args[0]
            raise Unsupported('increment of %r' % (A0,))
        if op in ('+', '-') and len(args) == 2:
            A1 = self.V(args[1])
            if isinstance(A0, Iter) and isinstance(A1, Iter):
                return sub(A0.idx, A1.idx) if op == '-' else None
            if isinstance(A0, Iter) and not self.is_strv(A1):
                return self.advance(A0, A1 if op == '+' else sub(0, A1))
            if op == '+':
                return s_cat(self.as_str(A0), self.as_str(A1))
            raise Unsupported('operator' + op)
        if op == '+=':
            A1 = self.V(args[1])
            if isinstance(A0, Iter):
                self.write(args[0], self.advance(A0, A1))
                return args[0]
            if self.is_strv(A0):
                new = s_cat(A0, self.as_str(A1))
                if 'fs_paths' in self.ghost and 'path::operator+=' in q:
                    self.fs_append(A0, new)
                self.write(args[0], new)
                return args[0]
            raise Unsupported('+= on %r' % (A0,))
        if op == '-=' and isinstance(A0, Iter):
            self.write(args[0], self.advance(A0, sub(0, self.V(args[1]))))
            return args[0]
        if op == '/':
            return self.path_join(self.as_str(A0), self.as_str(args[1]))
        if op == '/=':
            self.write(args[0], self.path_join(self.as_str(A0), self.as_str(args[1])))
            return args[0]
        if op == '=':
            return self.assign(args[0], A0, args[1], c, n)
        if op in ('==', '!=', '<', '<=', '>', '>='):
            if len(args) == 1:
                raise Unsupported('comparison')
            return self.lib_compare(op, A0, self.V(args[1]), c)
        if op == '|' and 'ranges' in q:
            raise Unsupported('view pipeline')
        raise Unsupported('operator %s (%s)' % (op, q))

    def path_join(self, a, b):
        if isinstance(a, str) and isinstance(b, str):
            return a + ('' if a.endswith('/') or not a else '/') + b
        r = PJ(zs(a), zs(b))
        if isinstance(b, str) and not b.startswith('/') and 'fs_paths' in self.ghost:
            self.fs_join(a, r)
        return r

    def lib_compare(self, op, a, b, c):
        if isinstance(a, Opaque) and a.type == 'envptr' or isinstance(b, Opaque) and b.type == 'envptr':
            x = a if isinstance(a, Opaque) and a.type == 'envptr' else b
            return x.info[0] if op == '==' else z3.Not(x.info[0])
        if isinstance(a, Vec) and isinstance(b, Vec):
            if isinstance(a.len, int) and isinstance(b.len, int):
                if op in ('==', '!='):
                    if a.len != b.len:
                        r = False
                    else:
                        r = b_and(*[eq(self.vec_get(a, i), self.vec_get(b, i)) for i in range(a.len)])
                    return r if op == '==' else b_not(r)
                # lexicographic
                strict = False
                res = {'<': lt, '>': lambda x, y: lt(y, x)}.get(op)
                if res and a.len == b.len:
                    out = False
                    for i in reversed(range(a.len)):
                        x, y = self.vec_get(a, i), self.vec_get(b, i)
                        out = b_or(res(x, y), b_and(eq(x, y), out))
                    return out
                if op in ('<=', '>=') and a.len == b.len:
                    return b_not(self.lib_compare('>' if op == '<=' else '<', a, b, c))
            raise Unsupported('vector comparison')
        if isinstance(a, Iter) and isinstance(b, Iter):
            if a.rev != b.rev:
                raise Unsupported('iterators')
            return self.compare(op, a, b)
        if isinstance(b, Opaque) and b.type == 'mapiter':
            a, b = b, a
        if isinstance(a, Opaque) and a.type == 'mapiter':
            if not (isinstance(b, Opaque) and b.type == 'mapend'):
                raise Unsupported('map iterator')
            return z3.Not(a.info[0]) if op == '==' else a.info[0]
        if isinstance(a, Iter):
            a = self.as_str(a)
        if isinstance(b, Iter):
            b = self.as_str(b)
        if isinstance(a, Opt) or isinstance(b, Opt):
            if isinstance(a, Opt) and not isinstance(b, (Opt, Opaque)):
                r = b_and(a.has, eq(a.val, b) if a.val is not None else False)
                return r if op == '==' else b_not(r)
            raise Unsupported('optional comparison')
        if isinstance(a, Struct) and isinstance(b, Struct):
            raise Unsupported('struct comparison')
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported('comparison of %r and %r' % (a, b))
        return self.compare(op, a, b)

    def assign(self, l, old, rhs, c, n):
        r = self.V(rhs)
        if not isinstance(l, Loc):
            raise Unsupported('assignment to a value')
        t = self.type_of(l)
        if isinstance(old, Variant):
            if isinstance(r, Variant):
                self.write(l, r)
            else:
                alt = r.type if isinstance(r, Struct) else None
                if alt not in old.alts:
                    raise Unsupported('variant assignment of %r' % (r,))
                self.write(l, Variant(old.alts, old.alts.index(alt), r))
            return l
        if isinstance(old, Opt):
            if isinstance(r, Opt):
                self.write(l, r)
            elif isinstance(r, Opaque):
                self.write(l, Opt(False, None, old.et))
            else:
                self.write(l, Opt(True, r, old.et))
            return l
        if isinstance(old, UPtr):
            self.write(l, r if isinstance(r, UPtr) else UPtr(None))
            return l
        if isinstance(old, (str, z3.SeqRef)):
            s = self.as_str(r)
            self.write(l, s)
            if isinstance(rhs, Loc) and any(p.endswith('&&') for p in c.get('params', [])) and rhs.key() != l.key():
                self.moved(rhs, r)
            return l
        if isinstance(old, Vec) and isinstance(r, list):
            v = self.empty_vec(old.et)
            for x in r:
                v = self.vec_push(v, x)
            self.write(l, v)
            return l
        self.write(l, r)
        if isinstance(rhs, Loc) and isinstance(r, Vec) and any(p.endswith('&&') for p in c.get('params', [])) and rhs.key() != l.key():
            self.moved(rhs, r)
        return l

    def shift_out(self, args, c, n):
        st = args[0]
        v = args[1]
        if isinstance(self.V(v), FuncRef):      # manipulators
            nm = self.V(v).f['name']
            if nm == 'endl':
                self.out(st, '\n')
            return st
        t = bare(c['params'][-1])
        self.out(st, self.print_form(self.as_out(self.V(v)), t))
        return st

    def shift_in(self, args, c, n):
        """extraction by a stream operator: deterministic in the characters of the stream"""
        st = self.V(args[0])
        if not (isinstance(st, Struct) and st.type == 'istream'):
            raise Unsupported('stream extraction')
        t = self.type_of(args[1])
        srt = self.sort_of(t)
        if srt is None or srt in (S,):
            raise Unsupported('extraction of ' + t)
        txt = zs(st.fields['buf'])
        self.write(args[1], uf('istream_val_' + t.replace(' ', '_'), S, srt)(txt))
        self.write(args[0], Struct('istream', {'buf': st.fields['buf'], 'fail': z3.Not(ISOK(txt)), 'eof': ISEOF(txt)}))
        return args[0]

    def as_out(self, v):
        if isinstance(v, Iter):
            return self.as_str(v)
        return v

    def range_find(self, args, n):
        r = args[0]
        v = self.V(r)
        if not isinstance(r, Loc):
            r = self.tmp(n, '?', v)
        x = self.V(args[1])
        if isinstance(x, Iter):
            x = self.as_str(x)
        if isinstance(v, Vec):
            return Iter(r, self.first_index(v, 0, v.len, lambda e: eq(e, x), n))
        if self.is_strv(v):
            return Iter(r, self.first_index(v, 0, s_len(v), lambda e: eq(e, x), n))
        raise Unsupported('ranges::find over %r' % (v,))

    # ------------------------------------------------------------------ methods
    def m_size(self, v):
        if isinstance(v, Vec):
            return v.len
        if self.is_strv(v):
            return s_len(v)
        if isinstance(v, FnVec):
            b = 0 if v.base is None else z3.Length(v.base)
            return add(b, len(v.items))
        raise Unsupported('size of %r' % (v,))

    def m_empty(self, v):
        return eq(self.m_size(v), 0)

    def lib_method(self, c, obj, args, n):
        q = short(c['q'])
        name = c['name']
        o = self.V(obj)
        h = self.libover.get(q)
        if h:
            r = h(self, c, [obj] + list(args), n)
            if r is not NotImplemented:
                return r
        self.trusted.add(q)
        A = [self.V(a) for a in args]
        if isinstance(o, Vec):
            return self.vec_method(name, c, obj, o, args, A, n)
        if isinstance(o, (str, z3.SeqRef)):
            return self.str_method(name, c, obj, o, args, A, n, q)
        if isinstance(o, FnVec):
            if name in ('push_back', 'emplace_back'):
                self.write(obj, FnVec(o.base, o.items + (A[0],)))
                return None
            if name == 'size':
                return self.m_size(o)
            if name == 'empty':
                return self.m_empty(o)
            if name == 'operator=':
                self.write(obj, A[0])
                return obj
        if isinstance(o, SetV):
            if name in ('contains', 'count'):
                return z3.Select(o.arr, zs(self.as_str(A[0])))
            if name in ('insert', 'emplace'):
                k = zs(self.as_str(A[0]))
                was = z3.Select(o.arr, k)
                self.write(obj, SetV(z3.Store(o.arr, k, z3.BoolVal(True))))
                return (Opaque('setiter'), mk_bool(z3.Not(was)))
            if name == 'find':
                k = zs(self.as_str(A[0]))
                return Opaque('setfind', mk_bool(z3.Select(o.arr, k)))
            if name == 'operator=':
                self.write(obj, A[0])
                return obj
        if isinstance(o, Opt):
            if name in ('has_value', 'operator bool'):
                return o.has
            if name == 'value':
                if self.branch(o.has):
                    return obj.opt() if isinstance(obj, Loc) else o.val
                self.throw('std::bad_optional_access')
            if name == 'value_or':
                return ite(o.has, o.val, A[0])
            if name == 'reset':
                self.write(obj, Opt(False, None, o.et))
                return None
        if isinstance(o, Struct):
            if o.type == 'file':
                return self.file_method(name, obj, o, A)
            if o.type == 'istream' and name in ('fail', 'eof', 'good', 'bad', 'operator bool', 'operator!'):
                f, e = o.fields['fail'], o.fields['eof']
                if name == 'bad':
                    raise Unsupported('bad()')
                return {'fail': f, 'eof': e, 'good': b_and(b_not(f), b_not(e)), 'operator bool': b_not(f), 'operator!': f}[name]
            if o.type in ('sstream', 'ostream', 'istream') and name == 'str' and not A:
                return o.fields['buf']
            if o.type in ('ostream', 'sstream') and name == 'operator<<':
                t = bare(c['params'][0])
                self.out(obj, self.print_form(self.as_out(A[0]), t))
                return obj
            if o.type == 'ostream' and name == 'flush':
                return obj
            if o.type == 'ostream' and name == 'put':
                self.out(obj, self.as_str(A[0]))
                return obj
            if o.type == 'ostream' and name == 'write':
                self.out(obj, s_sub(self.as_str(A[0]), 0, A[1]))
                return obj
            if o.type == 'error_code' and name in ('operator bool',):
                return o.fields['val']
        if isinstance(o, Opaque) and o.type == 'enummap':
            # trusted model of the (user supplied, non-empty) map of enumeration names
            if name == 'find':
                k = zs(self.as_str(A[0]))
                return Opaque('mapiter', (MAPHAS(k), (k, MAPVAL(k))))
            if name in ('end', 'cend'):
                return Opaque('mapend')
            if name in ('begin', 'cbegin'):
                return Opaque('mapbegin')
            if name in ('contains', 'count'):
                return MAPHAS(zs(self.as_str(A[0])))
            if name == 'at':
                k = zs(self.as_str(A[0]))
                if self.branch(MAPHAS(k)):
                    return MAPVAL(k)
                self.throw('std::out_of_range')
            if name == 'size':
                return ENUM_N
            if name == 'empty':
                return False
        if isinstance(o, ExcVal) and name == 'what':
            return o.msg
        if isinstance(o, UPtr):
            if name == 'operator bool':
                return o.loc is not None
            if name == 'get':
                return Ptr(o.loc)
            if name == 'operator=':
                self.write(obj, A[0] if isinstance(A[0], UPtr) else UPtr(None))
                return obj
        if isinstance(o, Iter) and name in ('operator=',):
            self.write(obj, A[0])
            return obj
        if isinstance(o, Iter) and name == 'base':
            return Iter(o.loc, o.idx)
        if isinstance(o, Opaque):
            r = self.sys_method(name, obj, o, A, c)
            if r is not NotImplemented:
                return r
        if isinstance(o, list):
            if name == 'size':
                return len(o)
        if name == 'operator=' and isinstance(obj, Loc):
            return self.assign(obj, o, args[0], c, n)
        raise Unsupported('library method %s on %r' % (q, o))

    def vec_method(self, name, c, obj, o, args, A, n):
        if name in ('begin', 'cbegin'):
            return Iter(self.as_loc(obj, n, o), 0)
        if name in ('end', 'cend'):
            return Iter(self.as_loc(obj, n, o), o.len)
        if name in ('rbegin', 'crbegin'):
            return Iter(self.as_loc(obj, n, o), o.len, True)
        if name in ('rend', 'crend'):
            return Iter(self.as_loc(obj, n, o), 0, True)
        if name == 'size':
            return o.len
        if name == 'empty':
            return eq(o.len, 0)
        if name in ('push_back', 'emplace_back'):
            x = A[0] if A else self.default_value(o.et)
            if isinstance(x, Iter):
                x = self.as_str(x)
            self.write(obj, self.vec_push(o, x))
            self.reg_idx(o.len)
            return obj.at(o.len) if name == 'emplace_back' else None
        if name in ('reserve', 'shrink_to_fit'):
            return None
        if name == 'clear':
            self.write(obj, Vec(o.et, o.arr, 0))
            return None
        if name == 'back':
            self.safety('back() of a non-empty vector', lt(0, o.len))
            return obj.at(sub(o.len, 1))
        if name == 'front':
            self.safety('front() of a non-empty vector', lt(0, o.len))
            return obj.at(0)
        if name == 'at':
            if self.branch(lt(A[0], o.len)):
                return obj.at(A[0])
            self.throw('std::out_of_range')
        if name == 'pop_back':
            self.safety('pop_back() of a non-empty vector', lt(0, o.len))
            self.write(obj, Vec(o.et, o.arr, sub(o.len, 1)))
            return None
        if name == 'operator=':
            r = A[0]
            if isinstance(r, list):
                v = self.empty_vec(o.et)
                for x in r:
                    v = self.vec_push(v, x)
                r = v
            self.write(obj, r)
            if isinstance(args[0], Loc) and any(p.endswith('&&') for p in c.get('params', [])):
                self.moved(args[0], r)
            return obj
        if name == 'operator[]':
            return self.lib_op('[]', c, [obj, A[0]], n)
        if name == 'data':
            return Iter(obj, 0)
        if name == 'insert':
            pos = A[0]
            if len(A) == 3 and isinstance(A[1], Iter) and isinstance(A[2], Iter):
                src = self.load(A[1].loc)
                ins = self.sub_vec(src, A[1].idx, A[2].idx)
            elif len(A) == 2 and not isinstance(A[1], (Iter, list)):
                ins = self.vec_push(self.empty_vec(o.et), A[1])
            elif len(A) == 2 and isinstance(A[1], list):
                ins = self.empty_vec(o.et)
                for x in A[1]:
                    ins = self.vec_push(ins, x)
            else:
                raise Unsupported('insert')
            head = self.sub_vec(o, 0, pos.idx)
            if self.known(eq(pos.idx, o.len)):
                self.write(obj, self.concat_vec(o, ins))
            else:
                tail = self.sub_vec(o, pos.idx, o.len)
                self.write(obj, self.concat_vec(self.concat_vec(head, ins), tail))
            return Iter(obj, pos.idx)
        if name == 'erase':
            a = A[0]
            b = A[1] if len(A) > 1 else self.advance(a, 1)
            head = self.sub_vec(o, 0, a.idx)
            if self.known(eq(b.idx, o.len)):
                self.write(obj, head)
            else:
                self.write(obj, self.concat_vec(head, self.sub_vec(o, b.idx, o.len)))
            return Iter(obj, a.idx)
        if name == 'resize':
            raise Unsupported('vector resize')
        raise Unsupported('vector method ' + name)

    def as_loc(self, obj, n, v):
        if isinstance(obj, Loc):
            return obj
        return self.tmp(n, '?', v, 'o')

    def str_method(self, name, c, obj, o, args, A, n, q):
        ps = [bare(p) for p in c['params']]
        if name in ('size', 'length'):
            return s_len(o)
        if name == 'empty':
            return eq(s_len(o), 0) if isinstance(o, str) else eq(o, '')
        if name in ('begin', 'cbegin'):
            return Iter(self.as_loc(obj, n, o), 0)
        if name in ('end', 'cend'):
            return Iter(self.as_loc(obj, n, o), s_len(o))
        if name in ('rbegin', 'crbegin'):
            return Iter(self.as_loc(obj, n, o), s_len(o), True)
        if name in ('rend', 'crend'):
            return Iter(self.as_loc(obj, n, o), 0, True)
        if name in ('data', 'c_str', 'native', 'string', 'operator basic_string_view', 'operator basic_string', 'generic_string', 'u8string') \
                or name.startswith('operator '):
            if name in ('data', 'c_str'):
                return Iter(self.as_loc(obj, n, o), 0)
            return o if name != 'native' else obj
        if name == 'substr':
            pos = A[0] if A else 0
            cnt = A[1] if len(A) > 1 else NPOS
            return self.substr(o, pos, cnt)
        if name in ('find', 'find_first_of') and (len(A) < 3):
            start = A[1] if len(A) > 1 else 0
            t = self.as_str(A[0])
            if name == 'find' or self.is_single(t):
                r = s_index(o, t, start)
                if isinstance(r, int):
                    return NPOS if r < 0 else r
                if self.branch(r >= 0):
                    self.assume(r <= MAXLEN)
                    return r
                return NPOS
            return self.find_set(o, t, start)
        if name == 'find_last_of' or name == 'rfind':
            t = self.as_str(A[0])
            if isinstance(o, str) and isinstance(t, str):
                r = o.rfind(t)
                return NPOS if r < 0 else r
            if len(A) > 1 and not (isinstance(A[1], int) and A[1] == NPOS):
                if isinstance(A[1], int) and A[1] == 0 and name == 'rfind':
                    return 0 if self.branch(s_prefix(t, o)) else NPOS
                raise Unsupported('rfind with position')
            if name == 'find_last_of' and not self.is_single(t):
                raise Unsupported('find_last_of set')
            if self.branch(s_contains(o, t)):
                r = self.fresh('rfind', I)
                self.assume(z3.And(r >= 0, r <= MAXLEN, r + zi(s_len(t)) <= zi(s_len(o)), z3.SubString(zs(o), r, zi(s_len(t))) == zs(t),
                                   z3.Not(z3.Contains(z3.SubString(zs(o), r + 1, zi(s_len(o))), zs(t)))))
                return r
            return NPOS
        if name == 'find_first_not_of':
            raise Unsupported('find_first_not_of')
        if name == 'starts_with':
            return s_prefix(self.as_str(A[0]), o)
        if name == 'ends_with':
            return s_suffix(self.as_str(A[0]), o)
        if name == 'contains':
            return s_contains(o, self.as_str(A[0]))
        if name == 'compare':
            if len(A) == 1:
                b = self.as_str(A[0])
                return ite(eq(o, b), 0, ite(self.compare('<', o, b), -1, 1))
            if len(A) == 3:
                part = self.substr(o, A[0], A[1])
                b = self.as_str(A[2])
                return ite(eq(part, b), 0, ite(self.compare('<', part, b), -1, 1))
            raise Unsupported('compare')
        if name == 'front':
            self.safety('front() of a non-empty string', lt(0, s_len(o)))
            return obj.ch(0) if isinstance(obj, Loc) else self.char_at(o, 0)
        if name == 'back':
            self.safety('back() of a non-empty string', lt(0, s_len(o)))
            return obj.ch(sub(s_len(o), 1)) if isinstance(obj, Loc) else self.char_at(o, sub(s_len(o), 1))
        if name == 'at':
            if self.branch(lt(A[0], s_len(o))):
                return obj.ch(A[0]) if isinstance(obj, Loc) else self.char_at(o, A[0])
            self.throw('std::out_of_range')
        if name == 'operator[]':
            return self.lib_op('[]', c, [obj, A[0]], n)
        if name in ('push_back',):
            self.write(obj, s_cat(o, self.as_str(A[0])))
            return None
        if name == 'append':
            if len(A) == 1:
                s = self.as_str(A[0])
            elif ps[:2] == ['unsigned long', 'char']:
                s = fill(A[0], self.as_str(A[1]))
            elif len(A) == 2 and isinstance(A[0], Iter) and isinstance(A[1], Iter):
                s = s_sub(self.load(A[0].loc), A[0].idx, sub(A[1].idx, A[0].idx))
            elif len(A) == 2:
                s = s_sub(self.as_str(A[0]), 0, A[1])
            elif len(A) == 3:
                s = self.substr(self.as_str(A[0]), A[1], A[2])
            else:
                raise Unsupported('append')
            self.write(obj, s_cat(o, s))
            return obj
        if name == 'operator+=':
            if 'fs_paths' in self.ghost and 'path::operator+=' in q:
                self.fs_append(o, s_cat(o, self.as_str(A[0])))
            self.write(obj, s_cat(o, self.as_str(A[0])))
            return obj
        if name in ('operator=', 'assign'):
            if len(A) > 1:
                raise Unsupported('assign')
            return self.assign(obj, o, args[0], c, n)
        if name == 'clear':
            self.write(obj, '')
            return None
        if name in ('reserve', 'shrink_to_fit', 'make_preferred'):
            return None
        if name == 'pop_back':
            self.safety('pop_back() of a non-empty string', lt(0, s_len(o)))
            self.write(obj, s_sub(o, 0, sub(s_len(o), 1)))
            return None
        if name == 'erase':
            if A and isinstance(A[0], Iter):
                a = A[0]
                b = A[1] if len(A) > 1 else self.advance(a, 1)
                self.write(obj, s_cat(s_sub(o, 0, a.idx), s_sub(o, b.idx, sub(s_len(o), b.idx))))
                return Iter(obj, a.idx)
            pos = A[0] if A else 0
            cnt = A[1] if len(A) > 1 else NPOS
            ln = s_len(o)
            if self.branch(lt(ln, pos)):
                self.throw('std::out_of_range')
            if isinstance(cnt, int) and cnt == NPOS:
                self.write(obj, s_sub(o, 0, pos))
            else:
                self.write(obj, s_cat(s_sub(o, 0, pos), s_sub(o, add(pos, cnt), ln)))
            return obj
        if name == 'insert':
            if isinstance(A[0], Iter):
                raise Unsupported('string insert by iterator')
            pos, s = A[0], self.as_str(A[1]) if len(A) == 2 else fill(A[1], self.as_str(A[2]))
            if self.branch(lt(s_len(o), pos)):
                self.throw('std::out_of_range')
            self.write(obj, s_cat(s_sub(o, 0, pos), s, s_sub(o, pos, sub(s_len(o), pos))))
            return obj
        if name == 'replace':
            if len(A) != 3 or isinstance(A[0], Iter):
                raise Unsupported('replace')
            pos, cnt, s = A[0], A[1], self.as_str(A[2])
            if self.branch(lt(s_len(o), pos)):
                self.throw('std::out_of_range')
            self.write(obj, s_cat(s_sub(o, 0, pos), s, s_sub(o, add(pos, cnt), s_len(o))))
            return obj
        if name == 'remove_prefix':
            self.safety('remove_prefix within the view', le(A[0], s_len(o)))
            self.write(obj, s_sub(o, A[0], sub(s_len(o), A[0])))
            return None
        if name == 'resize':
            k = A[0]
            x = self.as_str(A[1]) if len(A) > 1 else '\0'
            if isinstance(k, int) and k == 1:
                self.write(obj, s_at(o, 0) if self.branch(lt(0, s_len(o))) else x)
                return None
            if self.branch(le(k, s_len(o))):
                self.write(obj, s_sub(o, 0, k))
            else:
                self.write(obj, s_cat(o, fill(sub(k, s_len(o)), x)))
            return None
        if name == 'swap':
            b = A[0]
            self.write(obj, b)
            self.write(args[0], o)
            return None
        # std::filesystem::path
        if name == 'filename':
            return PF(zs(o))
        if name == 'has_extension':
            f = PF(zs(o))
            return z3.And(f != '..', z3.Contains(z3.SubString(f, 1, z3.Length(f)), '.'))
        raise Unsupported('string method ' + name)

    def is_single(self, t):
        if isinstance(t, str):
            return len(t) == 1
        return self.known(eq(s_len(t), 1))

    def find_set(self, o, t, start):
        if not isinstance(t, str):
            raise Unsupported('find_first_of')
        if not (isinstance(start, int) and start == 0):
            raise Unsupported('find_first_of with position')
        h = self.libover.get('find_first_of')
        if h:
            return h(self, o, t)
        anyc = b_or(*[s_contains(o, ch) for ch in t])
        if self.branch(anyc):
            r = self.fresh('ffo', I)
            self.assume(z3.And(r >= 0, r < zi(s_len(o))))
            self.assume(b_or(*[eq(s_at(o, r), ch) for ch in t]))
            for ch in t:
                self.assume(b_not(s_contains(s_sub(o, 0, r), ch)))
            return r
        return NPOS


def split_targs(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<(':
            d += 1
        elif ch in '>)':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    out.append(cur.strip())
    return out
