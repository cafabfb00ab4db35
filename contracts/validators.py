"""Contracts of the validators (C15)."""
import z3
from cxv.vals import *
from cxv.spec import Spec, spec, REG
from contracts.parse import is_list, sel, veq

VERR = 'sharg::validation_error'
V = 'sharg::'


def is_fp(x):
    return isinstance(x, z3.FPRef)


def common(a, b):
    """numbers of two types: nothing is narrowed (integers of up to 32 bits are exact in double)"""
    if (is_fp(a) or is_fp(b)) and not (is_fp(a) and is_fp(b) and a.sort() == b.sort()):
        up = lambda x: x if is_fp(x) and x.sort() == F64 else z3.fpFPToFP(z3.RNE(), x, F64) if is_fp(x) else z3.fpRealToFP(z3.RNE(), z3.ToReal(zi(x)), F64)
        return up(a), up(b)
    return a, b


def num_le(a, b):
    """mathematical order; nothing compares with NaN"""
    a, b = common(a, b)
    if is_fp(a) or is_fp(b):
        return z3.fpLEQ(a, b)
    return le(a, b)


def num_eq(a, b):
    a, b = common(a, b)
    if is_fp(a) or is_fp(b):
        return z3.fpEQ(a, b)
    return eq(a, b)


def accepted_before(pred):
    """loop invariant: every element left of the cursor is accepted"""
    def t(ctx):
        ex = ctx.ex
        C = getattr(ex, 'cur_call', None)
        if C is None or not C.args or not isinstance(C.args[0], Loc) or not isinstance(C.old(C.args[0]), Vec):
            return
        v = C.oldarg(0)
        ok = lambda n: All(0, n, lambda j: pred(C, ex.elem_at(v, j)))
        for l in ctx.mods:
            x = ex.load(l)
            if isinstance(x, Iter) and x.loc.key() == C.args[0].key():
                yield 'accepted so far', lambda c, l=l: ok(c.cur(l).idx)
            elif isinstance(x, (int, z3.ArithRef)) and not isinstance(x, bool):
                yield 'accepted so far', lambda c, l=l: ok(c.cur(l))
                yield 'index in range', lambda c, l=l: b_and(le(0, c.cur(l)), le(c.cur(l), v.len))
    return t


class decides(Spec):
    """operator(): accepts exactly the values that satisfy ok(); rejection is a validation error"""
    throws = (VERR,)

    def accept(self, prog, fn):
        return len(fn['params']) == 1 and bool(fn.get('body'))

    def elem_ok(self, C, x):
        raise NotImplementedError

    def all_ok(self, C, v):
        return All(0, v.len, lambda j: self.elem_ok(C, C.ex.elem_at(v, j)))

    def ensures(self, C):
        ex = C.ex
        v = C.oldarg(0)
        lst = isinstance(v, Vec)
        yield 'the value is not modified', ex.same(v, C.newarg(0))
        yield 'the validator is not modified', ex.same(C.old(C.this), C.new(C.this))
        if C.returned:
            yield 'accepts only what it should', self.all_ok(C, v) if lst else self.elem_ok(C, v)
            return
        yield 'rejection is a validation error', C.threw(VERR)
        if lst:
            if C.applied:
                w = ex.fresh('rejected', I)
                ex.reg_idx(w)
                yield '', b_and(le(0, w), lt(w, v.len), b_not(self.elem_ok(C, ex.elem_at(v, w))))
            else:
                yield 'rejects only if an element is not acceptable', b_or(*[b_and(le(0, j), lt(j, v.len), b_not(self.elem_ok(C, ex.elem_at(v, j)))) for j in list(ex.idx_terms)])
        else:
            yield 'rejects only what it should', b_not(self.elem_ok(C, v))


@spec
class range_validator(decides):
    name = 'range_validator'
    q = V + 'arithmetic_range_validator::operator()'

    def elem_ok(self, C, x):
        lo, hi = C.old(C.f('min')), C.old(C.f('max'))
        return b_and(num_le(lo, x), num_le(x, hi))

    templates = (accepted_before(lambda C, x: REG.specs['range_validator'].elem_ok(C, x)),)


def member(ex, v, x):
    """x is in v, for goals: some known index"""
    return b_or(*[b_and(le(0, j), lt(j, v.len), num_eq(ex.elem_at(v, j), x)) for j in list(ex.idx_terms)])


MEMBER = {}


def in_values(C, x):
    """the (uninterpreted) membership of x in the validator's list"""
    srt = x.sort() if is_z3(x) else z3.StringSort() if isinstance(x, str) else I
    f = z3.Function('in_list_%s' % srt.name().replace(' ', ''), srt, B)
    return f(lift(x))


@spec
class list_validator(decides):
    """membership is introduced as a function In with both directions as facts; operator() decides it"""
    name = 'list_validator'
    q = V + 'value_list_validator::operator()'

    def elem_ok(self, C, x):
        return in_values(C, x)

    def prologue(self, C):
        """definition of In: every listed value is in; what is in is listed (witness pos)"""
        ex = C.ex
        vals = C.old(C.f('values'))
        v = C.oldarg(0)

        def defn(x):
            """for one value: In(x) holds exactly if some listed value equals x"""
            srt = lift(x).sort()
            k = z3.Function('pos_in_list_%s' % srt.name(), srt, I)(lift(x))
            ex.reg_idx(k)
            ts = [t for t in ex.idx_dependent()]
            return b_and(b_imp(in_values(C, x), b_and(le(0, k), lt(k, vals.len), num_eq(ex.elem_at(vals, k), x))),
                         *[b_imp(b_and(le(0, t), lt(t, vals.len), num_eq(ex.elem_at(vals, t), x)), in_values(C, x)) for t in ts])
        xs = [v] if not isinstance(v, Vec) else None
        if xs:
            x = v
            ex.assume(All(0, vals.len, lambda j: b_imp(num_eq(ex.elem_at(vals, j), x), in_values(C, x))))
            ex.assume(defn(x))
        else:
            ex.assume(All(0, v.len, lambda j: defn(ex.elem_at(v, j)), only=lambda t: 'pos_in_list' not in str(t)))
            ex.assume(All(0, vals.len, lambda j: b_and(*[b_imp(b_and(le(0, t), lt(t, v.len), num_eq(ex.elem_at(vals, j), ex.elem_at(v, t))), in_values(C, ex.elem_at(v, t)))
                                                         for t in ex.idx_dependent() if 'pos_in_list' not in str(t)])))

    templates = (accepted_before(in_values),)


@spec
class regex_validator(decides):
    name = 'regex_validator'
    q = V + 'regex_validator::operator()'

    def elem_ok(self, C, x):
        return C.ex.regex_full(x, C.old(C.f('pattern')))

    templates = (accepted_before(lambda C, x: REG.specs['regex_validator'].elem_ok(C, x)),)


class keeps(Spec):
    """constructor: stores what it is given"""

    def accept(self, prog, fn):
        return bool(fn.get('body')) and fn['params'] and not any(bare(p['type']) == bare(fn.get('cls') or '') for p in fn['params'])


@spec
class range_ctor(keeps):
    name = 'range_validator_ctor'
    q = V + 'arithmetic_range_validator::arithmetic_range_validator'

    def ensures(self, C):
        yield 'returns', C.returned
        yield 'the minimum is the first argument', C.ex.same(C.new(C.f('min')), C.oldarg(0))
        yield 'the maximum is the second argument', C.ex.same(C.new(C.f('max')), C.oldarg(1))


@spec
class list_ctor(keeps):
    def sym_arg(self, ex, p):
        if bare(p['type']).startswith('char ('):    # a string literal
            return ex.new_root(('arg', p['name'], p['id']), 'std::string', ex.sym('std::string', 'literal'))
        return super().sym_arg(ex, p)

    name = 'list_validator_ctor'
    q = V + 'value_list_validator::value_list_validator'

    def ensures(self, C):
        ex = C.ex
        yield 'returns', C.returned
        v = C.new(C.f('values'))
        a = C.oldarg(0)
        if isinstance(a, Vec):
            yield 'exactly the given values', eq(v.len, a.len)
            yield 'the given values', All(0, v.len, lambda j: veq(ex.elem_at(v, j), ex.elem_at(a, j)))
        else:
            yield 'exactly the given values', eq(v.len, len(C.args))
            for i in range(len(C.args)):
                x = C.oldarg(i)
                yield 'value %d' % i, eq(ex.elem_at(v, i), ex.as_str(x) if ex.sort_of(v.et) == S else x)


@spec
class regex_ctor(keeps):
    name = 'regex_validator_ctor'
    q = V + 'regex_validator::regex_validator'

    def ensures(self, C):
        yield 'returns', C.returned
        yield 'the pattern is the given one', eq(C.new(C.f('pattern')), C.oldarg(0))


@spec
class default_validator(Spec):
    name = 'default_validator'
    q = V + 'detail::default_validator::operator()'

    def ensures(self, C):
        yield 'accepts everything', C.returned
        yield 'the value is not modified', C.ex.same(C.oldarg(0), C.newarg(0))


@spec
class chain(Spec):
    """the parts are asked from left to right; what they throw surfaces, nothing else is thrown"""
    name = 'validator_chain'
    q = V + 'detail::validator_chain_adaptor::operator()'

    def accept(self, prog, fn):
        return 'vp::any_validator, vp::second_validator' in fn['cls']

    def proof_env(self, ex, fn):
        from contracts.parse import validator_hook

        def log(who):
            return validator_hook(lambda ex, v: ex.ghost.setdefault('asked', []).append((who, v)))
        ex.libover['vp::any_validator::validator_body'] = log(1)
        ex.libover['vp::second_validator::validator_body'] = log(2)

    def ensures(self, C):
        ex = C.ex
        asked = ex.ghost.get('asked', [])
        threw = ex.ghost.get('validator_threw')
        yield 'from left to right, each once', [w for w, _ in asked] in ([1], [1, 2])
        for w, v in asked:
            yield 'part %d is asked about the given value' % w, ex.same(v, C.oldarg(0))
        yield 'the value is not modified', ex.same(C.oldarg(0), C.newarg(0))
        if C.returned:
            yield 'accepts only what both parts accept', len(asked) == 2 and threw is None
        else:
            yield 'rejects only what a part rejects, with its exception', C.out == 'throw' and threw is not None and C.exc.type == threw.type and eq(C.exc.msg, threw.msg)


@spec
class chain_ctor(Spec):
    name = 'validator_chain_ctor'
    q = V + 'detail::validator_chain_adaptor::validator_chain_adaptor'

    def accept(self, prog, fn):
        return len(fn['params']) == 2 and 'vp::' not in fn['cls']

    def ensures(self, C):
        yield 'returns', C.returned
        yield 'the first part', C.ex.same(C.new(C.f('vali1')), C.oldarg(0))
        yield 'the second part', C.ex.same(C.new(C.f('vali2')), C.oldarg(1))


@spec
class chain_op(Spec):
    name = 'validator_chain_operator'
    q = V + 'operator|'

    def accept(self, prog, fn):
        return len(fn['params']) == 2 and 'vp::' not in fn['params'][0]['type']

    def ensures(self, C):
        yield 'returns', C.returned
        r = C.ret
        r = C.ex.load(r) if isinstance(r, Loc) else r
        yield 'the left part comes first', C.ex.same(r.fields['vali1'], C.oldarg(0))
        yield 'the right part comes second', C.ex.same(r.fields['vali2'], C.oldarg(1))
