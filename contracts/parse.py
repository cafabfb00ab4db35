"""Contracts of sharg::detail::format_parse (C01-C09)."""
import z3
from cxv.vals import *
from cxv.spec import Spec, spec, Call
from cxv.lib import MAPHAS, MAPVAL, int_str

FP = 'sharg::detail::format_parse'
VECS = 'std::vector<std::string, std::allocator<std::string>>'
OK, ERR, OVF = 0, 1, 2


def is_short(t):
    return bare(t) == 'char'


def full_id(idv, short):
    return s_cat('-' if short else '--', idv)


def id_empty(idv, short):
    return eq(idv, '\0') if short else eq(idv, '')


def matches(a, idv, short):
    """an argument that spells the identifier"""
    full = full_id(idv, short)
    if short:
        return b_and(b_not(id_empty(idv, short)), s_prefix(full, a))
    n = s_len(full)
    return b_and(b_not(id_empty(idv, short)), s_prefix(full, a), b_or(eq(s_len(a), n), eq(s_at(a, n), '=')))


def parse_state(ex, tag=''):
    """a format_parse object with symbolic arguments and end of options"""
    this = ex.new_root(('this',), FP, ex.sym(FP, 'this'))
    E = ex.fresh('E', I)
    v = ex.load(this.f('arguments'))
    ex.assume(z3.And(E >= 0, E <= v.len))
    ex.write(this.f('end_of_options_it'), Iter(this.f('arguments'), E))
    return this


def std_args(spec, ex, fn, special=None):
    out = []
    for p in fn['params']:
        if special and p['name'] in special:
            out.append(special[p['name']])
        else:
            out.append(spec.sym_arg(ex, p))
    return out


@spec
class find_option_id(Spec):
    name = 'find_option_id'
    q = FP + '::find_option_id'

    def setup(self, ex, fn):
        vec = ex.new_root(('args',), VECS, ex.sym(VECS, 'args'))
        b, e = ex.fresh('b', I), ex.fresh('e', I)
        v = ex.load(vec)
        ex.assume(z3.And(b >= 0, b <= e, e <= v.len))
        return None, [Iter(vec, b), Iter(vec, e), self.sym_arg(ex, fn['params'][2])]

    def applicable(self, C):
        a, b = C.oldarg(0), C.oldarg(1)
        return isinstance(a, Iter) and isinstance(b, Iter) and isinstance(C.old(a.loc), Vec)

    def requires(self, C):
        a, b = C.oldarg(0), C.oldarg(1)
        return [('valid range', b_and(le(a.idx, b.idx), le(0, a.idx), le(b.idx, C.old(a.loc).len)))]

    def result(self, C):
        return Iter(C.oldarg(0).loc, C.ex.fresh('found', I))

    def ensures(self, C):
        a, b, idv = C.oldarg(0), C.oldarg(1), C.oldarg(2)
        short = is_short(C.ptype(2))
        v = C.old(a.loc)
        yield 'does not throw', C.returned
        if not C.returned:
            return
        r = C.ret
        k = r.idx
        yield 'result lies in the searched range', b_and(le(a.idx, k), le(k, b.idx))
        yield 'empty identifiers never match', b_imp(id_empty(idv, short), eq(k, b.idx))
        yield 'nothing to the left is spelled like the identifier', \
            All(a.idx, k, lambda j: b_not(matches(C.ex.elem_at(v, j), idv, short)))
        if C.applied:
            C.ex.reg_idx(k)
        yield 'the result is spelled like the identifier', b_imp(lt(k, b.idx), matches(C.ex.elem_at(v, k), idv, short))
        yield 'arguments unchanged', C.ex.same(C.new(a.loc), v)


# ---------------------------------------------------------------- conversion
NUM = tuple(t for t in INT_TYPES if t != 'char') + ('double', 'float')
FC = {}


def fc(t, text):
    from cxv.engine import Ex
    tt = t.replace(' ', '_')
    srt = F64 if t == 'double' else F32 if t == 'float' else I
    z = zs(text)
    return uf('FC_ec_' + tt, S, I)(z), uf('FC_len_' + tt, S, I)(z), uf('FC_val_' + tt, S, srt)(z)


def conv(t, text):
    """(status, value) that the statement of C09 prescribes for a text; status None: only success or user_input_error"""
    t = bare(t)
    if t in NUM:
        ec, ln, val = fc(t, text)
        st = ite(eq(ec, 34), OVF, ite(b_and(eq(ec, 0), eq(ln, s_len(text))), OK, ERR))
        return st, val
    if t == 'bool':
        tr, fa = b_or(eq(text, '1'), eq(text, 'true')), b_or(eq(text, '0'), eq(text, 'false'))
        return ite(b_or(tr, fa), OK, ERR), tr
    if t in ('std::string', 'std::filesystem::path'):
        return OK, text
    if t == 'vp::color':
        return ite(MAPHAS(zs(text)), OK, ERR), MAPVAL(zs(text))
    if t == 'vp::custom':
        z = zs(text)
        return ite(b_and(uf('istream_ok', S, B)(z), uf('istream_eof', S, B)(z)), OK, ERR), uf('istream_val_vp::custom', S, usort('custom'))(z)
    raise Unsupported('conversion to ' + t)


def is_list(t):
    return bare(t).startswith('std::vector<') or bare(t).startswith('std::list<')


def elem(ex, t):
    return ex.elem_type(t) if is_list(t) else bare(t)


def good(ex, t, text):
    return eq(conv(elem(ex, t), text)[0], OK)


def same_value(ex, t, a, b):
    if ex.same(a, b):
        return True
    if isinstance(a, Vec) and isinstance(b, Vec):
        return [eq(a.len, b.len), All(0, a.len, lambda j: veq(ex.vec_get(a, j), ex.vec_get(b, j)))]
    return veq(a, b)


def veq(a, b):
    """identity of values (floating point: same bits, so == of the terms)"""
    la, lb = lift(a), lift(b)
    if z3.is_fp(la):
        return la == lb
    return eq(a, b)


def pushed(ex, v0, v1, val):
    """v1 == v0 ++ [val]"""
    return [eq(v1.len, add(v0.len, 1)), veq(ex.vec_get(v1, v0.len), val),
            All(0, v0.len, lambda j: veq(ex.vec_get(v1, j), ex.vec_get(v0, j)))]


@spec
class parse_option_value(Spec):
    name = 'parse_option_value'
    q = FP + '::parse_option_value'
    throws = ('sharg::user_input_error',)
    budget = 120

    def accept(self, prog, fn):
        return len(fn['params']) == 2 and fn['params'][1]['name'] == 'in'

    @property
    def uses(self):
        return ()

    def setup(self, ex, fn):
        return parse_state(ex), std_args(self, ex, fn)

    def effects(self, C):
        ex, l = C.ex, C.args[0]
        ex.write(l, ex.havoc(ex.load(l), C.ptype(0), 'value'))

    def result(self, C):
        r = C.ex.fresh('status', I)
        return r

    def ensures(self, C):
        ex = C.ex
        t, text = C.ptype(0), C.oldarg(1)
        v0, v1 = C.oldarg(0), C.newarg(0)
        e = elem(ex, t)
        st, val = conv(e, text)
        yield 'only user input errors are thrown', b_or(C.returned, C.threw('sharg::user_input_error'))
        if C.threw():
            yield 'rejected exactly when the text is no value of the type', b_not(eq(st, OK))
            if is_list(t):
                yield 'a rejected value is not stored', same_value(ex, t, v0, v1)
        else:
            yield 'the result states whether the whole text is a value of the type', eq(C.ret, st)
            if e == 'vp::color':
                yield 'unregistered names are never accepted', eq(st, OK)
            if is_list(t):
                p = pushed(ex, v0, v1, val)
                ok = eq(st, OK)
                yield 'a converted element is appended (length)', b_imp(ok, p[0])
                yield 'a converted element is appended (value)', b_imp(ok, p[1])
                yield 'earlier elements stay', All(0, v0.len, lambda j: veq(ex.vec_get(v1, j), ex.vec_get(v0, j)))
                yield 'a rejected value is not stored', b_imp(b_not(ok), eq(v1.len, v0.len))
                if C.applied:
                    ex.reg_idx(v0.len)
            else:
                yield 'the value is delivered exactly', b_imp(eq(st, OK), veq(v1, val))
        if not C.applied:
            yield 'the arguments are not touched', ex.same(C.old(C.f('arguments')), C.new(C.f('arguments')))


@spec
class throw_on_input_error(Spec):
    name = 'throw_on_input_error'
    q = FP + '::throw_on_input_error'
    throws = ('sharg::user_input_error',)

    def requires(self, C):
        t = self.otype(C.fn)
        e = elem(C.ex, t)
        if e in NUM:
            return [('status', b_or(*[eq(C.oldarg(0), x) for x in (OK, ERR, OVF)]))]
        return [('status', b_or(*[eq(C.oldarg(0), x) for x in (OK, ERR)]))]

    def otype(self, fn):
        return bare(fn['targs'][0])

    def setup(self, ex, fn):
        return parse_state(ex), std_args(self, ex, fn)

    def ensures(self, C):
        st = C.oldarg(0)
        yield 'rejections are user input errors', b_or(C.returned, C.threw('sharg::user_input_error'))
        yield 'returns exactly for converted values', eq(st, OK) if C.returned else b_not(eq(st, OK))
        if C.threw():
            yield 'the error names the option', s_contains(C.exc.msg, C.oldarg(1))


@spec
class identify_and_retrieve(Spec):
    """C02: which text is handed over, which arguments are consumed"""
    name = 'identify_and_retrieve'
    q = FP + '::identify_and_retrieve_option_value'
    throws = ('sharg::too_few_arguments', 'sharg::user_input_error')
    uses = ('parse_option_value', 'throw_on_input_error')

    def setup(self, ex, fn):
        this = parse_state(ex)
        i = ex.fresh('i', I)
        E = ex.load(this.f('end_of_options_it')).idx
        ex.assume(z3.And(i >= 0, i <= E))
        it = ex.new_root(('it',), '__it', Iter(this.f('arguments'), i))
        a = []
        for p in fn['params']:
            a.append(it if p['name'] == 'option_it' else self.sym_arg(ex, p))
        ex.reg_idx(i)
        return this, a

    def applicable(self, C):
        a = C.oldarg(1)
        return isinstance(a, Iter) and a.loc.key() == C.f('arguments').key()

    def requires(self, C):
        i, E = C.oldarg(1).idx, C.old(C.f('end_of_options_it')).idx
        v = C.old(C.f('arguments'))
        short = is_short(C.ptype(2))
        return [('cursor inside the options', b_and(le(0, i), le(i, E), le(E, v.len))),
                ('cursor at a spelling of the option', b_imp(lt(i, E), matches(C.ex.elem_at(v, i), C.oldarg(2), short)))]

    def effects(self, C):
        ex = C.ex
        ex.write(C.args[0], ex.havoc(C.oldarg(0), C.ptype(0), 'value'))
        v = C.old(C.f('arguments'))
        ex.write(C.f('arguments'), Vec(v.et, ex.fresh('args', v.arr.sort()), v.len))
        ex.write(C.args[1], Iter(C.oldarg(1).loc, ex.fresh('it', I)))

    def result(self, C):
        return C.ex.fresh('seen', B)

    def ensures(self, C):
        ex = C.ex
        short = is_short(C.ptype(2))
        args = C.f('arguments')
        A, A1 = C.old(args), C.new(args)
        E = C.old(C.f('end_of_options_it')).idx
        i, i1 = C.oldarg(1).idx, C.newarg(1).idx
        idv = C.oldarg(2)
        full = full_id(idv, short)
        n = s_len(full)
        t = C.ptype(0)
        a = ex.elem_at(A, i)
        here = lt(i, E)
        sep = eq(s_len(a), n)
        eqs = b_and(lt(n, s_len(a)), eq(s_at(a, n), '='))
        missing = b_or(b_and(sep, le(E, add(i, 1))), b_and(eqs, eq(s_len(a), add(n, 1))))
        nxt = ex.elem_at(A, add(i, 1))
        text = ite(sep, nxt, ite(eqs, s_sub(a, add(n, 1), s_len(a)), s_sub(a, n, s_len(a))))
        C.x['text'], C.x['sep'] = text, sep
        v0, v1 = C.oldarg(0), C.newarg(0)
        if not C.applied:
            yield 'end of options and number of arguments unchanged', b_and(eq(C.new(C.f('end_of_options_it')).idx, E), eq(A1.len, A.len))
        if C.threw():
            yield 'C02 throws only when an option is there', here
            if ex.prog.is_a(C.exc.type, 'sharg::too_few_arguments'):
                yield 'C02 too few arguments only when the value is missing', missing
            else:
                yield 'C02 otherwise only unconvertible values are rejected', b_and(C.threw('sharg::user_input_error'), b_not(missing), b_not(good(ex, t, text)))
            return
        yield 'C02 returns normally', C.returned
        yield 'result', eq(C.ret, here)
        yield 'no option: nothing happens', b_imp(b_not(here), eq(i1, i))
        yield 'C02 a missing value is rejected', b_imp(here, b_not(missing))
        yield 'C02 an unconvertible value is rejected', b_imp(here, good(ex, t, text))
        e = elem(ex, t)
        val = conv(e, text)[1]
        if is_list(t):
            p = pushed(ex, v0, v1, val)
            yield 'C02 the value is the text behind the identifier (length)', b_imp(here, p[0])
            yield 'C02 the value is the text behind the identifier', b_imp(here, p[1])
            yield 'earlier elements stay', All(0, v0.len, lambda j: veq(ex.vec_get(v1, j), ex.vec_get(v0, j)))
            yield 'no option: value unchanged', b_imp(b_not(here), eq(v1.len, v0.len))
        else:
            yield 'C02 the value is the text behind the identifier', b_imp(here, veq(v1, val))
            yield 'no option: value unchanged', b_imp(b_not(here), veq(v1, v0))
        yield 'C02 cursor at the last consumed argument', b_imp(here, eq(i1, ite(sep, add(i, 1), i)))
        consumed = lambda j: b_and(here, b_or(eq(j, i), b_and(sep, eq(j, add(i, 1)))))
        yield 'C02 exactly the spelling arguments are consumed', \
            All(0, A.len, lambda j: eq(ex.elem_at(A1, j), ite(consumed(j), '', ex.elem_at(A, j))))
        if C.applied:
            ex.reg_idx(i)
            ex.reg_idx(add(i, 1))
            ex.reg_idx(i1)


# ---------------------------------------------------------------- options
G_POS, G_TEXT, G_CONS = Loc(('gPOS',)), Loc(('gTEXT',)), Loc(('gCONS',))


def text_of(ex, A, i, idv, short, gone=None):
    """the value text of the occurrence at i, and whether it is the next argument"""
    a = ex.elem_at(A, i)
    nxt = ex.elem_at(A, add(i, 1))
    if gone is not None:
        nxt = ite(gone(add(i, 1)), '', nxt)
    n = s_len(full_id(idv, short))
    sep = eq(s_len(a), n)
    eqs = b_and(lt(n, s_len(a)), eq(s_at(a, n), '='))
    return ite(sep, nxt, ite(eqs, s_sub(a, add(n, 1), s_len(a)), s_sub(a, n, s_len(a)))), sep


def sel(ex, v, j):
    return ex.vec_get(v, j)


def track_consumption(spec, C):
    """ghost bookkeeping at a call of identify_and_retrieve (proofs of the functions that call it)"""
    ex = C.ex
    if G_POS.root not in ex.store or not C.returned:
        return
    i = C.oldarg(1).idx
    E = C.old(C.f('end_of_options_it')).idx
    if not ex.known(lt(i, E)):
        return
    pos, txt, cons = ex.load(G_POS), ex.load(G_TEXT), ex.load(G_CONS)
    ex.write(G_POS, ex.vec_push(pos, i))
    ex.write(G_TEXT, ex.vec_push(txt, C.x['text']))
    arr = z3.Store(cons.arr, zi(i), z3.BoolVal(True))
    arr = z3.Store(arr, zi(add(i, 1)), z3.Or(zb(C.x['sep']), z3.Select(cons.arr, zi(add(i, 1)))))
    ex.write(G_CONS, Vec('bool', arr, cons.len))
    ex.reg_idx(pos.len)


from cxv.spec import REG
REG.specs['identify_and_retrieve'].after_apply = lambda C: track_consumption(None, C)


def ghost_init(C):
    ex = C.ex
    n = C.old(C.f('arguments')).len
    ex.new_root(G_POS.root, 'std::vector<int>', Vec('int', z3.K(I, z3.IntVal(0)), 0))
    ex.new_root(G_TEXT.root, 'std::vector<std::string>', Vec('std::string', z3.K(I, z3.StringVal('')), 0))
    ex.new_root(G_CONS.root, 'std::vector<bool>', Vec('bool', z3.K(I, z3.BoolVal(False)), n))


def list_loop(ctx):
    """invariants of the loop that collects the occurrences of a list option"""
    ex = ctx.ex
    C = getattr(ex, 'cur_call', None)
    if C is None or G_POS.key() not in ctx.info.mod:
        return
    args = C.f('arguments')
    A = C.old(args)
    short = is_short(C.ptype(1))
    idv = C.oldarg(1)
    t = C.ptype(0)
    E = C.old(C.f('end_of_options_it')).idx
    vl = C.args[0]
    v0 = C.old(vl)
    cur = None
    for l in ctx.mods:
        v = ex.load(l)
        if isinstance(v, Iter) and v.loc.key() == args.key():
            cur = l
    pos = lambda: ex.load(G_POS)
    cons = lambda j: zb(z3.Select(ex.load(G_CONS).arr, zi(j)))
    yield 'ghost lengths', lambda c: [eq(pos().len, ex.load(G_TEXT).len), eq(ex.load(vl).len, add(v0.len, pos().len)), le(0, pos().len)]
    yield 'arguments keep their number', lambda c: [eq(ex.load(args).len, A.len), eq(ex.load(C.f('end_of_options_it')).idx, E)]
    yield 'earlier elements stay', lambda c: All(0, v0.len, lambda j: veq(sel(ex, ex.load(vl), j), sel(ex, v0, j)))
    yield 'values are the converted texts', lambda c: All(0, pos().len, lambda j: ex.hint(add(v0.len, j)) and [
        eq(conv(elem(ex, t), sel(ex, ex.load(G_TEXT), j))[0], OK),
        veq(sel(ex, ex.load(vl), add(v0.len, j)), conv(elem(ex, t), sel(ex, ex.load(G_TEXT), j))[1])])
    yield 'texts belong to the occurrences', lambda c: All(0, pos().len, lambda j: [
        b_and(le(0, sel(ex, pos(), j)), lt(sel(ex, pos(), j), E)),
        matches(ex.elem_at(A, sel(ex, pos(), j)), idv, short),
        eq(sel(ex, ex.load(G_TEXT), j), text_of(ex, A, sel(ex, pos(), j), idv, short)[0])])
    yield 'occurrences in order', lambda c: All(0, sub(pos().len, 1), lambda j: lt(sel(ex, pos(), j), sel(ex, pos(), add(j, 1))))
    yield 'exactly the consumed arguments are blank', lambda c: All(0, A.len, lambda j: eq(ex.elem_at(ex.load(args), j), ite(cons(j), '', ex.elem_at(A, j))))
    yield 'nothing is consumed behind the options', lambda c: All(E, A.len, lambda j: b_not(cons(j)))
    yield 'consumed only by an occurrence', lambda c: All(0, A.len, lambda j: b_imp(cons(j), lt(0, pos().len)))
    if cur is not None:
        ci = lambda: ex.load(cur).idx
        yield 'cursor in the options', lambda c: [le(0, ci()), le(ci(), E)]
        yield 'nothing behind the cursor is consumed', lambda c: All(0, A.len, lambda j: b_imp(lt(ci(), j), b_not(cons(j))))
        for nm, ty, l in ctx.locals():
            if ty == 'bool' and l.key() not in ctx.info.mod:
                yield 'occurrence flag %s' % (nm,), lambda c, l=l: b_iff(zb(ex.load(l)), b_or(lt(0, pos().len), lt(ci(), E)))
        yield 'cursor is at an unconsumed spelling', lambda c: b_imp(lt(ci(), E), b_and(b_not(cons(ci())), matches(ex.elem_at(A, ci()), idv, short)))
        yield 'cursor is behind the last occurrence', lambda c: b_imp(lt(0, pos().len), lt(sel(ex, pos(), sub(pos().len, 1)), ci()))
        yield 'no unconsumed spelling before the cursor', lambda c: All(0, ci(), lambda j: b_or(cons(j), b_not(matches(ex.elem_at(A, j), idv, short))))

        def hook(c):
            ex.reg_idx(ci())
            ex.reg_idx(add(ci(), 1))
            ex.reg_idx(sub(pos().len, 1))
            ex.reg_idx(pos().len)
        yield 'terms', lambda c: (hook(c), True)[1]


@spec
class get_option_by_id_single(Spec):
    """C03: one occurrence is converted, two are rejected, none changes nothing"""
    name = 'get_option_by_id'
    q = FP + '::get_option_by_id'
    throws = ('sharg::too_few_arguments', 'sharg::user_input_error', 'sharg::option_declared_multiple_times')
    uses = ('find_option_id', 'identify_and_retrieve')

    def accept(self, prog, fn):
        return not is_list(fn['params'][0]['type'])

    def setup(self, ex, fn):
        return parse_state(ex), std_args(self, ex, fn)

    def requires(self, C):
        return [('options end inside the arguments', b_and(le(0, C.old(C.f('end_of_options_it')).idx), le(C.old(C.f('end_of_options_it')).idx, C.old(C.f('arguments')).len)))]

    def effects(self, C):
        ex = C.ex
        ex.write(C.args[0], ex.havoc(C.oldarg(0), C.ptype(0), 'value'))
        v = C.old(C.f('arguments'))
        ex.write(C.f('arguments'), Vec(v.et, ex.fresh('args', v.arr.sort()), v.len))

    def result(self, C):
        return C.ex.fresh('seen', B)

    def ensures(self, C):
        ex = C.ex
        short = is_short(C.ptype(1))
        args = C.f('arguments')
        A, A1 = C.old(args), C.new(args)
        E = C.old(C.f('end_of_options_it')).idx
        idv = C.oldarg(1)
        t = C.ptype(0)
        m = lambda j: matches(ex.elem_at(A, j), idv, short)
        v0, v1 = C.oldarg(0), C.newarg(0)
        if not C.applied:
            yield 'number of arguments unchanged', b_and(eq(C.new(C.f('end_of_options_it')).idx, E), eq(A1.len, A.len))
            # the leftmost occurrence, defined independently of the code
            k = ex.fresh('first', I)
            ex.assume([le(0, k), le(k, E)])
            ex.assume(All(0, k, lambda j: b_not(m(j))))
            ex.reg_idx(k)
            ex.reg_idx(add(k, 1))
            ex.assume(b_imp(lt(k, E), m(k)))
            for r in list(ex.idx_terms):
                if not isinstance(r, int):
                    pass
        else:
            k = ex.fresh('first', I)
            ex.assume([le(0, k), le(k, E)])
            ex.assume(All(0, k, lambda j: b_not(m(j))))
            ex.assume(b_imp(lt(k, E), m(k)))
            ex.reg_idx(k)
            ex.reg_idx(add(k, 1))
        C.x['k'] = k
        here = lt(k, E)
        text, sep = text_of(ex, A, k, idv, short)
        C.x['text'] = text
        missing = b_or(b_and(sep, le(E, add(k, 1))), b_and(b_not(sep), eq(text, ''), eq(s_at(ex.elem_at(A, k), s_len(full_id(idv, short))), '=')))
        consumed = lambda j: b_and(here, b_or(eq(j, k), b_and(sep, eq(j, add(k, 1)))))
        rest = lambda j: b_and(lt(j, E), b_not(consumed(j)), matches(ex.elem_at(A, j), idv, short))
        if C.threw():
            yield 'an absent option is no error', here
            if ex.prog.is_a(C.exc.type, 'sharg::too_few_arguments'):
                yield 'too few arguments only when the value is missing', missing
            elif ex.prog.is_a(C.exc.type, 'sharg::option_declared_multiple_times'):
                w = ex.fresh('second', I)
                C.x['second'] = w
                if C.applied:
                    ex.assume([le(0, w), rest(w)])
                    ex.reg_idx(w)
                else:
                    # some argument that is not consumed spells the option again
                    yield 'rejected as duplicate only when it occurs again', self.exists_rest(C, rest)
            else:
                yield 'otherwise only unconvertible values are rejected', b_and(C.threw('sharg::user_input_error'), b_not(missing), b_not(good(ex, t, text)))
            return
        yield 'returns normally', C.returned
        yield 'reports whether the option occurs', eq(C.ret, here)
        yield 'the value is the converted text of the occurrence', b_imp(here, b_and(b_not(missing), good(ex, t, text), veq(v1, conv(t, text)[1])))
        yield 'an absent option keeps its value', b_imp(b_not(here), veq(v1, v0))
        yield 'exactly the occurrence is consumed', All(0, A.len, lambda j: eq(ex.elem_at(A1, j), ite(consumed(j), '', ex.elem_at(A, j))))
        yield 'a second occurrence is never accepted', All(0, E, lambda j: b_not(rest(j)))

    def exists_rest(self, C, rest):
        """witness: one of the indices the path looked at"""
        ex = C.ex
        return b_or(*[b_and(le(0, r), rest(r)) for r in ex.idx_terms])


@spec
class get_option_by_id_list(Spec):
    """C04: every occurrence in order, nothing else"""
    name = 'get_option_by_id_list'
    q = FP + '::get_option_by_id'
    throws = ('sharg::too_few_arguments', 'sharg::user_input_error')
    uses = ('find_option_id', 'identify_and_retrieve')
    templates = (list_loop,)

    def accept(self, prog, fn):
        return is_list(fn['params'][0]['type'])

    setup = get_option_by_id_single.setup
    requires = get_option_by_id_single.requires
    effects = get_option_by_id_single.effects
    result = get_option_by_id_single.result

    def prologue(self, C):
        ghost_init(C)

    def ghosts(self, C):
        """the witnesses: position and text of each occurrence, consumed arguments"""
        ex = C.ex
        if not C.applied:
            return ex.load(G_POS), ex.load(G_TEXT), ex.load(G_CONS)
        n = ex.fresh('occ', I)
        ex.assume(n >= 0)
        mk = lambda nm, et: Vec(et, ex.fresh(nm, z3.ArraySort(I, ex.sort_of(et))), n)
        return mk('gpos', 'int'), mk('gtext', 'std::string'), mk('gcons', 'bool')

    def ensures(self, C):
        ex = C.ex
        short = is_short(C.ptype(1))
        args = C.f('arguments')
        A, A1 = C.old(args), C.new(args)
        E = C.old(C.f('end_of_options_it')).idx
        idv = C.oldarg(1)
        t = C.ptype(0)
        v0, v1 = C.oldarg(0), C.newarg(0)
        m = lambda j: matches(ex.elem_at(A, j), idv, short)
        if C.threw():
            if ex.prog.is_a(C.exc.type, 'sharg::too_few_arguments'):
                return
            yield 'only unconvertible values are rejected', C.threw('sharg::user_input_error')
            return
        P, T, K = self.ghosts(C)
        C.x.update(P=P, T=T, K=K)
        cons = lambda j: zb(z3.Select(K.arr, zi(j)))
        if not C.applied:
            yield 'number of arguments unchanged', b_and(eq(C.new(C.f('end_of_options_it')).idx, E), eq(A1.len, A.len))
        yield 'returns normally', C.returned
        yield 'reports whether the option occurs', eq(C.ret, lt(0, P.len))
        yield 'one element per occurrence is appended', eq(v1.len, add(v0.len, P.len))
        yield 'earlier elements stay', All(0, v0.len, lambda j: veq(sel(ex, v1, j), sel(ex, v0, j)))
        yield 'the elements are the converted texts in command line order', All(0, P.len, lambda j: ex.hint(add(v0.len, j)) and [
            b_and(le(0, sel(ex, P, j)), lt(sel(ex, P, j), E)), m(sel(ex, P, j)),
            eq(sel(ex, T, j), text_of(ex, A, sel(ex, P, j), idv, short)[0]),
            eq(conv(elem(ex, t), sel(ex, T, j))[0], OK),
            veq(sel(ex, v1, add(v0.len, j)), conv(elem(ex, t), sel(ex, T, j))[1])])
        yield 'in the order of the command line', All(0, sub(P.len, 1), lambda j: lt(sel(ex, P, j), sel(ex, P, add(j, 1))))
        yield 'exactly the occurrences are consumed', All(0, A.len, lambda j: eq(ex.elem_at(A1, j), ite(cons(j), '', ex.elem_at(A, j))))
        yield 'no occurrence is left over', All(0, E, lambda j: b_or(cons(j), b_not(m(j))))
        yield 'nothing is consumed behind the options', All(E, A.len, lambda j: b_not(cons(j)))
        yield 'consumed only by an occurrence', All(0, A.len, lambda j: b_imp(cons(j), lt(0, P.len)))
        if C.applied:
            ex.reg_idx(0)
            ex.reg_idx(sel(ex, P, 0))


# ---------------------------------------------------------------- options with validation
G_RANK = Loc(('gRANK',))    # inverse of gPOS
ANYV = 'vp::any_validator'


def validator_hook(log):
    """the most general validator: may accept or throw any exception derived from std::exception"""
    def h(ex, c, args, n):
        p = args[0]
        loc = p.loc if isinstance(p, Ptr) else p
        log(ex, ex.load(loc))
        k = ex.choose(3, 'validator')
        if k == 0:
            return None
        t = ('user::exception', 'sharg::validation_error')[k - 1]
        e = ExcVal(t, ex.fresh('why', S))
        ex.ghost['validator_threw'] = e
        raise CxxThrow(e)
    return h


def log_validation(ex, v):
    ex.ghost.setdefault('validated', []).append(v)


def record_call(ex, spec, C):
    ex.ghost.setdefault('calls', {}).setdefault(spec, []).append(C)


for _n in ('get_option_by_id', 'get_option_by_id_list'):
    REG.specs[_n].after_apply = lambda C, _n=_n: record_call(C.ex, _n, C)


class with_validator(Spec):
    def accept(self, prog, fn):
        return ANYV in fn['params'][1]['type']

    def proof_env(self, ex, fn):
        ex.libover['vp::any_validator::validator_body'] = validator_hook(log_validation)

    def validation(self, C, vloc, ran, final):
        """the validator runs exactly when it should, on the final value, and its exceptions surface"""
        ex = C.ex
        seen = ex.ghost.get('validated', [])
        threw = ex.ghost.get('validator_threw')
        if C.returned:
            yield 'validator exceptions are not swallowed', threw is None
            yield 'the validator runs exactly once if there is a value', b_imp(ran, len(seen) == 1)
            yield 'the validator does not run without a value', b_imp(b_not(ran), len(seen) == 0)
            for v in seen:
                yield 'the final value is validated', same_value(ex, C.ptype(0), v, final)
        elif threw is not None:
            yield 'validator exceptions surface as validation errors', C.threw('sharg::validation_error')
            yield 'validator exceptions: something was validated', ran
            yield 'the message of the validator is kept', s_contains(C.exc.msg, threw.msg)
        else:
            yield 'validation errors come from the validator only', b_not(C.threw('sharg::validation_error'))


def config_of(C):
    c = C.oldarg(1).fields
    return c['short_id'], c['long_id'], c['required']


def no_empty(C):
    """a declared option has an identifier, its short identifier is no dash (verified at registration: C10)"""
    s, l, _ = config_of(C)
    return [('declared identifiers', b_and(b_or(b_not(eq(s, '\0')), b_not(eq(l, ''))), b_not(eq(s, '-'))))]


@spec
class get_option_single(with_validator):
    """C03"""
    name = 'get_option'
    q = FP + '::get_option'
    uses = ('find_option_id', 'get_option_by_id')

    def accept(self, prog, fn):
        return with_validator.accept(self, prog, fn) and not is_list(fn['params'][0]['type'])

    def setup(self, ex, fn):
        return parse_state(ex), std_args(self, ex, fn)

    def requires(self, C):
        return no_empty(C)

    def ensures(self, C):
        ex = C.ex
        s, l, req = config_of(C)
        args = C.f('arguments')
        A = C.old(args)
        E = C.old(C.f('end_of_options_it')).idx
        t = C.ptype(0)
        v0, v1 = C.oldarg(0), C.newarg(0)
        ms = lambda j: matches(ex.elem_at(A, j), s, True)
        ks = ex.fresh('first_short', I)
        ex.assume([le(0, ks), le(ks, E), All(0, ks, lambda j: b_not(ms(j))), b_imp(lt(ks, E), ms(ks))])
        ex.reg_idx(ks)
        ex.reg_idx(add(ks, 1))
        hs = lt(ks, E)
        ts, seps = text_of(ex, A, ks, s, True)
        taken = lambda j: b_and(hs, b_or(eq(j, ks), b_and(seps, eq(j, add(ks, 1)))))
        ml = lambda j: b_and(b_not(taken(j)), matches(ex.elem_at(A, j), l, False))
        kl = ex.fresh('first_long', I)
        ex.assume([le(0, kl), le(kl, E), All(0, kl, lambda j: b_not(ml(j))), b_imp(lt(kl, E), ml(kl))])
        ex.reg_idx(kl)
        ex.reg_idx(add(kl, 1))
        hl = lt(kl, E)
        tl, sepl = text_of(ex, A, kl, l, False, taken)
        takenl = lambda j: b_and(hl, b_or(eq(j, kl), b_and(sepl, eq(j, add(kl, 1)))))
        text = ite(hs, ts, tl)
        is_set = b_or(hs, hl)
        for x in self.validation(C, C.args[0], is_set, v1):
            yield x
        if C.returned:
            yield 'twice by short and long identifier is rejected', b_not(b_and(hs, hl))
            yield 'a given option holds the converted value', b_imp(is_set, b_and(good(ex, t, text), veq(v1, conv(t, text)[1])))
            yield 'an absent option keeps its value', b_imp(b_not(is_set), veq(v1, v0))
            yield 'a required option must be given', b_imp(b_not(is_set), b_not(req))
            A1 = C.new(args)
            yield 'exactly the occurrence is consumed', All(0, A.len, lambda j: eq(ex.elem_at(A1, j), ite(b_or(taken(j), takenl(j)), '', ex.elem_at(A, j))))
            yield 'nothing is consumed behind the options', All(E, A.len, lambda j: eq(ex.elem_at(A1, j), ex.elem_at(A, j)))
            yield 'no further occurrence is accepted', All(0, E, lambda j: b_or(taken(j), takenl(j), b_not(b_or(ms(j), matches(ex.elem_at(A, j), l, False)))))
            return
        yield 'nothing but user errors', b_or(*[C.threw(x) for x in ('sharg::validation_error', 'sharg::required_option_missing', 'sharg::option_declared_multiple_times', 'sharg::too_few_arguments', 'sharg::user_input_error')])
        if ex.ghost.get('validator_threw') is not None:
            yield 'the error names the option', b_or(b_and(b_not(eq(s, '\0')), s_contains(C.exc.msg, s_cat('-', s))), b_and(b_not(eq(l, '')), s_contains(C.exc.msg, s_cat('--', l))))
        elif ex.prog.is_a(C.exc.type, 'sharg::required_option_missing'):
            yield 'missing only when required and absent', b_and(req, b_not(is_set))
        elif ex.prog.is_a(C.exc.type, 'sharg::option_declared_multiple_times'):
            ws = [c.x['second'] for c in ex.ghost.get('calls', {}).get('get_option_by_id', []) if 'second' in c.x]
            again = [b_and(le(0, w), lt(w, E), b_or(b_and(hs, b_not(taken(w)), ms(w)), b_and(hl, b_not(takenl(w)), matches(ex.elem_at(A, w), l, False)))) for w in ws]
            yield 'rejected as duplicate only when given twice', b_or(b_and(hs, hl), *again)
        elif ex.prog.is_a(C.exc.type, 'sharg::too_few_arguments'):
            yield 'too few arguments only for a given option', is_set
        else:
            yield 'only unconvertible values are rejected', b_and(is_set, b_not(b_and(b_imp(hs, good(ex, t, ts)), b_imp(hl, good(ex, t, tl)))))


@spec
class get_option_list(with_validator):
    """C04"""
    name = 'get_option_list'
    q = FP + '::get_option'
    uses = ('find_option_id', 'get_option_by_id_list')

    def accept(self, prog, fn):
        return with_validator.accept(self, prog, fn) and is_list(fn['params'][0]['type'])

    setup = get_option_single.setup
    requires = get_option_single.requires

    def ensures(self, C):
        ex = C.ex
        s, l, req = config_of(C)
        args = C.f('arguments')
        A, A1 = C.old(args), C.new(args)
        E = C.old(C.f('end_of_options_it')).idx
        t = C.ptype(0)
        v0, v1 = C.oldarg(0), C.newarg(0)
        calls = ex.ghost.get('calls', {}).get('get_option_by_id_list', [])
        by = {is_short(c.ptype(1)): c for c in calls}
        if C.returned and (len(calls) != 2 or len(by) != 2):
            raise Unsupported('witnesses of get_option are lost')
        if not C.returned:
            yield 'nothing but user errors', b_or(*[C.threw(x) for x in ('sharg::validation_error', 'sharg::required_option_missing', 'sharg::too_few_arguments', 'sharg::user_input_error')])
            for x in self.validation(C, C.args[0], True, v1):
                yield x
            if ex.ghost.get('validator_threw') is not None:
                yield 'the error names the option', b_or(b_and(b_not(eq(s, '\0')), s_contains(C.exc.msg, s_cat('-', s))), b_and(b_not(eq(l, '')), s_contains(C.exc.msg, s_cat('--', l))))
            elif ex.prog.is_a(C.exc.type, 'sharg::required_option_missing'):
                j0 = ex.fresh('any', I)
                yield 'missing only when required', req
                yield 'missing only when absent', All(0, E, lambda j: b_not(b_or(matches(ex.elem_at(A, j), s, True), matches(ex.elem_at(A, j), l, False))))
            return
        # witnesses: occurrences of the identifier handled first, then of the other one
        (P1, T1, K1), (P2, T2, K2) = [(c.x['P'], c.x['T'], c.x['K']) for c in calls]
        id1, id2 = [(c.oldarg(1), is_short(c.ptype(1))) for c in calls]
        yield 'both identifiers are collected', {id1[1], id2[1]} == {True, False} and all(veq(i[0], s if i[1] else l) is True or ex.same(i[0], s if i[1] else l) for i in (id1, id2))
        n1, n2 = P1.len, P2.len
        k1 = lambda j: zb(z3.Select(K1.arr, zi(j)))
        k2 = lambda j: zb(z3.Select(K2.arr, zi(j)))
        is_set = b_or(lt(0, n1), lt(0, n2))
        base = ite(is_set, 0, v0.len)
        yield 'given: no initial element and one element per occurrence', b_imp(is_set, eq(v1.len, add(n1, n2)))
        yield 'absent: the initial elements', b_imp(b_not(is_set), eq(v1.len, v0.len))
        yield 'absent: the initial elements stay', All(0, v0.len, lambda j: b_imp(b_not(is_set), veq(sel(ex, v1, j), sel(ex, v0, j))))
        yield 'the values of the first identifier in order', All(0, n1, lambda j: [
            b_and(le(0, sel(ex, P1, j)), lt(sel(ex, P1, j), E)), matches(ex.elem_at(A, sel(ex, P1, j)), *id1),
            eq(sel(ex, T1, j), text_of(ex, A, sel(ex, P1, j), *id1)[0]),
            veq(sel(ex, v1, j), conv(elem(ex, t), sel(ex, T1, j))[1])])
        yield 'the values of the second identifier in order', All(0, n2, lambda j: [
            ex.hint(add(n1, j)),
            veq(sel(ex, v1, add(n1, j)), conv(elem(ex, t), sel(ex, T2, j))[1])])
        yield 'positions of the first identifier increase', All(0, sub(n1, 1), lambda j: lt(sel(ex, P1, j), sel(ex, P1, add(j, 1))))
        yield 'positions of the second identifier increase', All(0, sub(n2, 1), lambda j: lt(sel(ex, P2, j), sel(ex, P2, add(j, 1))))
        yield 'all occurrences are consumed', All(0, E, lambda j: b_imp(b_or(matches(ex.elem_at(A, j), s, True), matches(ex.elem_at(A, j), l, False)), b_or(k1(j), k2(j), False)))
        yield 'nothing is consumed behind the options', All(E, A.len, lambda j: eq(ex.elem_at(A1, j), ex.elem_at(A, j)))
        yield 'exactly the occurrences and their values are consumed', All(0, A.len, lambda j: eq(ex.elem_at(A1, j), ite(b_or(k1(j), k2(j)), '', ex.elem_at(A, j))))
        yield 'a required option must be given', b_imp(b_not(is_set), b_not(req))
        for x in self.validation(C, C.args[0], is_set, v1):
            yield x


# ---------------------------------------------------------------- flags
def in_group(a, c):
    """the character occurs in a single-dash group, which has no further dash"""
    return b_and(lt(1, s_len(a)), eq(s_at(a, 0), '-'), lt(z3.IndexOf(zs(a), z3.StringVal('-'), 1), 0), s_contains(a, c))


def no_nul(ex, v, n=None):
    return All(0, v.len if n is None else n, lambda j: b_not(s_contains(ex.elem_at(v, j), '\0')))


def flag_loop(ctx):
    ex = ctx.ex
    C = getattr(ex, 'cur_call', None)
    if C is None or C.fn['q'] != FP + '::flag_is_set':
        return
    args = C.f('arguments')
    A = C.old(args)
    E = C.old(C.f('end_of_options_it')).idx
    for l in ctx.mods:
        v = ex.load(l)
        if isinstance(v, Iter) and v.loc.key() == args.key():
            yield 'no group before the cursor', lambda c, l=l: All(0, ex.load(l).idx, lambda j: b_not(in_group(ex.elem_at(A, j), C.oldarg(0))))
            yield 'cursor in the options', lambda c, l=l: [le(0, ex.load(l).idx), le(ex.load(l).idx, E)]


@spec
class flag_is_set(Spec):
    """C05"""
    name = 'flag_is_set'
    q = FP + '::flag_is_set'
    templates = (flag_loop,)

    def setup(self, ex, fn):
        return parse_state(ex), std_args(self, ex, fn)

    def requires(self, C):
        E = C.old(C.f('end_of_options_it')).idx
        A = C.old(C.f('arguments'))
        out = [('options end inside the arguments', b_and(le(0, E), le(E, A.len)))]
        if is_short(C.ptype(0)):
            out.append(('a short identifier is no dash', b_not(eq(C.oldarg(0), '-'))))
            out.append(('arguments have no NUL characters', no_nul(C.ex, A)))
        return out

    def effects(self, C):
        v = C.old(C.f('arguments'))
        C.ex.write(C.f('arguments'), Vec(v.et, C.ex.fresh('args', v.arr.sort()), v.len))

    def result(self, C):
        return C.ex.fresh('flag', B)

    def ensures(self, C):
        ex = C.ex
        args = C.f('arguments')
        A, A1 = C.old(args), C.new(args)
        E = C.old(C.f('end_of_options_it')).idx
        idv = C.oldarg(0)
        short = is_short(C.ptype(0))
        if short:
            m = lambda j: in_group(ex.elem_at(A, j), idv)
        else:
            m = lambda j: b_and(b_not(eq(idv, '')), eq(ex.elem_at(A, j), s_cat('--', idv)))
        yield 'returns normally', C.returned
        if not C.returned:
            return
        k = ex.fresh('first', I)
        ex.assume([le(0, k), le(k, E), All(0, k, lambda j: b_not(m(j))), b_imp(lt(k, E), m(k))])
        C.x['k'] = k
        ex.reg_idx(k)
        if not C.applied:
            yield 'end of options and number of arguments unchanged', b_and(eq(C.new(C.f('end_of_options_it')).idx, E), eq(A1.len, A.len))
        yield 'true exactly when the flag is given', b_iff(zb(C.ret), lt(k, E))
        yield 'all other arguments stay', All(0, A.len, lambda j: b_imp(b_or(b_not(eq(j, k)), le(E, k)), eq(ex.elem_at(A1, j), ex.elem_at(A, j))))
        a = ex.elem_at(A, k)
        if short:
            p = z3.IndexOf(zs(a), zs(idv), 0)
            left = s_cat(s_sub(a, 0, p), s_sub(a, add(p, 1), s_len(a)))
            yield 'only the one character is removed', b_imp(lt(k, E), eq(ex.elem_at(A1, k), ite(eq(left, '-'), '', left)))
            if not C.applied:
                yield 'the remainder is no long identifier', b_imp(lt(k, E), b_not(s_prefix('--', ex.elem_at(A1, k))))
        else:
            yield 'the spelling is removed', b_imp(lt(k, E), eq(ex.elem_at(A1, k), ''))


for _n in ('flag_is_set',):
    REG.specs[_n].after_apply = lambda C, _n=_n: record_call(C.ex, _n, C)


@spec
class get_flag(Spec):
    """C05: set exactly if given, sticky"""
    name = 'get_flag'
    q = FP + '::get_flag'
    uses = ('flag_is_set',)

    def setup(self, ex, fn):
        return parse_state(ex), std_args(self, ex, fn)

    def requires(self, C):
        E = C.old(C.f('end_of_options_it')).idx
        A = C.old(C.f('arguments'))
        return [('options end inside the arguments', b_and(le(0, E), le(E, A.len))),
                ('a short identifier is no dash', b_not(eq(C.oldarg(1), '-'))),
                ('arguments have no NUL characters', no_nul(C.ex, A)),
                ('long identifiers have no leading dash', b_or(eq(C.oldarg(2), ''), b_not(eq(s_at(C.oldarg(2), 0), '-'))))]

    def ensures(self, C):
        ex = C.ex
        args = C.f('arguments')
        A, A1 = C.old(args), C.new(args)
        E = C.old(C.f('end_of_options_it')).idx
        s, l = C.oldarg(1), C.oldarg(2)
        v0, v1 = C.oldarg(0), C.newarg(0)
        yield 'returns normally', C.returned
        if not C.returned:
            return
        ms = lambda j: in_group(ex.elem_at(A, j), s)
        ml = lambda j: b_and(b_not(eq(l, '')), eq(ex.elem_at(A, j), s_cat('--', l)))
        ks, kl = ex.fresh('first_short', I), ex.fresh('first_long', I)
        for k, m in ((ks, ms), (kl, ml)):
            ex.assume([le(0, k), le(k, E), All(0, k, lambda j, m=m: b_not(m(j))), b_imp(lt(k, E), m(k))])
            ex.reg_idx(k)
        yield 'true exactly if given or already true', b_iff(zb(v1), b_or(zb(v0), lt(ks, E), lt(kl, E)))
        a = ex.elem_at(A, ks)
        p = z3.IndexOf(zs(a), zs(s), 0)
        left = s_cat(s_sub(a, 0, p), s_sub(a, add(p, 1), s_len(a)))
        yield 'short: only the one character is removed', b_imp(lt(ks, E), eq(ex.elem_at(A1, ks), ite(eq(left, '-'), '', left)))
        yield 'long: the spelling is removed', b_imp(b_and(le(E, ks), lt(kl, E)), eq(ex.elem_at(A1, kl), ''))
        yield 'all other arguments stay', All(0, A.len, lambda j: b_imp(b_not(b_or(b_and(lt(ks, E), eq(j, ks)), b_and(lt(kl, E), eq(j, kl)))), eq(ex.elem_at(A1, j), ex.elem_at(A, j))))
        yield 'no option is set or moved', eq(C.new(C.f('end_of_options_it')).idx, E)


# ---------------------------------------------------------------- left over arguments
def unknown(a):
    return b_and(b_not(eq(a, '')), eq(s_at(a, 0), '-'), b_not(eq(a, '-')))


def unknown_loop(ctx):
    ex = ctx.ex
    C = getattr(ex, 'cur_call', None)
    if C is None or C.fn['q'] != FP + '::check_for_unknown_ids':
        return
    args = C.f('arguments')
    A = C.old(args)
    E = C.old(C.f('end_of_options_it')).idx
    for l in ctx.mods:
        v = ex.load(l)
        if isinstance(v, Iter) and v.loc.key() == args.key():
            yield 'nothing unknown before the cursor', lambda c, l=l: All(0, ex.load(l).idx, lambda j: b_not(unknown(ex.elem_at(A, j))))
            yield 'cursor in the options', lambda c, l=l: [le(0, ex.load(l).idx), le(ex.load(l).idx, E)]


EXPAND = uf('flags_before', S, I, S)      # (cluster, i): "-a, -b, " for the flags before position i


def expand_text(s, n):
    s, n = zs(s), zi(n)
    before = EXPAND(s, n - 1)
    return z3.Concat(z3.SubString(before, 0, z3.Length(before) - 2), str_val(' and -'), zs(s_at(s, n - 1)))


def expand_loop(ctx):
    ex = ctx.ex
    C = getattr(ex, 'cur_call', None)
    if C is None or 'expand_multiple_flags' not in C.fn['q']:
        return
    its = [l for l in ctx.mods if isinstance(ex.load(l), Iter)]
    ss = [l for l in ctx.mods if bare(ctx.typ(l)) == 'std::string']
    for l in its:
        n = s_len(C.oldarg(0))
        yield 'cursor behind the dash', lambda c, l=l: [le(1, ex.load(l).idx), lt(ex.load(l).idx, n)]
        for t in ss:
            yield 'the flags so far', lambda c, l=l, t=t: (ex.reg_idx(ex.load(l).idx), eq(ex.load(t), EXPAND(zs(C.oldarg(0)), zi(ex.load(l).idx))))[1]
            yield 'every flag is followed by a comma', lambda c, l=l, t=t: b_or(eq(ex.load(l).idx, 1), s_suffix(', ', ex.load(t)))


@spec
class expand_multiple_flags(Spec):
    """lists the flags of a group"""
    name = 'expand_multiple_flags'
    q = 'sharg::detail::format_base::expand_multiple_flags'
    templates = (expand_loop,)

    def requires(self, C):
        return [('a dash and at least two characters', b_and(lt(2, s_len(C.oldarg(0))), eq(s_at(C.oldarg(0), 0), '-')))]

    def prologue(self, C):
        s = zs(C.oldarg(0))
        C.ex.assume(EXPAND(s, 1) == str_val(''))
        C.ex.assume(All(1, s_len(s), lambda i: EXPAND(s, zi(add(i, 1))) == z3.Concat(EXPAND(s, zi(i)), str_val('-'), zs(s_at(s, i)), str_val(', '))))

    def ensures(self, C):
        yield 'returns normally', C.returned
        if not C.applied:
            yield 'C27 every flag, the last one after "and"', eq(C.ret, expand_text(C.oldarg(0), s_len(C.oldarg(0))))

    def applicable(self, C):
        return True


@spec
class check_for_unknown_ids(Spec):
    name = 'check_for_unknown_ids'
    q = FP + '::check_for_unknown_ids'
    throws = ('sharg::unknown_option',)
    templates = (unknown_loop,)
    uses = ('expand_multiple_flags',)

    def setup(self, ex, fn):
        return parse_state(ex), []

    def requires(self, C):
        E = C.old(C.f('end_of_options_it')).idx
        return [('options end inside the arguments', b_and(le(0, E), le(E, C.old(C.f('arguments')).len)))]

    def ensures(self, C):
        ex = C.ex
        A = C.old(C.f('arguments'))
        E = C.old(C.f('end_of_options_it')).idx
        if not C.applied:
            yield 'the arguments are not touched', b_and(eq(C.new(C.f('end_of_options_it')).idx, E), ex.same(A, C.new(C.f('arguments'))))
        yield 'rejects with unknown_option only', b_or(C.returned, C.threw('sharg::unknown_option'))
        if C.returned:
            yield 'no unknown option is accepted', All(0, E, lambda j: b_not(unknown(ex.elem_at(A, j))))
        elif C.applied:
            w = ex.fresh('unknown', I)
            ex.assume([le(0, w), lt(w, E), unknown(ex.elem_at(A, w))])
        else:
            yield 'rejects only if there is an unknown option', b_or(*[b_and(le(0, w), lt(w, E), unknown(ex.elem_at(A, w))) for w in ex.idx_terms])


@spec
class check_for_left_over_args(Spec):
    name = 'check_for_left_over_args'
    q = FP + '::check_for_left_over_args'
    throws = ('sharg::too_many_arguments',)

    def setup(self, ex, fn):
        return parse_state(ex), []

    def ensures(self, C):
        ex = C.ex
        A = C.old(C.f('arguments'))
        if not C.applied:
            yield 'the arguments are not touched', ex.same(A, C.new(C.f('arguments')))
        yield 'rejects with too_many_arguments only', b_or(C.returned, C.threw('sharg::too_many_arguments'))
        if C.returned:
            yield 'no argument is left over', All(0, A.len, lambda j: eq(ex.elem_at(A, j), ''))
        elif C.applied:
            w = ex.fresh('surplus', I)
            ex.assume([le(0, w), lt(w, A.len), b_not(eq(ex.elem_at(A, w), ''))])
        else:
            yield 'rejects only if an argument is left over', b_or(*[b_and(le(0, w), lt(w, A.len), b_not(eq(ex.elem_at(A, w), ''))) for w in ex.idx_terms])


# ---------------------------------------------------------------- positional options
def track_position(C):
    """ghost: positions whose text was converted and appended"""
    ex = C.ex
    if G_POS.root not in ex.store or not C.returned:
        return
    l = C.args[1]
    if not (isinstance(l, Loc) and l.path and l.path[-1][0] == 'i'):
        raise Unsupported('witness of a positional argument is lost')
    pos = ex.load(G_POS)
    i = l.path[-1][1]
    ex.write(G_POS, ex.vec_push(pos, i))
    rk = ex.load(G_RANK)
    ex.write(G_RANK, Vec('int', z3.Store(rk.arr, zi(i), zi(pos.len)), rk.len))
    ex.reg_idx(pos.len)


REG.specs['parse_option_value'].after_apply = track_position


class positional(with_validator):
    uses = ('parse_option_value', 'throw_on_input_error')

    def setup(self, ex, fn):
        return parse_state(ex), std_args(self, ex, fn)

    def first(self, C, A):
        ex = C.ex
        m = lambda j: b_not(eq(ex.elem_at(A, j), ''))
        k = ex.fresh('first', I)
        ex.assume([le(0, k), le(k, A.len), All(0, k, lambda j: b_not(m(j))), b_imp(lt(k, A.len), m(k))])
        ex.reg_idx(k)
        return k

    def common(self, C, n):
        """exceptions"""
        ex = C.ex
        for x in self.validation(C, C.args[0], lt(0, n) if n is not None else True, C.newarg(0)):
            yield x
        if C.threw() and ex.ghost.get('validator_threw') is None:
            yield 'nothing but user errors', b_or(C.threw('sharg::too_few_arguments'), C.threw('sharg::user_input_error'))


@spec
class get_positional_single(positional):
    """C08: the first remaining argument, exactly once"""
    name = 'get_positional_option'
    q = FP + '::get_positional_option'

    def accept(self, prog, fn):
        return with_validator.accept(self, prog, fn) and not is_list(fn['params'][0]['type'])

    def ensures(self, C):
        ex = C.ex
        args = C.f('arguments')
        A, A1 = C.old(args), C.new(args)
        t = C.ptype(0)
        k = self.first(C, A)
        a = ex.elem_at(A, k)
        for x in self.common(C, None):
            yield x
        if C.returned or ex.ghost.get('validator_threw') is not None:
            yield 'there was an argument', lt(k, A.len)
            yield 'it receives the first remaining argument', b_and(good(ex, t, a), veq(C.newarg(0), conv(t, a)[1]))
            yield 'exactly that argument is consumed', All(0, A.len, lambda j: eq(ex.elem_at(A1, j), ite(eq(j, k), '', ex.elem_at(A, j))))
            yield 'number of arguments unchanged', eq(A1.len, A.len)
        elif C.threw('sharg::too_few_arguments'):
            yield 'too few arguments exactly when none is left', le(A.len, k)
        else:
            yield 'otherwise only unconvertible values are rejected', b_and(lt(k, A.len), b_not(good(ex, t, a)))


def positional_loop(ctx):
    ex = ctx.ex
    C = getattr(ex, 'cur_call', None)
    if C is None or C.fn['q'] != FP + '::get_positional_option' or G_POS.key() not in ctx.info.mod:
        return
    args = C.f('arguments')
    A = C.old(args)
    n = A.len
    t = C.ptype(0)
    vl = C.args[0]
    P = lambda: ex.load(G_POS)
    p = lambda j: sel(ex, P(), j)
    V = lambda: ex.load(vl)
    rk = lambda i: sel(ex, ex.load(G_RANK), i)
    ok = lambda x: b_not(eq(x, ''))
    yield 'arguments keep their number', lambda c: eq(ex.load(args).len, n)
    yield 'one element per position', lambda c: [le(0, P().len), eq(V().len, P().len)]
    yield 'values are the converted texts', lambda c: All(0, P().len, lambda j: [
        b_and(le(0, p(j)), lt(p(j), n)), ok(ex.elem_at(A, p(j))), eq(conv(elem(ex, t), ex.elem_at(A, p(j)))[0], OK),
        veq(sel(ex, V(), j), conv(elem(ex, t), ex.elem_at(A, p(j)))[1])])
    yield 'positions increase', lambda c: All(0, sub(P().len, 1), lambda j: lt(p(j), p(add(j, 1))))
    for l in ctx.mods:
        v = ex.load(l)
        if isinstance(v, Iter) and v.loc.key() == args.key():
            ci = lambda l=l: ex.load(l).idx
            yield 'cursor in the arguments', lambda c: [le(0, ci()), le(ci(), n)]
            yield 'cursor at the next argument', lambda c: b_imp(lt(ci(), n), ok(ex.elem_at(A, ci())))
            yield 'consumed before the cursor', lambda c: All(0, ci(), lambda j: eq(ex.elem_at(ex.load(args), j), ''))
            yield 'untouched from the cursor on', lambda c: All(ci(), n, lambda j: eq(ex.elem_at(ex.load(args), j), ex.elem_at(A, j)))
            yield 'last position before the cursor', lambda c: b_imp(lt(0, P().len), lt(p(sub(P().len, 1)), ci()))
            yield 'every argument before the cursor has an element', lambda c: All(0, n, lambda i: b_imp(b_and(ok(ex.elem_at(A, i)), lt(i, ci())), b_and(le(0, rk(i)), lt(rk(i), P().len), eq(p(rk(i)), i))))

            def hook(c):
                ex.reg_idx(ci())
                ex.reg_idx(0)
                ex.reg_idx(sub(P().len, 1))
                ex.reg_idx(P().len)
            yield 'terms', lambda c: (hook(c), True)[1]


@spec
class get_positional_list(positional):
    """C08: all remaining arguments, in order"""
    name = 'get_positional_list'
    q = FP + '::get_positional_option'
    templates = (positional_loop,)

    def accept(self, prog, fn):
        return with_validator.accept(self, prog, fn) and is_list(fn['params'][0]['type'])

    def requires(self, C):
        f = C.old(C.f('positional_option_calls'))
        return [('a list is the last positional option', eq(add(C.old(C.f('positional_option_count')), 1), z3.Length(f.base))),
                ('number of positional options', le(z3.Length(f.base), 1 << 30))]

    def prologue(self, C):
        ex = C.ex
        n = C.old(C.f('arguments')).len
        ex.new_root(G_POS.root, 'std::vector<int>', Vec('int', z3.K(I, z3.IntVal(0)), 0))
        ex.new_root(G_RANK.root, 'std::vector<int>', Vec('int', z3.K(I, z3.IntVal(-1)), n))

    def ensures(self, C):
        ex = C.ex
        args = C.f('arguments')
        A, A1 = C.old(args), C.new(args)
        t = C.ptype(0)
        k = self.first(C, A)
        P, V = ex.load(G_POS), C.newarg(0)
        R = ex.load(G_RANK)
        p = lambda j: sel(ex, P, j)
        ok = lambda j: b_not(eq(ex.elem_at(A, j), ''))
        for x in self.common(C, P.len):
            yield x
        if C.returned or ex.ghost.get('validator_threw') is not None:
            ex.reg_idx(0)
            yield 'there was an argument', lt(k, A.len)
            yield 'all arguments are consumed', All(0, A.len, lambda j: eq(ex.elem_at(A1, j), ''))
            yield 'number of arguments unchanged', eq(A1.len, A.len)
            yield 'as many elements as positions', eq(V.len, P.len)
            yield 'elements are the converted arguments', All(0, P.len, lambda j: [
                b_and(le(0, p(j)), lt(p(j), A.len)), ok(p(j)), eq(conv(elem(ex, t), ex.elem_at(A, p(j)))[0], OK),
                veq(sel(ex, V, j), conv(elem(ex, t), ex.elem_at(A, p(j)))[1])])
            yield 'in the order of the command line', All(0, sub(P.len, 1), lambda j: lt(p(j), p(add(j, 1))))
            yield 'every argument is delivered', All(0, A.len, lambda i: b_imp(ok(i), b_and(le(0, sel(ex, R, i)), lt(sel(ex, R, i), P.len), eq(p(sel(ex, R, i)), i))))
        elif C.threw('sharg::too_few_arguments'):
            yield 'too few arguments exactly when none is left', le(A.len, k)


# ---------------------------------------------------------------- the parse order
CALLS = ('option_calls', 'flag_calls', 'positional_option_calls')


def G_NEXT(kind):
    return Loc(('gNEXT', kind))


G_SHADOW = Loc(('gSHADOW',))        # the arguments as the recorded calls left them
USER_ERRORS = ('sharg::user_input_error', 'sharg::validation_error')


def blanked(a1, a):
    return b_or(eq(a1, a), eq(a1, ''))


def shrunk(a1, a):
    """what a flag call may do to an argument"""
    return b_or(eq(a1, a), eq(a1, ''), b_and(eq(s_at(a, 0), '-'), eq(s_at(a1, 0), '-'), lt(1, s_len(a1))))


def opaque_call(C):
    """a recorded option / flag / positional call, known only by the frame proved for get_option, get_flag and
    get_positional_option"""
    def h(ex, f, args):
        kind = None
        for k in CALLS:
            base = C.old(C.f(k)).base
            if f.tag is not None and f.tag.base is not None and z3.eq(f.tag.base, base):
                kind = k
        if kind is None:
            raise Unsupported('call of an unknown function')
        nx = ex.load(G_NEXT(kind))
        base = C.old(C.f(kind)).base
        ex.oblige('C06 every declared %s entry runs in declaration order' % kind, [lt(nx, z3.Length(base)), f.term == base[zi(nx)]], 'post')
        ex.write(G_NEXT(kind), add(nx, 1))
        a = C.f('arguments')
        A0, cur = C.old(a), ex.load(a)
        E = ex.load(C.f('end_of_options_it')).idx
        k = C.x['E']
        ex.oblige('C07 options end at the first terminator', eq(E, k))
        ex.oblige('number of arguments', eq(cur.len, A0.len))
        sh = ex.load(G_SHADOW)
        el = lambda v, j: ex.elem_at(v, j)
        if kind == 'positional_option_calls':
            done = [eq(ex.load(G_NEXT(x)), z3.Length(C.old(C.f(x)).base)) for x in CALLS[:2]]
            ex.oblige('C06 options and flags are evaluated before positional options', done)
            ex.oblige('C07 the terminator is not delivered', b_imp(lt(k, A0.len), eq(el(cur, k), '')))
            ex.oblige('C07 everything behind the terminator is delivered verbatim, once', All(add(k, 1), A0.len, lambda j: b_or(eq(el(cur, j), el(A0, j)), b_and(lt(0, nx), eq(el(cur, j), '')))))
            ex.oblige('C06 no unknown option reaches the positional options', All(0, k, lambda j: b_and(blanked(el(cur, j), el(A0, j)), b_not(unknown(el(cur, j))))))
            ex.oblige('C06 only recorded calls consume arguments', All(0, A0.len, lambda j: b_or(eq(j, k), eq(el(cur, j), el(sh, j)))))
        else:
            if kind == 'flag_calls':
                ex.oblige('C05 options are evaluated before flags', eq(ex.load(G_NEXT('option_calls')), z3.Length(C.old(C.f('option_calls')).base)))
            ex.oblige('C07 nothing from the terminator on is touched before', All(k, A0.len, lambda j: eq(el(cur, j), el(A0, j))))
            ex.oblige('C06 only recorded calls consume arguments', All(0, A0.len, lambda j: eq(el(cur, j), el(sh, j))))
        new = Vec(cur.et, ex.fresh('args', cur.arr.sort()), cur.len)
        ex.write(a, new)
        ex.write(G_SHADOW, new)
        if kind == 'positional_option_calls':
            ex.assume(All(0, cur.len, lambda j: blanked(el(new, j), el(cur, j))))
        else:
            ex.assume(All(0, cur.len, lambda j: (blanked if kind == 'option_calls' else shrunk)(el(new, j), el(cur, j))))
            ex.assume(All(E, cur.len, lambda j: eq(el(new, j), el(cur, j))))
        t = ex.choose(3, 'call')
        if t:
            ex.ghost['call_threw'] = True
            raise CxxThrow(ExcVal(USER_ERRORS[t - 1], ex.fresh('msg', S)))
    return h


def calls_loop(ctx):
    ex = ctx.ex
    C = getattr(ex, 'cur_call', None)
    if C is None or C.fn['q'] != FP + '::parse':
        return
    a = C.f('arguments')
    A0 = C.old(a)
    k = C.x['E']
    mod = ctx.info.mod
    kinds = [x for x in CALLS if G_NEXT(x).key() in mod]
    el = lambda v, j: ex.elem_at(v, j)
    cur = lambda: ex.load(a)
    yield 'arguments keep their number', lambda c: eq(cur().len, A0.len)
    yield 'shadow keeps its number', lambda c: eq(ex.load(G_SHADOW).len, A0.len)
    for l in ctx.mods:
        if l.path == () and isinstance(l.root, tuple) and str(l.root[-1]).startswith('it'):
            for x in kinds:
                yield 'as many calls as iterations ' + x, lambda c, l=l, x=x: [eq(ex.load(l), ex.load(G_NEXT(x))), le(0, ex.load(l)), le(ex.load(l), z3.Length(C.old(C.f(x)).base))]
    yield 'untouched from the terminator on', lambda c: All(k, A0.len, lambda j: eq(el(cur(), j), el(A0, j)))
    yield 'terminator is blank', lambda c: b_imp(lt(k, A0.len), eq(el(cur(), k), ''))
    nx = lambda: ex.load(G_NEXT('positional_option_calls'))
    yield 'behind the terminator verbatim or consumed', lambda c: All(add(k, 1), A0.len, lambda j: b_or(eq(el(cur(), j), el(A0, j)), b_and(lt(0, nx()), eq(el(cur(), j), ''))))
    yield 'arguments are verbatim or consumed before', lambda c: All(0, k, lambda j: blanked(el(cur(), j), el(A0, j)))
    yield 'arguments are verbatim, consumed or shrunk before', lambda c: All(0, k, lambda j: shrunk(el(cur(), j), el(A0, j)))
    yield 'nothing unknown', lambda c: All(0, k, lambda j: b_not(unknown(el(cur(), j))))
    yield 'changed by calls only', lambda c: All(0, A0.len, lambda j: eq(el(cur(), j), el(ex.load(G_SHADOW), j)))
    yield 'changed by calls only, except the terminator', lambda c: All(0, A0.len, lambda j: b_or(eq(j, k), eq(el(cur(), j), el(ex.load(G_SHADOW), j))))


@spec
class format_parse_parse(Spec):
    """C06, C07: order of the phases, the terminator, nothing left over"""
    name = 'format_parse_parse'
    q = FP + '::parse'
    uses = ('check_for_unknown_ids', 'check_for_left_over_args')
    templates = (calls_loop,)

    def setup(self, ex, fn):
        return parse_state(ex), std_args(self, ex, fn)

    def prologue(self, C):
        ex = C.ex
        A = C.old(C.f('arguments'))
        for x in CALLS:
            ex.new_root(G_NEXT(x).root, '__fnidx', 0)
        ex.new_root(G_SHADOW.root, VECS, A)
        k = ex.fresh('terminator', I)
        ex.assume([le(0, k), le(k, A.len), All(0, k, lambda j: b_not(eq(ex.elem_at(A, j), '--'))), b_imp(lt(k, A.len), eq(ex.elem_at(A, k), '--'))])
        ex.reg_idx(k)
        C.x['E'] = k
        ex.ghost['call_opaque'] = opaque_call(C)

    def ensures(self, C):
        ex = C.ex
        a = C.f('arguments')
        A0, A1 = C.old(a), C.new(a)
        k = C.x['E']
        if C.returned:
            yield 'C06 nothing is left over', All(0, A1.len, lambda j: eq(ex.elem_at(A1, j), ''))
            yield 'C06 number of arguments', eq(A1.len, A0.len)
            yield 'C06 every argument was consumed by a recorded call or is the terminator', All(0, A0.len, lambda j: b_or(eq(j, k), eq(ex.elem_at(ex.load(G_SHADOW), j), '')))
            for x in CALLS:
                yield 'C06 every %s entry ran' % x, eq(ex.load(G_NEXT(x)), z3.Length(C.old(C.f(x)).base))
            yield 'C06 errors of the calls are not swallowed', not ex.ghost.get('call_threw')
        else:
            yield 'errors are errors of the calls, unknown options or surplus arguments', bool(ex.ghost.get('call_threw')) or C.threw('sharg::unknown_option') or C.threw('sharg::too_many_arguments')


# ---------------------------------------------------------------- what is recorded
class recording(Spec):
    """add_*: exactly one call is recorded; running it evaluates the given value with the given configuration"""
    callee = None
    vec = None

    def setup(self, ex, fn):
        return parse_state(ex), std_args(self, ex, fn)

    def proof_env(self, ex, fn):
        def rec(ex, fn, this, args, node):
            ex.ghost.setdefault('recorded', []).append((this, args, fn, [ex.load(a) if isinstance(a, Loc) else a for a in args]))
            return None
        for f in ex.prog.functions(FP + '::' + self.callee):
            ex.contracts[f['id']] = rec

    def ensures(self, C):
        ex = C.ex
        yield 'returns normally', C.returned
        if not C.returned:
            return
        yield 'nothing is evaluated yet', not ex.ghost.get('recorded')
        for v in CALLS:
            a, b = C.old(C.f(v)), C.new(C.f(v))
            yield 'earlier %s stay' % v, (a.base is None and b.base is None) or z3.eq(a.base, b.base)
            yield 'exactly one call is recorded in the right list (%s)' % v, len(b.items) == (len(a.items) + (1 if v == self.vec else 0))
        yield 'arguments are not touched', ex.same(C.old(C.f('arguments')), C.new(C.f('arguments')))
        cfg = C.oldarg(1)
        f = C.new(C.f(self.vec)).items[-1]
        ex.call_value(f, [], None)
        rec = ex.ghost.get('recorded', [])
        yield 'the recorded call evaluates once', len(rec) == 1
        this, args, fn, vals = rec[0]
        yield 'with this parser', isinstance(this, Loc) and this.key() == C.this.key()
        yield 'with the given variable', isinstance(args[0], Loc) and args[0].key() == C.args[0].key()
        for g in self.passes(C, cfg, fn, vals):
            yield g

    def passes(self, C, cfg, fn, vals):
        yield 'with the given configuration', C.ex.same(vals[1], cfg)


@spec
class fp_add_option(recording):
    name, q = 'format_parse_add_option', FP + '::add_option'
    callee, vec = 'get_option', 'option_calls'


@spec
class fp_add_flag(recording):
    name, q = 'format_parse_add_flag', FP + '::add_flag'
    callee, vec = 'get_flag', 'flag_calls'

    def passes(self, C, cfg, fn, vals):
        yield 'with the short identifier', C.ex.same(vals[1], cfg.fields['short_id'])
        yield 'with the long identifier', C.ex.same(vals[2], cfg.fields['long_id'])


@spec
class fp_add_positional(recording):
    name, q = 'format_parse_add_positional_option', FP + '::add_positional_option'
    callee, vec = 'get_positional_option', 'positional_option_calls'

    def passes(self, C, cfg, fn, vals):
        yield 'with the given validator', C.ex.same(vals[1], cfg.fields['validator'])
