"""Contracts of sharg::parser: registration, life cycle, is_option_set (C10-C12)."""
import z3
from cxv.vals import *
from cxv.spec import Spec, spec, REG
from cxv.lib import split_targs
from contracts.parse import matches, VECS, is_list, FP, ANYV

P = 'sharg::parser'
DESIGN = 'sharg::design_error'
BUILTIN = ['h', 'hh', 'help', 'advanced-help', 'export-help', 'version', 'version-check', 'copyright']

_alnum = z3.Union(z3.Range('a', 'z'), z3.Range('A', 'Z'), z3.Range('0', '9'))


def variant_alts(ex):
    t = next(f['type'] for f in ex.prog.all_fields(P) if f['name'] == 'format')
    t = bare(t)
    return [bare(x) for x in split_targs(t[t.index('<') + 1:-1])]


def parser_state(ex):
    this = ex.new_root(('this',), P, ex.sym(P, 'this'))
    alts = variant_alts(ex)
    k = ex.fresh('format_kind', I)
    ex.assume(z3.And(k >= 0, k < len(alts)))
    ex.write(this.f('format'), Variant(alts, k, None))
    return this


def in_set(s, x):
    return z3.Select(s.arr, zs(x))


def short_ok(s):
    return z3.And(z3.Length(zs(s)) == 1, z3.InRe(zs(s), z3.Union(_alnum, z3.Re('_'), z3.Re('@'))))


def long_char(c):
    return z3.InRe(zs(c), z3.Union(_alnum, z3.Re('_'), z3.Re('-'), z3.Re('@')))


def long_shape(l):
    """two or more characters, the first no dash"""
    return b_and(lt(1, s_len(l)), b_not(eq(s_at(l, 0), '-')))


def all_chars(ex, l):
    return All(0, s_len(l), lambda j: long_char(s_at(l, j)))


class ident(Spec):
    """common clauses: a design error exactly for ill-formed identifiers"""

    def setup(self, ex, fn):
        return parser_state(ex), [self.sym_arg(ex, p) for p in fn['params']]

    def bad_long_char(self, ex, l):
        return b_or(*[b_and(le(0, w), lt(w, s_len(l)), b_not(long_char(s_at(l, w)))) for w in ex.idx_terms])

    def shape_ok(self, ex, s, l, used):
        """everything but the characters of the long identifier"""
        return b_and(b_not(b_and(eq(s, '\0'), eq(l, ''))),
                     b_or(eq(s, '\0'), b_and(short_ok(s), b_not(in_set(used, s)))),
                     b_or(eq(l, ''), b_and(long_shape(l), b_not(in_set(used, l)))))

    def id_clauses(self, C, s, l, used, extra_bad=False):
        ex = C.ex
        good = self.shape_ok(ex, s, l, used)
        if C.returned:
            yield 'C10 accepted identifiers are well formed and new', good
            yield 'C10 accepted long identifiers have valid characters only', all_chars(ex, l)
            yield 'no other reason to reject', b_not(extra_bad)
            u1 = C.new(C.f('used_ids'))
            x = ex.fresh('any_id', S)
            yield 'C10 both identifiers are taken afterwards, no other one', \
                in_set(u1, x) == z3.Or(in_set(used, x), zb(b_and(b_not(eq(s, '\0')), eq(x, s))), zb(b_and(b_not(eq(l, '')), eq(x, l))))
        else:
            yield 'C10 rejected with a design error', C.threw(DESIGN)
            yield 'C10 rejected only for a reason', b_or(b_not(good), self.bad_long_char(ex, l), extra_bad)


@spec
class verify_identifiers(ident):
    name = 'verify_identifiers'
    q = P + '::verify_identifiers'
    throws = (DESIGN,)

    def effects(self, C):
        C.ex.write(C.f('used_ids'), SetV(C.ex.fresh('used', z3.ArraySort(S, B))))

    def ensures(self, C):
        ex = C.ex
        s, l = C.oldarg(0), C.oldarg(1)
        used = C.old(C.f('used_ids'))
        if C.applied:
            good = self.shape_ok(ex, s, l, used)
            if C.returned:
                yield '', good
                yield '', all_chars(ex, l)
                a = used.arr
                ex.write(C.f('used_ids'), SetV(z3.Store(z3.Store(a, zs(s), z3.Or(z3.Select(a, zs(s)), zb(b_not(eq(s, '\0'))))), zs(l),
                         z3.Or(z3.Select(z3.Store(a, zs(s), z3.Or(z3.Select(a, zs(s)), zb(b_not(eq(s, '\0'))))), zs(l)), zb(b_not(eq(l, '')))))))
            else:
                w = ex.fresh('badchar', I)
                yield '', b_or(b_not(good), b_and(le(0, w), lt(w, s_len(l)), b_not(long_char(s_at(l, w)))))
                ex.reg_idx(w)
            return
        for x in self.id_clauses(C, s, l, used):
            yield x


FORMATS = ('format_parse', 'format_help', 'format_short_help', 'format_version', 'format_html', 'format_man', 'format_tdl', 'format_copyright')


class add_common(ident):
    """add_option / add_flag / add_positional_option / add_section ... of the parser"""
    method = None
    uses = ('verify_identifiers',)

    def proof_env(self, ex, fn):
        def rec(ex, fn, this, args, node):
            ex.ghost.setdefault('delegated', []).append((fn, this, args, [ex.load(a) if isinstance(a, Loc) else a for a in args]))
            return None
        for f in ex.prog.fn.values():
            if f['q'].split('::')[-1] == self.method and bare(f.get('cls') or '').startswith('sharg::detail::format_'):
                ex.contracts[f['id']] = rec

    def unchanged(self, C, names):
        for n in names:
            yield 'C11 %s unchanged' % n, C.ex.same(C.old(C.f(n)), C.new(C.f(n)))

    def lifecycle(self, C):
        ex = C.ex
        called = C.old(C.f('parse_was_called'))
        if C.returned:
            yield 'C11 rejected after parse', b_not(called)
        elif ex.known(called):
            yield 'C11 rejected after parse with a design error', C.threw(DESIGN)
            for x in self.unchanged(C, ('used_ids', 'options', 'operations', 'subcommands', 'has_positional_list_option', 'format_arguments', 'arguments', 'parse_was_called')):
                yield x

    def delegates(self, C, params):
        """exactly one operation is recorded; running it calls method(params...) on the selected format"""
        ex = C.ex
        a, b = C.old(C.f('operations')), C.new(C.f('operations'))
        yield 'C22 exactly one operation is recorded', len(b.items) == len(a.items) + 1 and (a.base is b.base or z3.eq(a.base, b.base))
        yield 'C22 nothing is evaluated before parse', not ex.ghost.get('delegated')
        alts = variant_alts(ex)
        args0 = [C.oldarg(i) for i in range(len(C.args))]
        k = ex.choose(len(alts), 'format')
        loc = C.f('format')
        ex.write(loc, Variant(alts, k, ex.sym(alts[k], 'fmt')))
        # what the user passed by reference and is kept by value may change in between
        ex.call_value(b.items[-1], [], None)
        got = ex.ghost.get('delegated', [])
        yield 'C22 the selected page gets the entry once', len(got) == 1
        fn, this, args, vals = got[0]
        yield 'C22 the selected page gets it', isinstance(this, Loc) and this.key()[0] == C.f('format').key()[0]
        for (i, mode), arg, val in zip(params, args, vals):
            if mode == 'ref':
                yield 'the variable of the user is passed on', isinstance(arg, Loc) and arg.key() == C.args[i].key()
            else:
                yield 'the entry is passed on unchanged (%d)' % i, ex.same(val, args0[i]) if not is_z3(val) else eq(val, args0[i])


def cfg(C):
    return C.oldarg(1).fields


@spec
class parser_add_option(add_common):
    name, q, method = 'parser_add_option', P + '::add_option', 'add_option'

    def ensures(self, C):
        ex = C.ex
        c = cfg(C)
        s, l = c['short_id'], c['long_id']
        used = C.old(C.f('used_ids'))
        for x in self.lifecycle(C):
            yield x
        called = C.old(C.f('parse_was_called'))
        req = b_and(c['required'], b_not(eq(c['default_message'], '')))
        for x in self.id_clauses(C, s, l, used, b_or(called, req)):
            yield x
        if C.returned:
            o0, o1 = C.old(C.f('options')), C.new(C.f('options'))
            x = ex.fresh('any_spelling', S)
            yield 'C14 the spellings of the option are known as options with value', \
                in_set(o1, x) == z3.Or(in_set(o0, x), zb(b_and(b_not(eq(s, '\0')), eq(x, s_cat('-', s)))), zb(b_and(b_not(eq(l, '')), eq(x, s_cat('--', l)))))
            yield 'C13 -- never becomes an option with value', b_imp(in_set(o1, '--'), in_set(o0, '--'))
            yield 'value unchanged', ex.same(C.oldarg(0), C.newarg(0))
            for x in self.delegates(C, ((0, 'ref'), (1, 'val'))):
                yield x


@spec
class parser_add_flag(add_common):
    name, q, method = 'parser_add_flag', P + '::add_flag', 'add_flag'

    def ensures(self, C):
        ex = C.ex
        c = cfg(C)
        used = C.old(C.f('used_ids'))
        for x in self.lifecycle(C):
            yield x
        bad = b_or(C.old(C.f('parse_was_called')), b_not(eq(c['default_message'], '')), C.oldarg(0))
        for x in self.id_clauses(C, c['short_id'], c['long_id'], used, bad):
            yield x
        if C.returned:
            yield 'C14 a flag takes no value', ex.same(C.old(C.f('options')), C.new(C.f('options')))
            yield 'value unchanged', ex.same(C.oldarg(0), C.newarg(0))
            for x in self.delegates(C, ((0, 'ref'), (1, 'val'))):
                yield x


@spec
class parser_add_positional_option(add_common):
    name, q, method = 'parser_add_positional_option', P + '::add_positional_option', 'add_positional_option'

    def ensures(self, C):
        ex = C.ex
        c = cfg(C)
        for x in self.lifecycle(C):
            yield x
        subs = C.old(C.f('subcommands'))
        bad = b_or(C.old(C.f('parse_was_called')), b_not(eq(c['short_id'], '\0')), b_not(eq(c['long_id'], '')), c['advanced'], c['hidden'],
                   b_not(eq(subs.len, 0)), C.old(C.f('has_positional_list_option')), b_not(eq(c['default_message'], '')))
        if not C.returned:
            yield 'C10 rejected with a design error', C.threw(DESIGN)
            yield 'C10 rejected only for a reason', bad
            return
        yield 'C10 nothing ill-formed is accepted', b_not(bad)
        lst = is_list(C.fn['params'][0]['type'])
        yield 'C10 a list is remembered', b_iff(C.new(C.f('has_positional_list_option')), b_or(C.old(C.f('has_positional_list_option')), lst))
        yield 'no identifiers are taken', ex.same(C.old(C.f('used_ids')), C.new(C.f('used_ids')))
        for x in self.delegates(C, ((0, 'ref'), (1, 'val'))):
            yield x


class add_text(add_common):
    uses = ()
    n = 2

    def ensures(self, C):
        for x in self.lifecycle(C):
            yield x
        if not C.returned:
            yield 'C11 rejected only after parse', b_and(C.threw(DESIGN), C.old(C.f('parse_was_called')))
            return
        for x in self.delegates(C, tuple((i, 'val') for i in range(self.n))):
            yield x


for _m, _n in (('add_section', 2), ('add_subsection', 2), ('add_line', 3), ('add_list_item', 3)):
    spec(type('parser_' + _m, (add_text,), dict(name='parser_' + _m, q=P + '::' + _m, method=_m, n=_n)))


@spec
class is_option_set(Spec):
    """C12"""
    name = 'is_option_set'
    q = P + '::is_option_set'
    uses = ('find_option_id',)

    def setup(self, ex, fn):
        return parser_state(ex), [self.sym_arg(ex, p) for p in fn['params']]

    def ensures(self, C):
        ex = C.ex
        idv = C.oldarg(0)
        short = bare(C.fn['params'][0]['type']) == 'char'
        called = C.old(C.f('parse_was_called'))
        used = in_set(C.old(C.f('used_ids')), idv)
        A = C.old(C.f('format_arguments'))
        one = False if short else eq(s_len(idv), 1)
        if C.threw():
            yield 'C11 rejected with a design error', C.threw(DESIGN)
            yield 'C11 rejected only before parse, for unknown or one-character text identifiers', b_or(b_not(called), b_not(used), one)
            return
        yield 'returns', C.returned
        yield 'C11 not before parse', called
        yield 'C11 only declared identifiers', used
        yield 'C12 one-character texts are rejected', b_not(one)
        k = ex.fresh('terminator', I)
        ex.assume([le(0, k), le(k, A.len), All(0, k, lambda j: b_not(eq(ex.elem_at(A, j), '--'))), b_imp(lt(k, A.len), eq(ex.elem_at(A, k), '--'))])
        ex.reg_idx(k)
        yield 'C12 true only for a spelling before the terminator', b_imp(C.ret, b_or(*[b_and(le(0, j), lt(j, k), matches(ex.elem_at(A, j), idv, short)) for j in ex.idx_terms]))
        yield 'C12 false only without one', All(0, k, lambda j: b_imp(b_not(C.ret), b_not(matches(ex.elem_at(A, j), idv, short))))
        for n in ('format_arguments', 'used_ids', 'options', 'arguments'):
            yield '%s unchanged' % n, ex.same(C.old(C.f(n)), C.new(C.f(n)))


@spec
class get_sub_parser(Spec):
    name = 'get_sub_parser'
    q = P + '::get_sub_parser'

    def setup(self, ex, fn):
        this = parser_state(ex)
        if ex.choose(2, 'sub'):
            ex.write(this.f('sub_parser'), UPtr(ex.new_root(('sub',), P, ex.sym(P, 'sub'))))
        return this, []

    def ensures(self, C):
        p = C.old(C.f('sub_parser'))
        if p.loc is None:
            yield 'C11 no subcommand: design error', C.threw(DESIGN)
        else:
            yield 'C11 the sub-parser', C.returned and isinstance(C.ret, Loc) and C.ret.key() == p.loc.key()
