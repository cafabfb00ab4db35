"""Contracts of the argument scan of sharg::parser (C13, C14) and of its life cycle (C11)."""
import z3
from cxv.vals import *
from cxv.spec import Spec, spec, REG
from contracts.registration import P, DESIGN, BUILTIN, variant_alts, parser_state, in_set

D = 'sharg::detail::'
SHORT = D + 'format_short_help'


def user_errors(ex):
    return ('sharg::user_input_error', 'sharg::too_few_arguments', 'sharg::validation_error')


def position(t):
    return isinstance(t, int) or 'subcommand_at' not in str(t)


class Scan:
    """the documented left-to-right reading of the arguments, as recursively defined functions of the position"""

    def __init__(self, ex, A, options, subs, alts, dec0):
        self.ex, self.A, self.options, self.subs, self.alts = ex, A, options, subs, alts
        self.N = A.len
        f = lambda n, r: ex.fresh(n, z3.ArraySort(I, r))
        self.st_, self.cnt_, self.kind_, self.adv_ = f('head', B), f('forwarded', I), f('page', I), f('advanced', B)
        self.dh_, self.dv_ = f('decided', B), f('decision', B)
        self.nosub = eq(subs.len, 0)
        self.member_ = ex.fresh('is_subcommand', z3.ArraySort(S, B))
        ex.assume(All(0, subs.len, lambda j: z3.Select(self.member_, zs(ex.elem_at(subs, j)))))
        # the other direction (a member is an element) is used through a witness
        w = z3.Function('subcommand_at', S, I)
        self.wit = w
        s0 = alts.index(SHORT)
        ex.assume([self.st(1), b_not(self.st(0)), eq(self.cnt(1), 0), eq(self.kind(1), s0), b_not(self.adv(1)), eq(self.dh(1), dec0.has),
                   b_imp(dec0.has, b_iff(zb(self.dv(1)), zb(dec0.val if dec0.val is not None else False)))])
        ex.assume(All(1, self.N, self.step, only=position))
        ex.assume(All(1, self.N, self.member_def, only=position))
        ex.reg_idx(1)

    def a(self, i): return self.ex.elem_at(self.A, i)
    def st(self, i): return z3.Select(self.st_, zi(i))
    def cnt(self, i): return z3.Select(self.cnt_, zi(i))
    def kind(self, i): return z3.Select(self.kind_, zi(i))
    def adv(self, i): return z3.Select(self.adv_, zi(i))
    def dh(self, i): return z3.Select(self.dh_, zi(i))
    def dv(self, i): return z3.Select(self.dv_, zi(i))

    def opt(self, i): return in_set(self.options, self.a(i))
    def more(self, i): return lt(add(i, 1), self.N)

    def member(self, x):
        """x is a registered subcommand: an element, by its (skolem) position"""
        return z3.Select(self.member_, zs(x))

    def member_def(self, i):
        x = self.a(i)
        j = self.wit(zs(x))
        self.ex.reg_idx(j)
        return b_imp(self.member(x), b_and(le(0, j), lt(j, self.subs.len), eq(self.ex.elem_at(self.subs, j), x)))

    def two(self, i):
        a = self.a(i)
        return b_and(self.more(i), ite(zb(self.opt(i)), zb(b_not(b_and(eq(self.a(add(i, 1)), '--'), self.nosub))),
                                       zb(b_or(eq(a, '--export-help'), eq(a, '--version-check')))))

    def exp(self, i):
        a = self.a(i)
        return b_or(eq(a, '--export-help'), z3.PrefixOf(str_val('--export-help='), zs(a)))

    def kw(self, i):
        a = self.a(i)
        return b_or(*[eq(a, k) for k in ('-h', '--help', '-hh', '--advanced-help', '--version', '--copyright', '--version-check')], self.exp(i))

    def export(self, i, w):
        """export of the format w is asked for at i: as the next argument or behind ="""
        return b_or(eq(self.a(i), '--export-help=' + w), b_and(eq(self.a(i), '--export-help'), eq(self.a(add(i, 1)), w)))

    def plain(self, i):
        """a head that is interpreted (no declared option)"""
        return b_and(self.st(i), b_not(self.opt(i)))

    def stops(self, i):
        a = self.a(i)
        return b_and(self.plain(i), b_or(b_and(eq(a, '--'), self.nosub), self.member(a)))

    def is_sub(self, i):
        return b_and(self.plain(i), b_not(self.nosub), self.member(self.a(i)))

    def bad_sub(self, i):
        return b_and(self.plain(i), b_not(self.nosub), b_not(self.member(self.a(i))), b_not(s_prefix('-', self.a(i))))

    def interp(self, i):
        return b_and(self.plain(i), b_not(self.stops(i)), b_not(self.bad_sub(i)))

    def missing(self, i):
        a = self.a(i)
        return b_and(self.interp(i), b_or(eq(a, '--export-help'), eq(a, '--version-check')), b_not(self.more(i)))

    def bad_value(self, i):
        a, v = self.a(i), self.a(add(i, 1))
        return b_and(self.interp(i), b_not(self.missing(i)),
                     b_or(b_and(self.exp(i), b_not(b_or(*[self.export(i, x) for x in ('html', 'man', 'ctd', 'cwl')]))),
                          b_and(eq(a, '--version-check'), b_not(b_or(*[eq(v, x) for x in ('0', '1', 'true', 'false')])))))

    def err(self, i):
        return b_or(self.bad_sub(i), self.missing(i), self.bad_value(i))

    def fwd(self, i):
        p = sub(i, 1)
        return ite(zb(self.st(i)), zb(b_or(self.opt(i), b_not(self.kw(i)))), zb(self.opt(p)))

    def newkind(self, i):
        a = self.a(i)
        K = lambda n: self.alts.index(D + n)
        r = zi(self.kind(i))
        for c, k in ((self.exp(i), ite(zb(self.export(i, 'html')), K('format_html'), ite(zb(self.export(i, 'man')), K('format_man'), K('format_tdl')))),
                     (eq(a, '--copyright'), K('format_copyright')), (eq(a, '--version'), K('format_version')),
                     (b_or(*[eq(a, x) for x in ('-h', '--help', '-hh', '--advanced-help')]), K('format_help'))):
            r = ite(zb(c), k, r)
        return ite(zb(b_and(self.st(i), b_not(self.opt(i)))), r, self.kind(i))

    def step(self, i):
        n = add(i, 1)
        a, v = self.a(i), self.a(n)
        dec = b_and(self.st(i), b_not(self.opt(i)), eq(a, '--version-check'))
        hlp = b_and(self.st(i), b_not(self.opt(i)), b_or(*[eq(a, x) for x in ('-h', '--help', '-hh', '--advanced-help')]))
        return b_and(b_iff(zb(self.st(n)), zb(b_not(b_and(self.st(i), self.two(i))))),
                     eq(self.cnt(n), add(self.cnt(i), ite(self.fwd(i), 1, 0))),
                     eq(self.kind(n), self.newkind(i)),
                     b_iff(zb(self.adv(n)), ite(zb(hlp), zb(b_or(eq(a, '-hh'), eq(a, '--advanced-help'))), zb(self.adv(i)))),
                     b_iff(zb(self.dh(n)), zb(b_or(self.dh(i), dec))),
                     b_iff(zb(self.dv(n)), ite(zb(dec), zb(b_or(eq(v, '1'), eq(v, 'true'))), zb(self.dv(i)))))


def adv_of(v):
    x = v.val
    if isinstance(x, Struct) and 'show_advanced_options' in x.fields:
        return x.fields['show_advanced_options']
    return False


def scan_loop(ctx):
    ex = ctx.ex
    C = getattr(ex, 'cur_call', None)
    if C is None or 'scan' not in C.x:
        return
    s = C.x['scan']
    args = C.f('arguments')
    for nm, ty, l in ctx.locals():
        try:
            e = ex.load_in(ctx.entry, l)
        except Unsupported:
            continue
        if not isinstance(e, Iter) or e.loc.key() != args.key() or l.key() not in ctx.info.mod:
            continue

        def pos(c, l=l):
            i = add(ex.load(l).idx, 1)
            ex.reg_idx(i)
            ex.reg_idx(sub(i, 1))
            return i
        yield 'scan: at a head', lambda c, pos=pos: s.st(pos(c))
        yield 'scan: inside', lambda c, pos=pos: [le(1, pos(c)), le(pos(c), s.N)]
        yield 'scan: not stopped', lambda c, pos=pos: All(1, pos(c), lambda j: b_not(s.stops(j)), only=position)
        yield 'scan: no error', lambda c, pos=pos: All(1, pos(c), lambda j: b_not(s.err(j)), only=position)
        yield 'scan: number forwarded', lambda c, pos=pos: eq(ex.load(C.f('format_arguments')).len, s.cnt(pos(c)))
        yield 'scan: order', lambda c, pos=pos: All(1, pos(c), lambda j: b_and(le(0, s.cnt(j)), le(add(s.cnt(j), ite(s.fwd(j), 1, 0)), s.cnt(pos(c)))), only=position)
        yield 'scan: forwarded', lambda c, pos=pos: All(1, pos(c), lambda j: b_imp(s.fwd(j), eq(ex.elem_at(ex.load(C.f('format_arguments')), s.cnt(j)), s.a(j))), only=position)
        yield 'scan: page', lambda c, pos=pos: eq(ex.load(C.f('format')).idx, s.kind(pos(c)))
        yield 'scan: page advanced', lambda c, pos=pos: b_imp(eq(s.kind(pos(c)), s.alts.index(D + 'format_help')), b_iff(zb(adv_of(ex.load(C.f('format')))), zb(s.adv(pos(c)))))
        yield 'scan: decision', lambda c, pos=pos: [b_iff(zb(ex.load(C.f('version_check_user_decision')).has), zb(s.dh(pos(c)))),
                                                    b_imp(s.dh(pos(c)), b_iff(zb(dval(ex.load(C.f('version_check_user_decision')))), zb(s.dv(pos(c)))))]


def dval(o):
    return o.val if o.val is not None else False


def havoc_variant(ex, v, name):
    k = ex.fresh(name + '_kind', I)
    ex.assume(z3.And(k >= 0, k < len(v.alts)))
    return Variant(v.alts, k, Struct('ghost page', {'show_advanced_options': ex.fresh(name + '_advanced', B)}))


def terminal_width(ex):
    """assumed: the terminal has some width"""
    def width(ex, fn, this, args, node):
        ex.trusted.add('sharg::detail::get_terminal_width (ioctl): any unsigned number')
        return ex.sym('unsigned int', 'terminal_width')
    for f in ex.prog.functions('sharg::detail::get_terminal_width'):
        ex.contracts[f['id']] = width


@spec
class determine_format(Spec):
    """C13, C14"""
    name = 'determine_format'
    q = P + '::determine_format_and_subcommand'
    templates = (scan_loop,)
    budget = 280
    par = True
    feas_tmo = 700

    def setup(self, ex, fn):
        this = parser_state(ex)
        alts = variant_alts(ex)
        ex.write(this.f('format'), Variant(alts, alts.index(SHORT), ex.sym(SHORT, 'short_help')))
        for n in ('format_arguments', 'executable_name'):
            v = ex.load(this.f(n))
            ex.write(this.f(n), ex.empty_vec(v.et))
        ex.write(this.f('sub_parser'), UPtr(None))
        ex.write(this.f('version_check_user_decision'), Opt(False, None, 'bool'))
        return this, []

    def proof_env(self, ex, fn):
        terminal_width(ex)

    def requires(self, C):
        return [('there is a program name', lt(0, C.old(C.f('arguments')).len)),
                ('-- is never a declared option', b_not(in_set(C.old(C.f('options')), '--')))]

    def prologue(self, C):
        ex = C.ex
        ex.ghost['havoc_variant'] = havoc_variant
        C.x['scan'] = Scan(ex, C.old(C.f('arguments')), C.old(C.f('options')), C.old(C.f('subcommands')), variant_alts(ex), C.old(C.f('version_check_user_decision')))

    def ensures(self, C):
        ex = C.ex
        s = C.x['scan']
        for n in ('arguments', 'options', 'subcommands', 'used_ids', 'parse_was_called', 'version_check_dev_decision', 'info'):
            yield 'C13 %s unchanged' % n, ex.same(C.old(C.f(n)), C.new(C.f(n)))
        if C.threw():
            at = lambda p: b_or(*[b_and(le(1, j), lt(j, s.N), p(j)) for j in list(ex.idx_terms)])
            t = C.exc.type
            if t == 'sharg::user_input_error':
                yield 'C14 a user error only for an unknown subcommand', at(s.bad_sub)
            elif t == 'sharg::too_few_arguments':
                yield 'C13 too few arguments only for a keyword without value', at(s.missing)
            elif t == 'sharg::validation_error':
                yield 'C13 a validation error only for an unsupported value', at(s.bad_value)
            else:
                yield 'C13 no other error', False
            return
        yield 'C13 returns', C.returned
        N = s.N
        e = ex.fresh('stop', I)
        ex.assume([le(1, e), le(e, N), All(1, e, lambda j: b_not(s.stops(j))), b_imp(lt(e, N), s.stops(e))])
        ex.reg_idx(e)
        ex.reg_idx(sub(e, 1))
        fa = C.new(C.f('format_arguments'))
        term = b_and(lt(e, N), s.nosub)
        yield 'C13 every unsupported or incomplete keyword is rejected', All(1, e, lambda j: b_not(b_or(s.missing(j), s.bad_value(j))))
        yield 'C14 every unknown subcommand is rejected', All(1, e, lambda j: b_not(s.bad_sub(j)))
        yield 'C13 every other argument is forwarded, in order', All(1, e, lambda j: ex.hint(s.cnt(j)) and b_imp(s.fwd(j), eq(ex.elem_at(fa, s.cnt(j)), s.a(j))))
        yield 'C13 everything from the terminator on is forwarded', All(e, N, lambda j: ex.hint(add(s.cnt(e), sub(j, e))) and ex.hint(sub(j, e)) and b_imp(term, eq(ex.elem_at(fa, add(s.cnt(e), sub(j, e))), s.a(j))))
        yield 'C13 nothing else is forwarded', eq(fa.len, add(s.cnt(e), ite(zb(term), sub(N, e), 0)))
        fmt = C.new(C.f('format'))
        sp = C.new(C.f('sub_parser'))
        k0 = s.alts.index(SHORT)
        kp = s.alts.index(D + 'format_parse')
        yield 'C13 the last keyword selects the page', b_imp(b_not(eq(s.kind(e), k0)), b_and(eq(fmt.idx, s.kind(e)), b_imp(eq(s.kind(e), s.alts.index(D + 'format_help')), b_iff(zb(adv_of(fmt)), zb(s.adv(e))))))
        yield 'C13 options are parsed exactly when no page is selected and something is left', \
            b_imp(eq(s.kind(e), k0), eq(fmt.idx, ite(zb(b_or(lt(0, fa.len), sp.loc is not None)), kp, k0)))
        if isinstance(fmt.idx, int) and fmt.idx == kp:
            v = fmt.val.fields['arguments']
            yield 'C13 option parsing gets what was forwarded', b_and(eq(v.len, fa.len), All0(ex, v, fa))
        yield 'C19 the decision of the user is the last one given', b_and(b_iff(zb(C.new(C.f('version_check_user_decision')).has), zb(s.dh(e))),
                                                                        b_imp(s.dh(e), b_iff(zb(dval(C.new(C.f('version_check_user_decision')))), zb(s.dv(e)))))
        yield 'C13 the update check switch is the last one given', b_and(b_iff(zb(C.new(C.f('version_check_user_decision')).has), zb(s.dh(e))),
                                                                      b_imp(s.dh(e), b_iff(zb(dval(C.new(C.f('version_check_user_decision')))), zb(s.dv(e)))))
        yield 'C14 a subcommand is given exactly when there is a sub-parser', b_iff(zb(b_and(lt(e, N), b_not(s.nosub))), sp.loc is not None)
        if sp.loc is not None:
            sa = C.new(sp.loc.f('arguments'))
            yield 'C14 the sub-parser gets the subcommand and everything behind', eq(sa.len, sub(N, e))
            yield 'C14 the sub-parser gets it unchanged', All(0, sa.len, lambda j: eq(ex.elem_at(sa, j), s.a(add(e, j))))
            yield 'C14 the sub-parser is named after the subcommand', eq(C.new(sp.loc.f('info').f('app_name')), s_cat(C.old(C.f('info', 'app_name')), '-', s.a(e)))
            yield 'C19 the sub-parser does not notify', eq(C.new(sp.loc.f('version_check_dev_decision')), OFF(ex))
            yield 'C14 the sub-parser does not notify', eq(C.new(sp.loc.f('version_check_dev_decision')), OFF(ex))
            yield 'C14 the sub-parser is not yet parsed', b_not(C.new(sp.loc.f('parse_was_called')))
            yield 'C14 the sub-parser has no subcommands', eq(C.new(sp.loc.f('subcommands')).len, 0)


def All0(ex, a, b):
    return z3.And(zi(a.len) == zi(b.len), a.arr == b.arr) if not a.arr.eq(b.arr) else True


def OFF(ex):
    return 1


@spec
class add_subcommands(Spec):
    """C14: sorted, unique, nothing lost"""
    name = 'add_subcommands'
    q = P + '::add_subcommands'
    throws = (DESIGN,)

    def effects(self, C):
        C.ex.write(C.f('subcommands'), C.ex.sym('std::vector<std::string>', 'subcommands'))

    def setup(self, ex, fn):
        return parser_state(ex), [self.sym_arg(ex, p) for p in fn['params']]

    def ensures(self, C):
        ex = C.ex
        called = C.old(C.f('parse_was_called'))
        if C.threw():
            yield 'C11 rejected with a design error', C.threw(DESIGN)
            yield 'C11 rejected only after parse', called
            yield 'C11 subcommands unchanged', True if C.applied else ex.same(C.old(C.f('subcommands')), C.new(C.f('subcommands')))
            return
        yield 'C11 rejected after parse', b_not(called)
        o, g, n = C.old(C.f('subcommands')), C.oldarg(0), C.new(C.f('subcommands'))
        strict = lambda i: zs(ex.elem_at(n, i)) < zs(ex.elem_at(n, add(i, 1)))
        yield 'C14 sorted and without duplicates', All(0, sub(n.len, 1), lambda i: ex.hint(add(i, 1)) and strict(i))
        if C.applied:
            return
        def among(v, x, marks, shift=0):
            ts = [j for j in list(ex.idx_terms) if all(m in str(j) for m in marks)] or list(ex.idx_terms)
            ts = [sub(j, shift) for j in ts]
            return b_or(*[b_and(le(0, j), lt(j, v.len), eq(ex.elem_at(v, j), x)) for j in ts])
        for v, what, shift in ((o, 'old', 0), (g, 'given', o.len)):
            k = ex.fresh('pos_' + what, I)
            ex.reg_idx(k)
            ex.reg_idx(add(k, shift))
            yield 'C14 every %s subcommand is registered' % what, b_imp(b_and(le(0, k), lt(k, v.len)), among(n, ex.elem_at(v, k), ('wit_uto', 'pos_' + what)))
        k = ex.fresh('pos_new', I)
        ex.reg_idx(k)
        m = ('wit_from', 'wit_ufrom', 'pos_new')
        x = ex.elem_at(n, k)
        yield 'C14 no other name is registered', b_imp(b_and(le(0, k), lt(k, n.len)), b_or(among(o, x, m), among(g, x, m, o.len)))
        for f in ('used_ids', 'options', 'operations', 'parse_was_called', 'arguments'):
            yield 'C11 %s unchanged' % f, ex.same(C.old(C.f(f)), C.new(C.f(f)))
