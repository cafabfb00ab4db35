"""Contracts of sharg::parser::parse and the constructors (C10, C11, C20)."""
import z3
from cxv.vals import *
from cxv.spec import Spec, spec, REG
from contracts.scan import terminal_width
from contracts.registration import P, DESIGN, BUILTIN, variant_alts, parser_state, in_set

GHOST = Loc(('ghost life',))


def stage(ex):
    return ex.load(GHOST.f('stage'))


APP = z3.Plus(z3.Union(z3.Range('a', 'z'), z3.Range('A', 'Z'), z3.Range('0', '9'), z3.Re('_'), z3.Re('-')))


def name_ok(s):
    return z3.InRe(zs(s), APP)


def ops_loop(ctx):
    """for (auto & operation : operations): the i-th iteration is at the i-th operation"""
    ex = ctx.ex
    C = getattr(ex, 'cur_call', None)
    if C is None or 'life' not in C.x or getattr(ctx.info, 'fnseq', None) is None:
        return
    for nm, ty, l in ctx.locals():
        if ty == '__fnidx':
            yield 'as many applied as passed', lambda c, l=l: eq(ex.load(GHOST.f('applied')), ex.load(l))
            yield 'position', lambda c, l=l: b_and(le(0, ex.load(l)), le(ex.load(l), C.x['n']))
            yield 'still applying', lambda c: eq(stage(ex), 2)
            yield 'still parsed', lambda c: ex.load(C.f('parse_was_called'))


@spec
class parser_parse(Spec):
    """C11: the life cycle of one parser"""
    name = 'parser_parse'
    q = P + '::parse'
    templates = (ops_loop,)

    def setup(self, ex, fn):
        this = parser_state(ex)
        ex.new_root(GHOST.root, 'ghost life', Struct('ghost life', {'stage': 0, 'applied': 0}))
        return this, []

    def prologue(self, C):
        ex = C.ex
        C.x['life'] = True
        v = C.old(C.f('operations'))
        C.x['n'] = z3.Length(v.base)
        called = C.f('parse_was_called')

        def next_stage(k, name, act, may):
            """an abstract step: it must happen in this order and only once, after the parser was marked as parsed"""
            def h(ex, fn, this, args, node):
                ex.trusted_steps.add(name) if hasattr(ex, 'trusted_steps') else None
                ex.oblige('%s comes in its place' % name, eq(stage(ex), k), 'post')
                ex.oblige('the parser is marked before %s' % name, ex.load(called), 'post')
                if k == 2:
                    ex.oblige('every declaration was applied', eq(ex.load(GHOST.f('applied')), C.x['n']), 'post')
                ex.write(GHOST.f('stage'), k + 1)
                act(C, may)
                o = ex.choose(1 + len(may), name)
                if o:
                    raise CxxThrow(ExcVal(may[o - 1], ex.fresh('msg', S)))
                return None
            return h

        def nothing(C, may):
            pass

        def some_format(C, may):
            parser_effect(C.ex, C.this)

        user = ('sharg::user_input_error', 'sharg::too_few_arguments', 'sharg::validation_error')
        for q, k, name, act, may in ((P + '::verify_app_and_subcommand_names', 0, 'checking the names', nothing, (DESIGN,)),
                                     (P + '::determine_format_and_subcommand', 1, 'scanning the arguments', some_format, user),
                                     (P + '::run_version_check', 2, 'the update check', nothing, ()),
                                     (P + '::parse_format', 3, 'parsing the options', nothing, user + ('sharg::unknown_option', 'sharg::too_many_arguments', 'sharg::required_option_missing', 'sharg::option_declared_multiple_times'))):
            fs = ex.prog.functions(q)
            if not fs:
                raise Unsupported('function %s is gone' % q)
            for f in fs:
                h = next_stage(k, name, act, may)
                ex.contracts[f['id']] = (lambda h: lambda ex, fn, this, args, node: h(ex, fn, this, args, node))(h)

        def op(ex, f, args):
            first = eq(stage(ex), 2)
            ex.oblige('declarations are applied after the scan and before the update check', first, 'post')
            ex.oblige('the declarations are applied in order, each once', eq(f.term, v.base[zi(ex.load(GHOST.f('applied')))]), 'post')
            ex.write(GHOST.f('applied'), add(ex.load(GHOST.f('applied')), 1))
            if ex.choose(2, 'operation'):
                raise CxxThrow(ExcVal('sharg::user_input_error', ex.fresh('msg', S)))
            return None
        ex.ghost['call_opaque'] = op

    def ensures(self, C):
        ex = C.ex
        called = C.old(C.f('parse_was_called'))
        yield 'C11 parsed afterwards, whatever happens', C.new(C.f('parse_was_called'))
        if C.threw(DESIGN) and eq(stage(ex), 0) is True:
            yield 'C11 rejected only when parsed before', called
            for n in [f['name'] for f in ex.prog.all_fields(P)]:
                yield 'C11 %s unchanged' % n, ex.same(C.old(C.f(n)), C.new(C.f(n)))
            return
        yield 'C11 a second parse is rejected', b_not(called)
        if C.threw():
            return
        yield 'C11 every step was taken', eq(stage(ex), 4)
        parse = eq(C.new(C.f('format')).idx, variant_alts(ex).index('sharg::detail::format_parse'))
        if C.returned:
            yield 'C13 the program continues only after options were parsed', parse
        else:
            yield 'C13 the program ends only behind a page', b_not(parse)
            yield 'C13 it ends with success', C.out == 'exit' and eq(C.ex.exit_code if hasattr(C.ex, 'exit_code') else 0, 0)


def k_of(ex):
    return ex.load(GHOST.f('stage'))


def parser_effect(ex, this):
    """what the scan may change (its own contract: determine_format)"""
    alts = variant_alts(ex)
    k = ex.fresh('format_kind', I)
    ex.assume(z3.And(k >= 0, k < len(alts)))
    ex.write(this.f('format'), Variant(alts, k, None))
    ex.write(this.f('format_arguments'), ex.sym('std::vector<std::string>', 'format_arguments'))


def names_loop(ctx):
    """for (auto & sub : subcommands): every name passed is harmless"""
    ex = ctx.ex
    C = getattr(ex, 'cur_call', None)
    for nm, ty, l in ctx.locals():
        try:
            e = ex.load_in(ctx.entry, l)
        except Unsupported:
            continue
        if isinstance(e, Iter) and e.loc.key() == C.f('subcommands').key():
            yield 'every name passed is harmless', lambda c, l=l: All(0, ex.load(l).idx, lambda j: name_ok(ex.elem_at(C.old(C.f('subcommands')), j)))


@spec
class verify_names(Spec):
    """C20: nothing but names of letters, digits, _ and - gets past the start of parse"""
    name = 'verify_names'
    templates = (names_loop,)
    q = P + '::verify_app_and_subcommand_names'
    throws = (DESIGN,)

    def setup(self, ex, fn):
        this = parser_state(ex)
        # class invariant, established by parser_ctor: the pattern describes the harmless names
        ex.write(this.f('app_name_regex'), Regex('^[a-zA-Z0-9_-]+$'))
        return this, []

    def ensures(self, C):
        ex = C.ex
        subs = C.old(C.f('subcommands'))
        app = C.old(C.f('info').f('app_name'))
        if C.threw():
            yield 'C20 rejected with a design error', C.threw(DESIGN)
            yield 'C20 rejected only for a bad name', b_or(b_not(name_ok(app)), *[b_and(le(0, j), lt(j, subs.len), b_not(name_ok(ex.elem_at(subs, j)))) for j in list(ex.idx_terms)])
        else:
            yield 'returns', C.returned
            yield 'C20 the application name is harmless', name_ok(app)
            yield 'C20 every subcommand name is harmless', All(0, subs.len, lambda j: name_ok(ex.elem_at(subs, j)))
        for n in ('info', 'subcommands', 'arguments'):
            yield 'C20 %s unchanged' % n, ex.same(C.old(C.f(n)), C.new(C.f(n)))



@spec
class parser_ctor(Spec):
    """C10, C11, C20: a new parser"""
    name = 'parser_ctor'
    q = P + '::parser'
    uses = ('add_subcommands',)

    def accept(self, prog, fn):
        return len(fn['params']) in (4, 5)

    def proof_env(self, ex, fn):
        terminal_width(ex)

    def setup(self, ex, fn):
        this = ex.new_root(('this',), P, Struct(P, {f['name']: None for f in ex.prog.all_fields(P)}))
        return this, [self.sym_arg(ex, p) if '*' not in p['type'] else ex.new_root(('arg', 'argv', p['id']), 'argv', Opaque('argv', (ex.sym('std::vector<std::string>', 'argv'), 0))) for p in fn['params']]

    def requires(self, C):
        if len(C.args) == 5:
            return [('argc is the number of argv entries', eq(C.oldarg(1), C.oldarg(2).info[0].len))]
        return []

    def ensures(self, C):
        ex = C.ex
        yield 'returns', C.returned
        if not C.returned:
            return
        used, opts = C.new(C.f('used_ids')), C.new(C.f('options'))
        x = ex.fresh('any_id', S)
        yield 'C10 exactly the built-in keywords are taken', in_set(used, x) == z3.Or(*[zs(x) == str_val(k) for k in BUILTIN])
        yield 'C13 no option is declared', b_not(in_set(opts, x))
        ops = C.new(C.f('operations'))
        yield 'C11 nothing is declared', ops.base is None and not ops.items
        yield 'C11 not yet parsed', b_not(C.new(C.f('parse_was_called')))
        yield 'C11 no sub-parser', C.new(C.f('sub_parser')).loc is None
        yield 'C10 no list positional', b_not(C.new(C.f('has_positional_list_option')))
        yield 'C13 the short help is the default page', eq(C.new(C.f('format')).idx, variant_alts(ex).index('sharg::detail::format_short_help'))
        yield 'C20 the program name is kept', eq(C.new(C.f('info').f('app_name')), C.oldarg(0))
        given = C.oldarg(1) if len(C.args) == 4 else C.oldarg(2).info[0]
        A = C.new(C.f('arguments'))
        yield 'C13 the arguments are kept', b_and(eq(A.len, given.len), A.arr == given.arr if not A.arr.eq(given.arr) else True)
        yield 'C19 the developer decision is kept', eq(C.new(C.f('version_check_dev_decision')), C.oldarg(len(C.args) - 2))
        yield 'C19 the user has not decided', b_not(C.new(C.f('version_check_user_decision')).has)
        n, g = C.new(C.f('subcommands')), C.oldarg(len(C.args) - 1)
        yield 'C14 subcommands are sorted and unique', All(0, sub(n.len, 1), lambda i: ex.hint(add(i, 1)) and zs(ex.elem_at(n, i)) < zs(ex.elem_at(n, add(i, 1))))
        pat = C.new(C.f('app_name_regex')).pat
        t = ex.fresh('any_name', S)
        from cxv.regex import to_re
        r = to_re(pat) if isinstance(pat, str) else None
        yield 'C20 the name pattern describes the harmless names', False if r is None else z3.InRe(t, r) == name_ok(t)
