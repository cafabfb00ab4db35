"""Contracts of the update check (C19, C20, C21)."""
import re
import z3
from cxv.vals import *
from cxv.spec import Spec, spec, REG
from cxv.fs import *
from cxv.sysmodel import *
from cxv.lib import PJ, int_str
from cxv.regex import to_re
from contracts.lifecycle import name_ok
from contracts.registration import parser_state
from contracts.scan import dval

V = 'sharg::detail::version_checker'
D = z3.Range('0', '9')
DOT = z3.Re('.')
VRE = z3.Concat(z3.Plus(D), DOT, z3.Plus(D), DOT, z3.Plus(D))
VPAT = '^[[:digit:]]+\\.[[:digit:]]+\\.[[:digit:]]+$'
WELL = uf('well_formed_version', S, B)                    # the text matches VRE
HASPRE = uf('starts_with_version', S, B)                  # some beginning of the text matches VRE ...
PREFIX = uf('version_prefix', S, S)                       # ... the longest that does
VNUM = [uf('version_number_%d' % k, S, I) for k in range(3)]
DEC = uf('decimal_value', S, I, I, I)                     # (text, from, to)
IMAX = 2 ** 31 - 1


def digit(s, k):
    c = z3.StrToCode(zs(s_at(s, k)))
    return z3.And(c >= 48, c <= 57)


def released(ex):
    return ex.prog.variant == 'NDEBUG'


def regex_versions(ex, c, args, n):
    """std::regex_match against the version pattern: the named predicate of the contracts"""
    s, r = ex.as_str(args[0]), ex.V(args[1])
    if not isinstance(r, Regex) or not isinstance(r.pat, str) or to_re(r.pat) is None:
        return NotImplemented
    t = ex.fresh('any_text', S)
    if r.pat != VPAT:
        ex.oblige('the version pattern is digits.digits.digits', z3.InRe(t, to_re(r.pat)) == z3.InRe(t, VRE), 'post')
    ex.trusted.add('regex_match')
    return WELL(zs(s))


def regex_prefix(ex, c, args, n):
    """std::regex_search of an anchored pattern with one group"""
    s, r = ex.as_str(args[0]), ex.V(args[2])
    if not isinstance(r, Regex) or not isinstance(r.pat, str):
        return NotImplemented
    m = re.match(r'^\^\((.*)\)\.\*$', r.pat) or re.match(r'^\^\((.*)\)$', r.pat)
    ex.trusted.add('regex_search')
    if m is None or to_re(m.group(1)) is None or '(' in m.group(1):
        # some part of the text that matches the pattern
        g = ex.fresh('group', S)
        ex.assume(z3.Contains(zs(s), g))
        ex.write(args[1], Opaque('smatch', {1: g}))
        return ex.fresh('found', B)
    g = m.group(1)
    ok, pre = HASPRE(zs(s)), PREFIX(zs(s))
    if '^' + g + '$' == VPAT:
        ex.assume(z3.Implies(ok, WELL(pre)))
    else:
        ex.oblige('the version prefix is digits.digits.digits', (lambda t: z3.InRe(t, to_re(g)) == z3.InRe(t, VRE))(ex.fresh('any_text', S)), 'post')
        ex.assume(z3.Implies(ok, WELL(pre)))
    ex.write(args[1], Opaque('smatch', {1: pre}))
    return ok


def smatch_str(ex, c, args, n):
    o, k = ex.V(args[0]), ex.V(args[1]) if len(args) > 1 else 0
    if isinstance(o, Opaque) and o.type == 'smatch' and isinstance(o.info, dict) and k in o.info:
        return o.info[k]
    return NotImplemented


def checker_state(ex):
    """a version_checker as its constructor leaves it (version_checker_ctor)"""
    this = ex.new_root(('this',), V, ex.sym(V, 'this'))
    ex.write(this.f('version_regex'), Regex(VPAT))
    return this


def cerr(ex):
    o = ex.store.get(('g', 'cerr'))
    return o.fields['buf'] if o is not None else ''


class vspec(Spec):
    def proof_env(self, ex, fn):
        ex.libover['regex_match'] = regex_versions
        ex.libover['regex_search'] = regex_prefix
        ex.libover['match_results::str'] = smatch_str


# ------------------------------------------------------------------------------------------------ C21: version numbers
@spec
class vc_numbers(vspec):
    """digits.digits.digits is read as its three numbers, anything else as 0.0.0"""
    name = 'version_numbers'
    q = V + '::get_numbers_from_version_string'

    def setup(self, ex, fn):
        return checker_state(ex), [ex.new_root(('arg', 'str'), 'std::string', ex.sym('std::string', 'str'))]

    def prologue(self, C):
        ex = C.ex
        ex.ghost['fc_digits'] = (digit, DEC)
        s = C.oldarg(0)
        i, j = ex.fresh('first_dot', I), ex.fresh('second_dot', I)
        C.x['dots'] = i, j
        w = WELL(zs(s))
        n = s_len(s)
        # what the pattern says
        ex.assume(z3.Implies(w, z3.And(0 < i, i + 1 < j, j + 1 < zi(n), zs(s_at(s, i)) == '.', zs(s_at(s, j)) == '.')))
        for lo, hi in ((0, i), (i + 1, j), (j + 1, n)):
            ex.assume(All(lo, hi, lambda k: b_imp(w, digit(s, k))))
        for k in (0, i, j, i + 1, j + 1, n, sub(n, i + 1), sub(n, j + 1), j - i - 1):
            ex.reg_idx(k)

    def result(self, C):
        ex = C.ex
        s = zs(C.oldarg(0))
        a = z3.K(I, z3.IntVal(0))
        for k in range(3):
            a = z3.Store(a, k, VNUM[k](s))
            ex.assume(z3.And(VNUM[k](s) >= 0, VNUM[k](s) <= IMAX))
        return Vec('int', a, 3)

    def ensures(self, C):
        if C.applied:
            yield '', C.returned
            return
        ex = C.ex
        s = C.oldarg(0)
        yield 'returns', C.returned
        if not C.returned:
            return
        r = C.ret
        yield 'the text is not modified', eq(C.newarg(0), s)
        yield 'three numbers', eq(r.len, 3)
        w = WELL(zs(s))
        i, j = C.x['dots']
        for k, (lo, hi) in enumerate(((0, i), (i + 1, j), (j + 1, s_len(s)))):
            v = DEC(zs(s), zi(lo), zi(hi))
            yield 'C21 anything else is read as 0.0.0', b_or(w, eq(ex.elem_at(r, k), 0))
            yield 'C21 number %d is the decimal value' % k, b_imp(b_and(w, le(v, IMAX)), eq(ex.elem_at(r, k), v))
            yield 'C21 a number that does not fit is not half read (%d)' % k, b_imp(b_and(w, lt(IMAX, v)), eq(ex.elem_at(r, k), 0))


# ------------------------------------------------------------------------------------------------ C20, C21: the checker
@spec
class vc_ctor(vspec):
    name = 'version_checker_ctor'
    q = V + '::version_checker'
    uses = ('get_path',)

    def accept(self, prog, fn):
        return len(fn['params']) == 3

    def setup(self, ex, fn):
        this = ex.new_root(('this',), V, Struct(V, {f['name']: None for f in ex.prog.all_fields(V)}))
        return this, [self.sym_arg(ex, p) for p in fn['params']]

    def requires(self, C):
        return [('the name is harmless', name_ok(C.oldarg(0)))]

    def proof_env(self, ex, fn):
        vspec.proof_env(self, ex, fn)
        ex.libover['regex_match'] = lambda ex, c, args, n: NotImplemented

    def ensures(self, C):
        ex = C.ex
        yield 'returns', C.returned
        if not C.returned:
            return
        name, given = C.oldarg(0), C.oldarg(1)
        ver = C.new(C.f('version'))
        yield 'C20 the name is kept', eq(C.new(C.f('name')), name)
        yield 'C20 the version is well formed', True if ver == '0.0.0' else WELL(zs(ver)) if is_z3(ver) else False
        # an empty text starts with no version
        has = z3.And(HASPRE(zs(given)), zs(given) != '')
        yield 'C21 the version is the one given', b_and(b_imp(has, eq(ver, PREFIX(zs(given)))), b_or(has, eq(ver, '0.0.0')))
        pat = C.new(C.f('version_regex')).pat
        t = ex.fresh('any_text', S)
        yield 'C21 the version pattern is digits.digits.digits', False if not isinstance(pat, str) or to_re(pat) is None else z3.InRe(t, to_re(pat)) == z3.InRe(t, VRE)
        p = C.new(C.f('cookie_path'))
        yield 'C19 the decision is stored with the application', eq(C.new(C.f('timestamp_filename')), ex.path_join(p, s_cat(name, '_usr.timestamp' if released(ex) else '_dev.timestamp')))
        m = C.new(C.f('message_app_update'))
        url = C.oldarg(2)
        yield 'C21 the update message names the url', b_and(b_not(eq(m, '')), b_or(eq(url, ''), z3.Contains(zs(m), zs(url))))


@spec
class get_path(vspec):
    name = 'get_path'
    q = V + '::get_path'

    def prologue(self, C):
        C.ex.ghost['fs_removal_ok'] = True       # what was just created can be removed

    def ensures(self, C):
        yield 'C19 no error, whatever the environment', C.returned


@spec
class call_server(vspec):
    name = 'call_server'
    q = 'sharg::detail::call_server'

    def setup(self, ex, fn):
        return None, [ex.new_root(('arg', 'command'), 'std::string', ex.sym('std::string', 'command')), ex.new_root(('arg', 'prom'), 'std::promise<bool>', Opaque('promise', 'p'))]

    def ensures(self, C):
        ex = C.ex
        cmd = C.oldarg(0)
        yield 'returns', C.returned
        cmds = ex.ghost.get('commands', ())
        yield 'C20 exactly the command is executed', b_and(len(cmds) == 1, *[eq(x, cmd) for x in cmds])
        pr = ex.ghost.get('promised', ())
        yield 'C21 the result is reported once', b_and(len(pr) == 1, *[b_iff(zb(lift(v)), SYS(zs(cmd)) == 0) for _, v in pr])


def version_of_sharg(ex):
    for q, g in ex.prog.globals.items():
        if q.endswith('sharg_version_cstring'):
            x = ex.as_str(ex.global_var({'q': q, 't': g['type']}))
            m = re.match(r'(\d+)\.(\d+)\.(\d+)', x)
            return [int(k) for k in m.groups()]
    raise Unsupported('the version of Sharg')


def static_text(ex, name):
    q = V + '::' + name
    g = ex.prog.globals[q]
    return ex.as_str(ex.global_var({'q': q, 't': g['type']}))


def less(a, b):
    out = False
    for x, y in reversed(list(zip(a, b))):
        out = b_or(lt(x, y), b_and(eq(x, y), out))
    return out


WGET, CURL = '/usr/bin/env -i wget --version > /dev/null 2>&1', '/usr/bin/env -i curl --version > /dev/null 2>&1'
URL = 'https://seqan-update.informatik.uni-tuebingen.de/check/SeqAn-Sharg_Linux_64_'


@spec
class vc_operator(vspec):
    name = 'version_check_operator'
    q = V + '::operator()'
    uses = ('version_numbers',)

    def setup(self, ex, fn):
        this = checker_state(ex)
        return this, [ex.new_root(('arg', 'prom'), 'std::promise<bool>', Opaque('promise', 'p'))]

    def requires(self, C):
        return [('the name is harmless', name_ok(C.old(C.f('name')))), ('the version is well formed', WELL(zs(C.old(C.f('version')))))]

    def ensures(self, C):
        ex = C.ex
        yield 'returns', C.returned
        name, ver, dirp = C.old(C.f('name')), C.old(C.f('version')), C.old(C.f('cookie_path'))
        P = ex.path_join(dirp, s_cat(name, '.version'))
        # ---- C21
        op = z3.And(K0(zs(P)) != 0, ROPEN(zs(P)))
        h0 = z3.And(op, HASLINE(zs(P), 0))
        h1 = z3.And(h0, z3.Not(LASTEOF(zs(P), 0)), HASLINE(zs(P), 1))
        l1 = z3.If(h0, LINE(zs(P), 0), z3.StringVal(''))
        l2 = LINE(zs(P), 1)
        unreg = z3.And(h0, l1 == z3.StringVal(static_text(ex, 'unregistered_app')))
        app = [z3.If(z3.Or(z3.Not(op), unreg), 0, f(l1)) for f in VNUM]
        sharg = [z3.If(h1, f(l2), 0) for f in VNUM]
        me = [f(zs(ver)) for f in VNUM]
        zero = lambda v: z3.And(*[x == 0 for x in v])
        # the numbers of the empty text
        ex.assume(z3.And(*[f(z3.StringVal('')) == 0 for f in VNUM]))
        msg = lambda c, t: z3.If(c, zs(t), z3.StringVal(''))
        if released(ex):
            want = [msg(b_and(b_not(zero(app)), less(me, app)), C.old(C.f('message_app_update')))]
        else:
            want = [msg(unreg, static_text(ex, 'message_unregistered_app')),
                    msg(b_and(b_not(zero(sharg)), less(version_of_sharg(ex), sharg)), static_text(ex, 'message_sharg_update')),
                    msg(b_and(b_not(zero(app)), less(app, me)), static_text(ex, 'message_registered_app_update'))]
        yield 'C21 exactly the notifications that are due', eq(cerr(ex), z3.Concat(*want) if len(want) > 1 else want[0])
        # ---- C20
        yield 'C20 only the look-up of the programs is executed at once', all(x in (WGET, CURL) for x in ex.ghost.get('commands', ()))
        th = ex.ghost.get('threads', ())
        wget, curl = SYS(z3.StringVal(WGET)) == 0, SYS(z3.StringVal(CURL)) == 0
        prog = z3.If(wget, z3.StringVal('/usr/bin/env -i wget --timeout=10 --tries=1 -q -O'), z3.StringVal('/usr/bin/env -i curl --connect-timeout 10 -o'))
        if th:
            yield 'C20 one command, for call_server', b_and(len(th) == 1, th[0][0] == 'sharg::detail::call_server', len(th[0][1]) == 2)
            yield 'C20 nothing but the name and the version get into the command', eq(th[0][1][0], s_cat(prog, ' ', P, ' ', URL, name, '_', ver, ' > /dev/null 2>&1'))
            yield 'C20 only if there is a program', z3.Or(wget, curl)
            pr = th[0][1][1]
            yield 'C21 the result is passed on', isinstance(pr, Opaque) and pr.info == 'p'
        else:
            yield 'C21 the look-up is made whenever there is a program', z3.And(z3.Not(wget), z3.Not(curl))
            yield 'C21 no program: reported as failed', [eq(v, False) for _, v in ex.ghost.get('promised', ())] == [True]


# ------------------------------------------------------------------------------------------------ C19
DAY = 86400


@spec
class decide(vspec):
    name = 'decide_if_check_is_performed'
    q = V + '::decide_if_check_is_performed'

    def setup(self, ex, fn):
        return checker_state(ex), [self.sym_arg(ex, p) for p in fn['params']]

    def requires(self, C):
        return [('the directory of get_path can be asked for its status', z3.Not(STAT_ERR(zs(C.old(C.f('cookie_path'))))))]

    def ensures(self, C):
        ex = C.ex
        ex.now()
        yield 'returns', C.returned
        if not C.returned:
            return
        r = zb(lift(C.ret))
        dev, user = C.oldarg(0), C.oldarg(1)
        T, dirp = C.old(C.f('timestamp_filename')), C.old(C.f('cookie_path'))
        off = eq(dev, off_value(ex))
        env = z3.Not(z3.Const('env_unset_SHARG_NO_VERSION_CHECK', B))
        has = lift(user.has)
        op = z3.And(K0(zs(dirp)) != 0, K0(zs(T)) != 0, ROPEN(zs(T)))
        h0 = z3.And(op, HASLINE(zs(T), 0))
        end = z3.And(h0, LASTEOF(zs(T), 0))
        h1 = z3.And(h0, z3.Not(LASTEOF(zs(T), 0)), HASLINE(zs(T), 1))
        l1 = z3.If(h0, LINE(zs(T), 0), z3.StringVal(''))
        # the stored decision is the last line that was read
        l2 = z3.If(h1, LINE(zs(T), 1), z3.If(end, l1, z3.StringVal('')))
        stamp = z3.If(uf('FC_ec_double', S, I)(l1) == 0, uf('FC_val_double', S, F64)(l1), z3.FPVal(0.0, F64))
        fresh = z3.And(op, z3.fpLT(z3.fpSub(z3.RNE(), NOWD, stamp), z3.FPVal(float(DAY), F64)))
        first = z3.And(z3.Not(off), z3.Not(env))
        never = z3.And(op, z3.Not(fresh), l2 == z3.StringVal('NEVER'))
        always = z3.And(op, z3.Not(fresh), l2 == z3.StringVal('ALWAYS'))
        open_ = z3.And(first, z3.Not(has), z3.Not(fresh), z3.Not(never), z3.Not(always))
        tty = z3.And(z3.Const('isatty_0', I) != 0, z3.Const('isatty_2', I) != 0)
        key = z3.If(z3.And(HASIN, INLINE != ''), z3.SubString(INLINE, 0, 1), z3.StringVal('s'))
        yes = z3.Or(key == 'y', key == 'a')
        yield 'C19 never when the developer switched it off', z3.Implies(off, z3.Not(r))
        yield 'C19 never when the environment forbids it', z3.Implies(env, z3.Not(r))
        yield 'C19 then the decision of the command line', z3.Implies(z3.And(first, has), r == zb(lift(dval(user))))
        yield 'C19 then not within a day', z3.Implies(z3.And(first, z3.Not(has), fresh), z3.Not(r))
        yield 'C19 then the stored NEVER', z3.Implies(z3.And(first, z3.Not(has), never), z3.Not(r))
        yield 'C19 then the stored ALWAYS', z3.Implies(z3.And(first, z3.Not(has), always), r)
        yield 'C19 declined without a terminal', z3.Implies(z3.And(open_, z3.Not(tty)), z3.Not(r))
        yield 'C19 the answer on the terminal', z3.Implies(z3.And(open_, tty), r == yes)
        # ---- what is remembered
        asked = bool(ex.ghost.get('asked'))
        yield 'C19 the user is asked only then', z3.Implies(z3.BoolVal(asked), z3.And(open_, tty))
        yield 'C19 the user is asked then', z3.Implies(z3.And(open_, tty), z3.BoolVal(asked and cerr(ex) != ''))
        w = ex.ghost.get('written', {})
        last = w[max(w)] if w else None
        yield 'C19 nothing but the decision is written', b_and(*[eq(p, T) for p, _ in w.values()])
        yield 'C19 nothing is remembered otherwise', z3.Implies(z3.Not(open_), z3.BoolVal(not w))
        word = z3.If(z3.And(tty, key == 'a'), z3.StringVal('ALWAYS'), z3.If(z3.And(tty, key == 'n'), z3.StringVal('NEVER'), z3.StringVal('ASK')))
        can = WOPEN(zs(T))
        yield 'C19 the decision is remembered with the time', z3.Implies(z3.And(open_, can), False if last is None else eq(last[1], s_cat(int_str(NOW), '\n', word)))


def off_value(ex):
    from contracts.scan import OFF
    return OFF(ex)


@spec
class run_vc(vspec):
    """the checker is called only with consent, with the data of the application"""
    name = 'run_version_check'
    q = 'sharg::parser::run_version_check'

    def setup(self, ex, fn):
        return parser_state(ex), []

    def requires(self, C):
        # established by verify_app_and_subcommand_names, which parse calls first (parser_parse)
        return [('the names were checked', name_ok(C.old(C.f('info').f('app_name'))))]

    def prologue(self, C):
        ex = C.ex
        info = C.f('info')
        C.x['decided'], C.x['calls'], C.x['made'] = [], 0, []

        def known(ex, this):
            return b_or(*[eq(ex.load(this.f('timestamp_filename')), x) for x in C.x['made']])

        def made(ex, fn, this, args, node):
            ex.oblige('C20 the checker gets the checked name', eq(ex.V(args[0]), C.old(info.f('app_name'))), 'post')
            ex.oblige('C21 the checker gets the version of the application', eq(ex.V(args[1]), C.old(info.f('version'))), 'post')
            ex.oblige('C21 the checker gets the url of the application', eq(ex.V(args[2]), C.old(info.f('url'))), 'post')
            x = ex.sym(V, 'checker')
            ex.write(this, x)
            C.x['made'].append(x.fields['timestamp_filename'])
            return None

        def asked(ex, fn, this, args, node):
            ex.oblige('C19 the checker decides', known(ex, this), 'post')
            ex.oblige('C19 the decision of the developer is asked', eq(ex.V(args[0]), C.old(C.f('version_check_dev_decision'))), 'post')
            u, o = ex.V(args[1]), C.old(C.f('version_check_user_decision'))
            ex.oblige('C19 the decision of the user is asked', b_and(b_iff(zb(lift(u.has)), zb(lift(o.has))), b_imp(o.has, eq(dval(u), dval(o)))), 'post')
            r = ex.fresh('consent', B)
            C.x['decided'].append(r)
            return r

        def called(ex, fn, this, args, node):
            ex.oblige('C19 consent was given', b_or(*C.x['decided']), 'post')
            ex.oblige('C19 the same checker is called', known(ex, this), 'post')
            ex.oblige('C21 the result is awaited', eq(ex.V(args[0]).info, ex.load(C.f('version_check_future')).info), 'post')
            C.x['calls'] += 1
            return None
        for q, h in ((V + '::version_checker', made), (V + '::decide_if_check_is_performed', asked), (V + '::operator()', called)):
            fs = ex.prog.functions(q)
            if not fs:
                raise Unsupported('function %s is gone' % q)
            for f in fs:
                ex.contracts[f['id']] = h

    def ensures(self, C):
        ex = C.ex
        yield 'returns', C.returned
        yield 'C19 the decision is made once', len(C.x['decided']) == 1
        yield 'C21 the check is made exactly with consent', b_iff(zb(b_or(*C.x['decided'])), C.x['calls'] == 1)
        yield 'C19 never twice', C.x['calls'] <= 1
        yield 'C20 no command otherwise', not ex.ghost.get('commands') and not ex.ghost.get('threads')
