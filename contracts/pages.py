"""Contracts of the help page assembly (C22, C23)."""
import z3, json
from cxv.vals import *
from cxv.spec import Spec, spec, REG
from cxv.lib import int_str, NPOS
from contracts.help import *
from contracts.help import cat, sv

HB = D + 'format_help_base'
MSG = z3.Const('validator_message', S)
TYPES = {'signed char': 'signed 8 bit integer', 'unsigned char': 'unsigned 8 bit integer', 'short': 'signed 16 bit integer',
         'unsigned short': 'unsigned 16 bit integer', 'int': 'signed 32 bit integer', 'unsigned int': 'unsigned 32 bit integer',
         'long': 'signed 64 bit integer', 'unsigned long': 'unsigned 64 bit integer', 'double': 'double', 'float': 'float', 'bool': 'bool',
         'char': 'char', 'std::string': 'std::string', 'std::filesystem::path': 'std::filesystem::path'}
# ------------------------------------------------------------------ what a page consists of: calls of the printing functions of the format
EV = {'print_header': 0, 'print_footer': 0, 'print_section': 1, 'print_subsection': 1, 'print_list_item': 2, 'print_line': 2}
PAGE = ('g', 'page')


def event(kind, *a):
    """what the format prints for this call (the printing functions have contracts of their own)"""
    a = [zs(x) if isinstance(x, (str, z3.SeqRef)) else zb(x) for x in a]
    if not a:
        return z3.Const('page_' + kind, S)
    return uf('page_' + kind, *([x.sort() for x in a] + [S]))(*a)


def page(ex):
    return ex.store[PAGE].fields['buf']


def page_add(ex, x):
    o = ex.store[PAGE]
    ex.write(Loc(PAGE), o.with_('buf', s_cat(o.fields['buf'], x)))


def derived_class(fn):
    return fn['q'].split('format_help_base<')[1].split('>')[0]


def printing(ex):
    """calls of the printing functions of the format are recorded"""
    ex.new_root(PAGE, 'page', Struct('page', {'buf': ''}))
    for f in ex.prog.fn.values():
        q = f['q']
        k = q.rsplit('::', 1)[-1]
        if k in EV and q.startswith(D + 'format_') and 'format_help_base' not in q and len(f['params']) == EV[k]:
            def h(ex, fn, this, args, node, k=k):
                page_add(ex, event(k, *[ex.V(a) for a in args]))
                if 'format_html' in fn['q']:
                    if k == 'print_footer':
                        ex.oblige('C24 no list is open at the end of the page', b_not(ex.load(this.f('is_dl'))), 'pre')
                    ex.write(this.f('is_dl'), k == 'print_list_item')
                    ex.write(this.f('is_p'), b_not(ex.V(args[1])) if k == 'print_line' else False)
                elif 'format_help' in fn['q'] or 'format_man' in fn['q']:
                    for m in ('prev_was_paragraph', 'is_first_in_section'):
                        if m in ex.load(this).fields:
                            ex.write(this.f(m), ex.fresh(m, B))
                return None
            ex.contracts[f['id']] = h
        if k == 'get_help_page_message' and f.get('body'):
            ex.contracts[f['id']] = lambda ex, fn, this, args, node: MSG


BOLD, OFF = '\\fB', '\\fP'


def id_text(short_, long_):
    s, l = zs(short_), zs(long_)
    hs, hl = z3.Not(s == str_val('\0')), z3.Not(l == str_val(''))
    e = str_val('')
    return z3.Concat(z3.If(hs, cat(BOLD + '-', s, OFF), e), z3.If(z3.And(hs, hl), str_val(', '), e), z3.If(hl, cat(BOLD + '--', l, OFF), e))


def type_text(t):
    t = bare(t)
    lst = '::vector<' in t
    e = bare(t[t.index('<') + 1:].split(', std::allocator')[0]) if lst else t
    name = TYPES.get(e)
    name = str_val(name) if name else uf_typename(e)
    return cat('(\\fIList\\fP of \\fI', name, '\\fP)') if lst else cat('(\\fI', name, '\\fP)')


def uf_typename(t):
    """the name of any other type: what type_name_as_string (the demangler, trusted) says"""
    return z3.Const('typename_' + t, S)


@spec
class prep_id_for_help(Spec):
    name = 'prep_id_for_help'
    q = FB + 'prep_id_for_help'

    def ensures(self, C):
        yield 'returns', C.returned
        yield 'the identifiers that exist', eq(C.ret, id_text(C.oldarg(0), C.oldarg(1)))


class adds(Spec):
    """stores exactly one printer if and only if the entry is to be shown; the printer prints what is documented"""
    uses = ('get_default_message', 'prep_id_for_help', 'to_string')
    calls = 'parser_set_up_calls'
    budget = 60

    def accept(self, prog, fn):
        return bool(fn.get('body')) and 'vp::custom' not in str([p['type'] for p in fn['params']])

    def fns(self, prog):
        return [f for f in prog.fn.values() if f['q'].startswith(HB + '<') and f['q'].rsplit('::', 1)[-1] == self.member and self.accept(prog, f)]

    def proof_env(self, ex, fn):
        ex.libover['vp::any_validator::get_help_page_message'] = lambda ex, c, args, n: MSG
        for f in ex.prog.fn.values():
            if f['q'].startswith('std::operator<<') and len(f['params']) == 2 and f.get('body'):
                ex.contracts[f['id']] = enum_out

    def setup(self, ex, fn):
        printing(ex)
        d = derived_class(fn)
        this = ex.new_root(('this',), d, ex.sym(d, 'this'))
        return this, [self.sym_arg(ex, p) for p in fn['params']]

    def shown(self, C):
        raise NotImplementedError

    def entry(self, C):
        raise NotImplementedError

    def ensures(self, C):
        ex = C.ex
        yield 'returns', C.returned
        old, new = C.old(C.this), C.new(C.this)
        for k in old.fields:
            if k != self.calls:
                yield 'unchanged ' + k, ex.same(old.fields[k], new.fields[k])
        for i in range(len(C.args)):
            if isinstance(C.args[i], Loc):
                yield 'argument not modified', ex.same(C.oldarg(i), C.newarg(i))
        a, b = old.fields[self.calls], new.fields[self.calls]
        yield 'C22 the entries before are kept', isinstance(b, FnVec) and (a.base is b.base or (a.base is not None and a.base.eq(b.base))) and b.items[:len(a.items)] == a.items
        fresh = b.items[len(a.items):]
        yield 'C22 nothing is printed yet', page(ex) == ''
        yield 'C22 one entry exactly if it is to be shown', b_iff(zb(len(fresh) == 1), zb(self.shown(C))) if len(fresh) <= 1 else False
        if len(fresh) == 1:
            ex.call_value(fresh[0], [], {'_u': 999999})
            yield 'C23 what the entry shows', eq(page(ex), self.entry(C))


def config_shown(C):
    c = C.oldarg('config').fields
    return b_and(b_not(c['hidden']), b_or(b_not(c['advanced']), C.old(C.f('show_advanced_options'))))


def constraint(C):
    return z3.If(MSG == str_val(''), MSG, cat('. ', MSG))


def value_type(C):
    return bare(C.fn['params'][C.argi('value')]['type']) if hasattr(C, 'argi') else bare(next(p for p in C.fn['params'] if p['name'] == 'value')['type'])


@spec
class page_add_option(adds):
    name = 'page_add_option'
    member = 'add_option'

    def shown(self, C):
        return config_shown(C)

    def entry(self, C):
        ex = C.ex
        c = C.oldarg('config').fields
        t, v = value_type(C), C.oldarg('value')
        msg = c['default_message']
        own = default_text(ex, t, v, t)
        given = default_text(ex, t, msg, 'std::string')
        dflt = z3.If(zs(msg) == str_val(''), z3.If(zb(c['required']), str_val(''), own), given)
        return event('print_list_item', cat(id_text(c['short_id'], c['long_id']), ' ', type_text(t)), cat(c['description'], dflt, constraint(C)))


@spec
class page_add_flag(adds):
    name = 'page_add_flag'
    member = 'add_flag'

    def shown(self, C):
        return config_shown(C)

    def entry(self, C):
        c = C.oldarg('config').fields
        return event('print_list_item', id_text(c['short_id'], c['long_id']), c['description'])


@spec
class page_add_positional(adds):
    name = 'page_add_positional'
    member = 'add_positional_option'
    calls = 'positional_option_calls'

    def shown(self, C):
        return True

    def entry(self, C):
        ex = C.ex
        c = C.oldarg('config').fields
        t, v = value_type(C), C.oldarg('value')
        dflt = default_text(ex, t, v, t) if isinstance(v, Vec) else str_val('')
        n = (zi(C.old(C.f('positional_option_count'))) + 1) % 2 ** 32
        return event('print_list_item', cat(BOLD + 'ARGUMENT-', int_str(n), OFF + ' ', type_text(t)), cat(c['description'], dflt, constraint(C)))


class adds_text(adds):
    uses = ()

    def shown(self, C):
        return b_or(b_not(C.oldarg('advanced_only')), C.old(C.f('show_advanced_options')))


@spec
class page_add_section(adds_text):
    name, member = 'page_add_section', 'add_section'

    def entry(self, C): return event('print_section', C.oldarg(0))


@spec
class page_add_subsection(adds_text):
    name, member = 'page_add_subsection', 'add_subsection'

    def entry(self, C): return event('print_subsection', C.oldarg(0))


@spec
class page_add_line(adds_text):
    name, member = 'page_add_line', 'add_line'

    def entry(self, C): return event('print_line', C.oldarg(0), C.oldarg(1))


@spec
class page_add_list_item(adds_text):
    name, member = 'page_add_list_item', 'add_list_item'

    def entry(self, C): return event('print_list_item', C.oldarg(0), C.oldarg(1))


# ------------------------------------------------------------------ the whole page
META = lambda C, k: C.oldarg(0).fields[k] if C.args else C.old(C.f("meta", k))
BLANK = uf('first_blank', S, I)     # position of the first space or tab, else the length
PRINTED = {}


def printed_by(term):
    """what a stored entry prints (see page_add_*)"""
    s = term.sort()
    if s not in PRINTED:
        PRINTED[s] = uf('printed_by', s, S)
    return PRINTED[s](term)


def entries(seq, n):
    return uf('printed_by_first_' + str(seq.sort()).replace(' ', ''), seq.sort(), I, S)(seq, zi(n))


def define_entries(ex, seq):
    ex.assume(entries(seq, 0) == str_val(''))
    ex.assume(All(0, z3.Length(seq), lambda i: entries(seq, zi(add(i, 1))) == z3.Concat(entries(seq, i), printed_by(seq[zi(i)]))))


def lines(kind, v, n):
    return uf('page_' + kind, v.arr.sort(), I, S)(v.arr, zi(n))


def each_line(kind, text):
    if kind == 'paragraphs':
        return event('print_line', text, True)
    if kind == 'commands':
        return event('print_line', cat('- ' + BOLD, text, OFF), False)
    t = cat(BOLD, text)
    p = BLANK(t)
    return event('print_line', z3.Concat(z3.SubString(t, 0, p), str_val(OFF), z3.SubString(t, p, z3.Length(t) - p)), False)


def define_lines(ex, kind, v):
    ex.assume(lines(kind, v, 0) == str_val(''))
    ex.assume(All(0, v.len, lambda i: lines(kind, v, zi(add(i, 1))) == z3.Concat(lines(kind, v, i), each_line(kind, zs(ex.elem_at(v, i))))))


def page_loop(ctx):
    """what the page consists of while the entries of a list are printed"""
    ex = ctx.ex
    C = getattr(ex, 'cur_call', None)
    if C is None or 'page lists' not in C.x:
        return
    buf = lambda c, how: getattr(c, how)(Loc(PAGE)).fields['buf']
    counters = [l for l in ctx.mods] + [l for nm, ty, l in ctx.locals()]
    if 'is_dl' in ex.load(C.this).fields:
        f = C.f('is_dl')
        yield 'no list opened', lambda c: b_imp(b_not(c.ent(f)), b_not(c.cur(f)))
    seen = set()
    fs = getattr(ctx.info, 'fnseq', None)
    for l in counters:
        if l.key() in seen:
            continue
        seen.add(l.key())
        x = ex.load(l)
        if fs is not None and ex.types.get(l.root) == '__fnidx':
            def pos(c, l=l):
                ex.reg_idx(c.cur(l))
                return c.cur(l)
            yield 'the entries so far %s' % (l,), lambda c, l=l, pos=pos: eq(buf(c, 'cur'), z3.Concat(sv(buf(c, 'ent')), entries(fs, pos(c))))
        elif isinstance(x, Iter) or isinstance(x, (int, z3.ArithRef)) and not isinstance(x, bool):
            for kind, v in C.x['page lists']:
                def where(c, l=l, x=x):
                    y = c.cur(l)
                    y = y.idx if isinstance(y, Iter) else y
                    ex.reg_idx(y)
                    return y
                yield 'within %s %s %s' % (kind, v.arr, l), lambda c, v=v, where=where: le(where(c), v.len)
                yield 'the lines so far %s %s %s' % (kind, v.arr, l), lambda c, kind=kind, v=v, where=where: eq(buf(c, 'cur'), z3.Concat(sv(buf(c, 'ent')), lines(kind, v, where(c))))


def first_blank(ex, s, chars):
    """the first of these characters: BLANK is defined for space and tab as that position, else the length"""
    if sorted(chars) != ['\t', ' ']:
        raise Unsupported('find_first_of %r' % chars)
    p = BLANK(zs(s))
    ex.assume([p >= 0, p <= z3.Length(zs(s)), z3.Length(zs(s)) <= 2 ** 31])
    return p if ex.branch(p < z3.Length(zs(s))) else NPOS


class on_page(Spec):
    """calls the printing functions of the format in this order and with these texts"""
    budget = 120
    claims = 'C28'  # the properties that the text of the page decides
    templates = (page_loop,)
    lists = ()
    changes = ()
    setup = adds.setup

    def fns(self, prog):
        return [f for f in prog.fn.values() if f['q'].startswith(HB + '<') and f['q'].rsplit('::', 1)[-1] == self.member and f.get('body')]

    def proof_env(self, ex, fn):
        for f in ex.prog.fn.values():
            if f['q'].startswith(D + 'format_') and f['q'].rsplit('::', 1)[-1] == 'in_bold':
                ex.contracts[f['id']] = lambda ex, fn, this, args, node: in_bold(ex.V(args[0]))

    def source(self, C):
        return C.this.f('meta')

    def prologue(self, C):
        ex = C.ex
        if C.applied:
            return
        C.x['page lists'] = []
        for kind, l in self.lists:
            v = ex.load(self.source(C).f(l) if l != 'command_names' else C.this.f(l))
            define_lines(ex, kind, v)
            C.x['page lists'].append((kind, v))

    def effects(self, C):
        ex = C.ex
        page_add(ex, self.content(C))
        if 'is_dl' in ex.load(C.this).fields:
            ex.write(C.f('is_dl'), self.leaves_list)
            ex.write(C.f('is_p'), ex.fresh('is_p', B) if not self.leaves_list else False)
        else:
            for m in ('prev_was_paragraph', 'is_first_in_section'):
                if m in ex.load(C.this).fields:
                    ex.write(C.f(m), ex.fresh(m, B))

    leaves_list = False

    def ensures(self, C):
        ex = C.ex
        if C.applied:
            return
        yield 'returns', C.returned
        yield self.claims + ' the page in this order', eq(page(ex), self.content(C))
        old, new = C.old(C.this), C.new(C.this)
        for k in old.fields:
            if k not in ('is_dl', 'is_p', 'prev_was_paragraph', 'is_first_in_section') + self.changes:
                yield 'unchanged ' + k, ex.same(old.fields[k], new.fields[k])
        if 'is_dl' in old.fields and self.leaves_list is False:
            yield 'C24 no list is left open', b_imp(b_not(C.old(C.f('is_dl'))), b_not(C.new(C.f('is_dl'))))


def in_bold(t):
    return uf('page_bold', S, S)(zs(t))


def section(t):
    return event('print_section', t)


def line(t, par=False):
    return event('print_line', t, par)


def nonempty(s):
    return z3.Not(zs(s) == str_val(''))


def some(v):
    return zi(v.len) > 0


def when(c, *xs):
    return z3.If(zb(c), cat(*xs) if len(xs) > 1 else sv(xs[0]), str_val(''))


@spec
class page_synopsis(on_page):
    name, member = 'page_synopsis', 'print_synopsis'
    claims = 'C25,C28'
    lists = (('synopsis', 'synopsis'),)

    def proof_env(self, ex, fn):
        on_page.proof_env(self, ex, fn)
        ex.libover['find_first_of'] = first_blank

    def content(self, C):
        v = META(C, 'synopsis')
        return lines('synopsis', v, v.len)


@spec
class page_version(on_page):
    name, member = 'page_version', 'print_version'

    def content(self, C):
        m = lambda k: META(C, k)
        version = constant_text(C.ex, 'sharg::sharg_version_cstring')
        return cat(section('Version'), line(cat(in_bold('Last update: '), m('date'))), line(cat(in_bold(cat(m('app_name'), ' version: ')), m('version'))),
                   line(cat(in_bold('Sharg version: '), version)), when(nonempty(m('url')), section('Url'), line(m('url'))))


def constant_text(ex, q):
    """the value of a text constant of the library, whatever it is"""
    g = ex.prog.globals.get(q)
    if g is None:
        raise Unsupported('constant %s is gone' % q)
    todo = [g['init']]
    while todo:
        x = todo.pop(0)
        if isinstance(x, dict):
            if x.get('k') == 'str':
                return ''.join(chr(c) for c in x['v']) if isinstance(x['v'], list) else x['v']
            todo += x.values()
        elif isinstance(x, list):
            todo += x
    raise Unsupported('constant ' + q)


@spec
class page_legal(on_page):
    name, member = 'page_legal', 'print_legal'

    def content(self, C):
        m = lambda k: META(C, k)
        some_ = b_or(*[nonempty(m(k)) for k in ('short_copyright', 'long_copyright', 'citation', 'author', 'email')])
        one = lambda k, title: when(nonempty(m(k)), line(cat(in_bold(title), m(k))))
        return when(some_, section('Legal'), one('short_copyright', cat(m('app_name'), ' Copyright: ')), one('author', 'Author: '), one('email', 'Contact: '),
                    line(cat(in_bold('SeqAn Copyright: '), '2006-2024 Knut Reinert, FU-Berlin; released under the 3-clause BSDL.')),
                    one('citation', 'In your academic works please cite: '),
                    when(nonempty(m('long_copyright')), line(cat('For full copyright and/or warranty information see ', in_bold('--copyright'), '.'))))




@spec
class page_parse(on_page):
    """C22: positional options first, then every stored entry once and in the order of declaration, then the common options"""
    name, member = 'page_parse', 'parse'
    claims = 'C22,C28'
    uses = ('page_synopsis', 'page_version', 'page_legal')
    lists = (('paragraphs', 'description'), ('paragraphs', 'examples'), ('commands', 'command_names'))
    changes = ('meta', 'positional_option_count')
    budget = 300

    def source(self, C):
        return C.args[0]

    def prologue(self, C):
        on_page.prologue(self, C)
        ex = C.ex
        if C.applied:
            return
        for k in ('positional_option_calls', 'parser_set_up_calls'):
            define_entries(ex, C.old(C.f(k)).base)

        def call(ex, f, args):
            page_add(ex, printed_by(f.term))
            o = ex.load(C.this)
            for m in ('is_dl', 'is_p', 'prev_was_paragraph', 'is_first_in_section'):
                if m in o.fields:
                    ex.write(C.f(m), ex.fresh(m, B))
            if z3.eq(f.tag.base, C.old(C.f('positional_option_calls')).base):
                ex.write(C.f('positional_option_count'), ex.fresh('count', I))
            return None
        ex.ghost['call_opaque'] = call

    def content(self, C):
        m = lambda k: C.oldarg(0).fields[k]
        names = C.old(C.f('command_names'))
        pos, opts = C.old(C.f('positional_option_calls')).base, C.old(C.f('parser_set_up_calls')).base
        item = lambda a, b: event('print_list_item', a, b)
        syn, des, exa = m('synopsis'), m('description'), m('examples')
        b = lambda t: BOLD + t + OFF
        return cat(event('print_header'),
                   when(some(syn), section('Synopsis'), lines('synopsis', syn, syn.len)),
                   when(some(des), section('Description'), lines('paragraphs', des, des.len)),
                   when(some(names), section('Subcommands'), line('This program must be invoked with one of the following subcommands:'),
                        lines('commands', names, names.len),
                        line(cat('See the respective help page for further details (e.g. by calling ', m('app_name'), ' ', C.ex.elem_at(names, 0), ' -h).'), True),
                        line('The following options belong to the top-level parser and need to be specified \\fBbefore\\fP the subcommand key word. Every argument after the '
                             'subcommand key word is passed on to the corresponding sub-parser.', True)),
                   when(z3.Length(pos) > 0, section('Positional Arguments')), entries(pos, z3.Length(pos)),
                   section('Options'), entries(opts, z3.Length(opts)), event('print_subsection', 'Common options'),
                   item(b('-h') + ', ' + b('--help'), 'Prints the help page.'), item(b('-hh') + ', ' + b('--advanced-help'), 'Prints the help page including advanced options.'),
                   item(b('--version'), 'Prints the version information.'), item(b('--copyright'), 'Prints the copyright/license information.'),
                   item(b('--export-help') + ' (std::string)', 'Export the help page information. Value must be one of %s.' % constant_text(C.ex, D + 'supported_exports')),
                   when(eq(C.old(C.f('version_check_dev_decision')), 0), item(b('--version-check') + ' (bool)', 'Whether to check for the newest app version. Default: true')),
                   when(some(exa), section('Examples'), lines('paragraphs', exa, exa.len)),
                   page_version.content(self, C), page_legal.content(self, C), event('print_footer'))


# ------------------------------------------------------------------ construction
def terminal_width_unknown(ex):
    ex.trusted.add('sharg::detail::get_terminal_width (ioctl): any unsigned number')
    for f in ex.prog.functions(D + 'get_terminal_width'):
        def h(ex, fn, this, args, node):
            r = ex.fresh('terminal_width', I)
            ex.assume([r >= 0, r < 2 ** 32])
            return r
        ex.contracts[f['id']] = h


@spec
class layout_ctor(Spec):
    """the layout that print_* rely on (see on_terminal.requires)"""
    name = 'layout_ctor'
    q = D + 'format_help::console_layout_struct::console_layout_struct'

    def accept(self, prog, fn):
        return bool(fn.get('body')) and 'console_layout_struct' not in str([p['type'] for p in fn['params']])

    def proof_env(self, ex, fn):
        terminal_width_unknown(ex)

    def ensures(self, C):
        yield 'returns', C.returned
        f = lambda k: zi(C.new(C.f(k)))
        if C.args:
            w = zi(C.oldarg(0))
            w = z3.If(w == 0, 80, w)
            yield 'C25 the terminal width between 40 and 120 columns less the padding', eq(f('screenWidth'), z3.If(w < 40, 40, z3.If(w > 120, 120, w)) - 2)
        for k in LAYOUT:
            yield 'C25 %s in range' % k, b_and(le(0, f(k)), le(f(k), 2 ** 20))
        yield 'C25 the text column is on the screen', lt(f('rightColumnTab'), f('screenWidth'))


class page_ctor(Spec):
    def accept(self, prog, fn):
        return bool(fn.get('body')) and len(fn['params']) == 3

    def proof_env(self, ex, fn):
        terminal_width_unknown(ex)

    def ensures(self, C):
        yield 'returns', C.returned
        n = lambda k: C.new(C.f(k))
        ex = C.ex
        yield 'C22 advanced entries are shown exactly if asked for', b_iff(zb(n('show_advanced_options')), zb(C.oldarg(2)))
        yield 'C22 no entries yet', b_and(*[zb(isinstance(n(k), FnVec) and n(k).base is None and not n(k).items) for k in ('parser_set_up_calls', 'positional_option_calls')])
        yield 'C23 positional options are counted from one', eq(n('positional_option_count'), 0)
        yield 'C22 the subcommands', ex.same(n('command_names'), C.oldarg(0))
        yield 'C22 the update check decision', eq(n('version_check_dev_decision'), C.oldarg(1))
        fields = C.new(C.this).fields
        if 'is_dl' in fields:
            yield 'C24 nothing is open', b_and(b_not(n('is_dl')), b_not(n('is_p')))
        if 'layout' in fields:
            for k in LAYOUT:
                f = zi(C.new(C.f('layout', k)))
                yield 'C25 %s in range' % k, b_and(le(0, f), le(f, 2 ** 20))


for _f in ('format_help', 'format_html', 'format_man'):
    spec(type('page_ctor_' + _f, (page_ctor,), {'name': 'ctor_' + _f, 'q': D + _f + '::' + _f}))


# ------------------------------------------------------------------ the short pages
class short_page(on_page):
    changes = ('meta',)

    def fns(self, prog):
        return [f for f in prog.fn.values() if f['q'] == D + self.cls + '::parse' and f.get('body')]

    def source(self, C):
        return C.args[0]

    def setup(self, ex, fn):
        printing(ex)
        this = ex.new_root(('this',), D + self.cls, ex.sym(D + self.cls, 'this'))
        return this, [self.sym_arg(ex, p) for p in fn['params']]

    def ensures(self, C):
        yield from on_page.ensures(self, C)
        yield 'the meta data is not modified', C.ex.same(C.oldarg(0), C.newarg(0))


@spec
class page_short_help(short_page):
    name, cls = 'page_short_help', 'format_short_help'
    uses = ('page_synopsis',)

    def content(self, C):
        syn = C.oldarg(0).fields['synopsis']
        return cat(event('print_header'), when(some(syn), lines('synopsis', syn, syn.len)), line('Try -h or --help for more information.\n', True))


@spec
class page_version_only(short_page):
    name, cls = 'page_version_only', 'format_version'
    uses = ('page_version',)

    def content(self, C):
        return cat(event('print_header'), page_version.content(self, C))


@spec
class page_copyright(prints):
    """the copyright page"""
    name = 'page_copyright'
    q = D + 'format_copyright::parse'
    uses = ('to_text', 'term_in_bold')

    def state(self, C):
        return {'meta': None}

    def output(self, C):
        m = lambda k: C.oldarg(0).fields[k]
        has = lambda k: nonempty(m(k))
        app = m('app_name')
        bar = str_val('=' * 80 + '\n')
        own = z3.If(has('long_copyright'), cat(TERMTEXT(str_val(OFF)), m('long_copyright'), '\n'),
                    z3.If(has('short_copyright'), cat(bold(cat(app, ' full copyright information not available. Displaying short copyright information instead:\n')), m('short_copyright'), '\n'),
                          cat(TERMTEXT(str_val(OFF)), app, ' copyright information not available.\n')))
        return cat(bar, bold(cat('Copyright information for ', app, ':\n')), '-' * 80 + '\n', own, bar,
                   bold('This program contains SeqAn code licensed under the following terms:\n'), '-' * 80 + '\n', license_text(C), '\n')

    def ensures(self, C):
        ex = C.ex
        yield 'returns', C.returned
        yield 'prints exactly this', eq(cout(ex), self.output(C))
        old, new = C.old(C.this), C.new(C.this)
        for k in old.fields:
            if k != 'meta':
                yield 'unchanged ' + k, ex.same(old.fields[k], new.fields[k])


def license_text(C):
    """the licence of the library: the longest text in the function"""
    best = ['']

    def walk(x):
        if isinstance(x, dict):
            if x.get('k') == 'str':
                t = ''.join(chr(c) for c in x['v']) if isinstance(x['v'], list) else x['v']
                if len(t) > len(best[0]):
                    best[0] = t
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    walk(C.fn['body'])
    return best[0]
