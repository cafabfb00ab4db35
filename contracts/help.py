"""Contracts of the text conversions of the help pages (C24, C25, C27)."""
import z3
from cxv.vals import *
from cxv.spec import Spec, spec, REG
from cxv.lib import int_str, QUOTE, fill as lib_fill

D = 'sharg::detail::'
FB = D + 'format_base::'
BS = chr(92)
ABI = z3.ArraySort(I, B)


def sv(x):
    return zs(x)


def cat(*xs):
    return z3.Concat(*[sv(x) for x in xs])


def char(s, i):
    return zs(s_at(s, i))


# ------------------------------------------------------------------ escaping
XESC = uf('xml_escaped', S, I, S)      # (text, n): the first n characters of text, escaped; defined by recursion over n
ENTITY = (('"', '&quot;'), ("'", '&apos;'), ('&', '&amp;'), ('<', '&lt;'), ('>', '&gt;'))


def entity(c):
    r = c
    for a, e in ENTITY:
        r = z3.If(c == str_val(a), str_val(e), r)
    return r


def define_escape(ex, s):
    ex.assume(XESC(sv(s), z3.IntVal(0)) == str_val(''))
    ex.assume(All(0, s_len(s), lambda j: XESC(sv(s), zi(add(j, 1))) == z3.Concat(XESC(sv(s), zi(j)), entity(char(s, j)))))


def at(c, it):
    """the position of a cursor, known to the definitions by recursion"""
    i = c.cur(it).idx
    c.ex.reg_idx(i)
    return zi(i)


def cursor_of(ctx, root):
    """the iterators modified by the loop that run over the object at root"""
    ex = ctx.ex
    for l in ctx.mods:
        x = ex.load(l)
        if isinstance(x, Iter) and isinstance(x.loc, Loc) and x.loc.key() == root.key():
            yield l


def strings_of(ctx, excl=()):
    ex = ctx.ex
    for l in ctx.mods:
        x = ex.load(l)
        if isinstance(x, (str, z3.SeqRef)) and not (isinstance(x, z3.SeqRef) and x.sort() != S):
            yield l


def escape_loop(ctx):
    ex = ctx.ex
    C = ex.cur_call
    s = C.oldarg(0)
    for it in cursor_of(ctx, C.args[0]):
        for o in strings_of(ctx):
            yield 'what is read so far is escaped', lambda c, it=it, o=o: eq(c.cur(o), XESC(sv(s), at(c, it)))


@spec
class escape_special_xml_chars(Spec):
    name = 'escape_special_xml_chars'
    q = FB + 'escape_special_xml_chars'
    templates = (escape_loop,)

    def prologue(self, C):
        define_escape(C.ex, C.oldarg(0))

    def ensures(self, C):
        s = C.oldarg(0)
        yield 'returns', C.returned
        yield 'every special character is replaced by its entity, all else is unchanged and in order', eq(C.ret, XESC(sv(s), zi(s_len(s))))


# ------------------------------------------------------------------ markup
class Markup:
    """reading a text with font markup from left to right: functions of the position, defined by recursion"""
    def __init__(self, kind):
        self.st_ = uf(kind + '_state', S, I, I)       # 0: text, 1: behind a backslash, 2: behind backslash f
        self.out_ = uf(kind + '_output', S, I, S)
        self.dep_ = uf(kind + '_open_tags', S, I, I)
        self.em_ = uf(kind + '_tag_is_em', S, I, ABI)
        self.kind = kind

    def st(self, s, i): return self.st_(sv(s), zi(i))
    def out(self, s, i): return self.out_(sv(s), zi(i))
    def dep(self, s, i): return self.dep_(sv(s), zi(i))
    def em(self, s, i): return self.em_(sv(s), zi(i))

    def define(self, ex, s, font):
        """font(i, c) -> list of (condition, output, depth, tags)"""
        z = z3.IntVal(0)
        ex.assume([self.st(s, 0) == 0, self.out(s, 0) == str_val(''), self.dep(s, 0) == 0])
        ex.assume(All(0, s_len(s), lambda i: self.step(s, i, font)))
        ex.reg_idx(s_len(s))

    def step(self, s, i, font):
        n = add(i, 1)
        c, st, out, d, em = char(s, i), self.st(s, i), self.out(s, i), self.dep(s, i), self.em(s, i)
        bs, f = c == str_val(BS), c == str_val('f')
        s1, s2 = st == 1, st == 2
        plain = z3.And(st == 0, z3.Not(bs))
        st2 = z3.If(z3.And(st == 0, bs), 1, z3.If(z3.And(s1, f), 2, 0))
        o2 = z3.If(plain, cat(out, c), z3.If(z3.And(s1, c == str_val('-')), cat(out, '-'), z3.If(z3.And(s1, z3.Not(f)), cat(out, BS, c), out)))
        d2, e2 = d, em
        other = s2
        for cond, o, dd, ee in font(self, s, i, c, out, d, em):
            k = z3.And(s2, cond)
            o2, d2, e2 = z3.If(k, o, o2), z3.If(k, dd, d2), z3.If(k, ee, e2)
            other = z3.And(other, z3.Not(cond))
        o2 = z3.If(other, cat(out, BS + 'f', c), o2)
        return z3.And(self.st(s, n) == st2, self.out(s, n) == o2, self.dep(s, n) == d2, self.em(s, n) == e2, d >= 0)

    def between(self, s, i):
        """no markup sequence is being read at i; a sequence cut off by the end of the text counts as read"""
        return z3.Or(self.st(s, i) == 0, zi(i) == s_len(s))

    def written(self, s, i):
        return z3.If(zi(i) == s_len(s), cat(self.out(s, i), self.tail(s)), self.out(s, i))

    def tail(self, s):
        n = s_len(s)
        return z3.If(self.st(s, n) == 1, str_val(BS), z3.If(self.st(s, n) == 2, str_val(BS + 'f'), str_val('')))


def html_font(m, s, i, c, out, d, em):
    top = z3.Select(em, d - 1)
    yield c == str_val('I'), cat(out, '<em>'), d + 1, z3.Store(em, d, True)
    yield c == str_val('B'), cat(out, '<strong>'), d + 1, z3.Store(em, d, False)
    yield z3.And(c == str_val('P'), d == 0), out, d, em
    yield z3.And(c == str_val('P'), d > 0), cat(out, z3.If(top, str_val('</em>'), str_val('</strong>'))), d - 1, em


HTML = Markup('html')
CLOSE = uf('html_closing_tags', ABI, I, S)     # (tags, k): closes the k outermost open tags, the innermost first
HTMLTEXT = uf('html_text', S, S)


def closing(em, k):
    return z3.If(z3.Select(em, zi(k)), str_val('</em>'), str_val('</strong>'))


def is_strs(v):
    return isinstance(v, Vec)


def html_loop(ctx):
    ex = ctx.ex
    C = ex.cur_call
    for it in ctx.mods:
        x = ex.load(it)
        if isinstance(x, Iter) and isinstance(x.loc, Loc) and isinstance(ex.load(x.loc), (str, z3.SeqRef)):
            buf = x.loc
            s = ex.load(buf)
            for o in strings_of(ctx):
                yield 'what is read so far is written', lambda c, it=it, o=o, s=s: eq(c.cur(o), HTML.written(s, at(c, it)))
            yield 'between two markup sequences', lambda c, it=it, s=s: HTML.between(s, at(c, it))
            for t in ctx.mods:
                if isinstance(ex.load(t), Vec):
                    yield 'open tags', lambda c, it=it, s=s, t=t: eq(c.cur(t).len, HTML.dep(s, at(c, it)))
                    yield 'open tags', lambda c, it=it, s=s, t=t: All(0, c.cur(t).len, lambda k: eq(ex.elem_at(c.cur(t), k), z3.If(z3.Select(HTML.em(s, at(c, it)), zi(k)), str_val('em'), str_val('strong'))))
            return
    vecs = [t for t in ctx.mods if isinstance(ex.load(t), Vec)]
    B_ = ex.ghost.get('html_buffer')
    if B_ is None or not vecs:
        return
    em = HTML.em(B_, s_len(B_))
    for t in vecs:
        yield 'remaining tags', lambda c, t=t: b_and(le(c.cur(t).len, HTML.dep(B_, s_len(B_))))
        yield 'remaining tags', lambda c, t=t: All(0, c.cur(t).len, lambda k: eq(ex.elem_at(c.cur(t), k), z3.If(z3.Select(em, zi(k)), str_val('em'), str_val('strong'))))
        for o in strings_of(ctx):
            yield 'what remains to be closed', lambda c, t=t, o=o: cat(c.cur(o), CLOSE(em, zi(c.cur(t).len))) == html_of(B_)


def html_of(b):
    n = s_len(b)
    return cat(HTML.out(b, n), HTML.tail(b), CLOSE(HTML.em(b, n), HTML.dep(b, n)))


@spec
class to_html(Spec):
    name = 'to_html'
    q = D + 'format_html::to_html'
    uses = ('escape_special_xml_chars',)
    templates = (html_loop,)

    def proof_env(self, ex, fn):
        ex.reg_chars = True

    def buffer(self, C):
        s = C.oldarg(0)
        return XESC(sv(s), zi(s_len(s)))

    def prologue(self, C):
        ex = C.ex
        b = self.buffer(C)
        ex.ghost['html_buffer'] = b
        HTML.define(ex, b, html_font)
        n = s_len(b)
        em = HTML.em(b, n)
        ex.assume(CLOSE(em, z3.IntVal(0)) == str_val(''))
        ex.assume(All(0, HTML.dep(b, n), lambda k: CLOSE(em, zi(add(k, 1))) == z3.Concat(closing(em, k), CLOSE(em, zi(k)))))

    def effects(self, C):
        pass

    def ensures(self, C):
        ex = C.ex
        s = C.oldarg(0)
        yield 'returns for every text', C.returned
        if C.applied:
            yield '', eq(C.ret, HTMLTEXT(sv(s)))
            return
        b = self.buffer(C)
        yield 'escaped text with balanced tags for the font markup', eq(C.ret, html_of(b))


# ------------------------------------------------------------------ terminal
TTY = z3.Const('isatty_1', I) != 0
ESCAPE = (('I', '\033[4m'), ('B', '\033[1m'), ('P', '\033[0m'))
TERM = Markup('terminal')
WID = uf('printed_width', S, I, I)        # (text, n): characters that the first n characters of text print
FONT = uf('font_changes', S, I, I)
TERMTEXT = uf('terminal_text', S, S)
TEXTWIDTH = uf('text_width', S, I)


def terminal_font(m, s, i, c, out, d, em):
    for a, e in ESCAPE:
        yield c == str_val(a), z3.If(TTY, cat(out, e), out), d, em


def define_width(ex, s):
    def step(i):
        n = add(i, 1)
        c, st, w, k = char(s, i), TERM.st(s, i), WID(sv(s), zi(i)), FONT(sv(s), zi(i))
        font = z3.And(st == 2, z3.Or(*[c == str_val(a) for a, _ in ESCAPE]))
        w2 = z3.If(st == 0, z3.If(c == str_val(BS), w, w + 1),
                   z3.If(st == 1, z3.If(c == str_val('-'), w + 1, z3.If(c == str_val('f'), w, w + 2)), z3.If(font, w, w + 3)))
        return z3.And(WID(sv(s), zi(n)) == w2, FONT(sv(s), zi(n)) == z3.If(font, k + 1, k))
    z = z3.IntVal(0)
    ex.assume([WID(sv(s), z) == 0, FONT(sv(s), z) == 0])
    ex.assume(All(0, s_len(s), step))


def width_of(s):
    n = s_len(s)
    return WID(sv(s), zi(n)) + z3.If(TERM.st(s, n) == 1, 1, z3.If(TERM.st(s, n) == 2, 2, 0))


def width_to(s, i):
    return z3.If(zi(i) == s_len(s), width_of(s), WID(sv(s), zi(i)))


def terminal_of(s):
    return cat(TERM.out(s, s_len(s)), TERM.tail(s))


def printed_length(n, s, i):
    """so many characters are printed, and four more for each font change on a terminal"""
    return n == width_to(s, i) + z3.If(TTY, 4 * FONT(sv(s), zi(i)), 0)


def terminal_loop(ctx):
    ex = ctx.ex
    C = ex.cur_call
    s = C.oldarg(0)
    for it in cursor_of(ctx, C.args[0]):
        for o in strings_of(ctx):
            yield 'what is read so far is written', lambda c, it=it, o=o: eq(c.cur(o), TERM.written(s, at(c, it)))
            yield 'what is written has the printed width', lambda c, it=it, o=o: printed_length(s_len(c.cur(o)), s, at(c, it))
        yield 'between two markup sequences', lambda c, it=it: TERM.between(s, at(c, it))


class over_text(Spec):
    def proof_env(self, ex, fn):
        ex.reg_chars = True

    def prologue(self, C):
        s = C.oldarg(0)
        TERM.define(C.ex, s, terminal_font)
        define_width(C.ex, s)


@spec
class to_text(over_text):
    name = 'to_text'
    q = D + 'format_help::to_text'
    templates = (terminal_loop,)

    def ensures(self, C):
        ex = C.ex
        s = C.oldarg(0)
        yield 'returns for every text', C.returned
        if C.applied:
            yield '', eq(C.ret, TERMTEXT(sv(s)))
            yield '', z3.Implies(z3.Not(TTY), s_len(C.ret) == TEXTWIDTH(sv(s)))
            return
        yield 'all characters in order, only font markup and escaped dashes are replaced', eq(C.ret, terminal_of(s))
        yield 'the length is the printed width and the control sequences', s_len(C.ret) == width_of(s) + z3.If(TTY, 4 * FONT(sv(s), zi(s_len(s))), 0)


def width_loop(ctx):
    ex = ctx.ex
    C = ex.cur_call
    s = C.oldarg(0)
    ints = [l for l in ctx.mods if isinstance(ex.load(l), (int, z3.ArithRef)) and not isinstance(ex.load(l), bool)]
    for n_, i in enumerate(ints):
        def pos(c, i=i):
            t = c.cur(i)
            ex.reg_idx(t)
            return zi(t)
        yield 'between two markup sequences (%d)' % n_, lambda c, i=i: TERM.between(s, pos(c))
        yield 'in the text (%d)' % n_, lambda c, i=i: b_and(le(0, c.cur(i)), le(c.cur(i), s_len(s)))
        for r in ints:
            if r is not i:
                yield 'width of what is read so far (%d)' % n_, lambda c, r=r: eq(c.cur(r), width_to(s, pos(c)))
                yield 'no wider than what is read so far (%d)' % n_, lambda c, r=r, i=i: le(c.cur(r), c.cur(i))


@spec
class text_width(over_text):
    name = 'text_width'
    q = D + 'format_help::text_width'
    templates = (width_loop,)

    def ensures(self, C):
        s = C.oldarg(0)
        yield 'returns for every text', C.returned
        if C.applied:
            yield '', eq(C.ret, TEXTWIDTH(sv(s)))
            yield '', b_and(le(0, C.ret), le(C.ret, s_len(s)))
            return
        yield 'the number of characters that are printed', eq(C.ret, width_of(s))
        yield 'no wider than the text', le(C.ret, s_len(s))


# ------------------------------------------------------------------ lists and values
class Joined:
    """(elements, n): the first n elements as printed, separated by comma and space; defined by recursion over n"""
    def __init__(self):
        self.f = {}

    def fn(self, v):
        t = bare(v.et)
        k = (str(v.arr.sort()), t if t in ('signed char', 'unsigned char') else 'path' if 'filesystem::path' in t else '')
        return uf('joined_%s_%s' % k, v.arr.sort(), I, S)

    def define(self, ex, v):
        f = self.fn(v)
        p = lambda j: zs(element(ex, v, j))
        ex.assume([f(v.arr, z3.IntVal(0)) == str_val(''), f(v.arr, z3.IntVal(1)) == p(0)])
        ex.assume(All(1, v.len, lambda j: f(v.arr, zi(add(j, 1))) == z3.Concat(f(v.arr, zi(j)), str_val(', '), p(j))))
        ex.reg_idx(1)


JOIN = Joined()


def element(ex, v, j):
    return printed(ex, ex.elem_at(v, j), bare(v.et))


def is_enum(ex, t):
    return t in getattr(ex.prog, 'enums', {}) or t == 'vp::color'


def enum_out(ex, fn, this, args, node):
    """operator<< of enumerations with names: some text for each value"""
    v = ex.V(args[1])
    ex.trusted.add('operator<< of an enumeration')
    ex.out(args[0], uf('enumeration_text', I, S)(zi(v)))
    return args[0]


def printed(ex, v, t):
    """the text of a value: 8-bit integers as numbers, paths quoted"""
    if t in ('signed char', 'unsigned char', 'int8_t', 'uint8_t'):
        return int_str(v.code() if isinstance(v, CodeOf) else v)
    if is_enum(ex, t):
        return uf('enumeration_text', I, S)(zi(v))
    return ex.print_form(v, t)


def text_of(ex, v, t):
    if isinstance(v, Vec):
        f = JOIN.fn(v)
        return z3.If(zi(v.len) == 0, str_val('[]'), cat('[', f(v.arr, zi(v.len)), ']'))
    return zs(printed(ex, v, t))


def join_loop(ctx):
    """stream contents while the elements of a list are written"""
    ex = ctx.ex
    C = ex.cur_call
    before = str_val('')
    for i, a in enumerate(C.args):
        v = C.oldarg(i)
        if isinstance(v, Vec):
            for it in ctx.mods:
                x = ex.load(it)
                if isinstance(x, Iter) and isinstance(x.loc, Loc) and isinstance(a, Loc) and x.loc.key() == a.key():
                    for st in ctx.mods:
                        y = ex.load(st)
                        if isinstance(y, Struct) and 'buf' in y.fields:
                            yield 'the elements so far', lambda c, it=it, st=st, v=v, b=before: eq(c.cur(st).fields['buf'], cat(b, '[', JOIN.fn(v)(v.arr, at(c, it))))
                        elif isinstance(y, (str, z3.SeqRef)):
                            yield 'the elements so far', lambda c, it=it, st=st, v=v, b=before: eq(c.cur(st), cat(b, '[', JOIN.fn(v)(v.arr, at(c, it))))
                    yield 'behind the first', lambda c, it=it: le(1, c.cur(it).idx)
        before = cat(before, text_of(ex, v, C.ptype(i)))


@spec
class to_string(Spec):
    name = 'to_string'
    q = D + 'to_string'
    templates = (join_loop,)

    def accept(self, prog, fn):
        return bool(fn.get('body')) and all(('vp::custom' not in p['type']) for p in fn['params'])

    def sym_arg(self, ex, p):
        t = bare(p['type'])
        if t.startswith('char') and ('[' in t or '*' in t):
            v, t = ex.fresh(p['name'] or 'text', S), 'std::string'
        elif 'transform_view' in t:
            t = 'std::vector<std::string, std::allocator<std::string>>'
            v = ex.sym(t, 'view')
        else:
            return Spec.sym_arg(self, ex, p)
        return ex.new_root(('arg', p['name'], p['id']), t, v)

    def proof_env(self, ex, fn):
        for f in ex.prog.fn.values():
            if f['q'].split('<')[0] == 'std::operator' and f['q'].startswith('std::operator<<') and len(f['params']) == 2 and f.get('body'):
                ex.contracts[f['id']] = enum_out

    def prologue(self, C):
        for i in range(len(C.args)):
            if isinstance(C.oldarg(i), Vec):
                JOIN.define(C.ex, C.oldarg(i))

    def ensures(self, C):
        ex = C.ex
        yield 'returns', C.returned
        parts = [text_of(ex, C.oldarg(i), C.ptype(i)) for i in range(len(C.args))]
        yield 'the values in order, lists as [a, b, c]', eq(C.ret, cat(*parts) if len(parts) > 1 else parts[0])


def is_text_type(t):
    return t in ('std::string', 'std::basic_string<char>')


def quoted_list(v):
    return Vec('std::string', z3.Map(QUOTE, v.arr), v.len)


def default_text(ex, ot, v, t):
    """documented default message of an option of type ot for the value (or message) v of type t"""
    pre = ' Default: '
    if isinstance(v, Vec):
        if is_text_type(bare(v.et)):
            return cat(pre, text_of(ex, quoted_list(v), 'quoted list'))
        return cat(pre, text_of(ex, v, t))
    lst = '::vector<' in ot
    if not lst and is_text_type(t) and (is_text_type(ot) or ot.endswith('filesystem::path')):
        return cat(pre, QUOTE(zs(v)))
    return cat(pre, text_of(ex, v, t))


@spec
class get_default_message(Spec):
    name = 'get_default_message'
    q = FB + 'get_default_message'
    uses = ('to_string',)

    def accept(self, prog, fn):
        return bool(fn.get('body')) and all(('vp::custom' not in p['type']) for p in fn['params'])

    def ensures(self, C):
        ex = C.ex
        yield 'returns', C.returned
        yield 'the default value, texts in quotes', eq(C.ret, default_text(ex, C.ptype(0), C.oldarg(1), C.ptype(1)))


# ------------------------------------------------------------------ printing
UPPER = uf('map_of_toupper(str.to_code(char))', S, S)        # std::toupper per character (library: C locale)
WORDS = uf('words_of', S, z3.ArraySort(I, S))
NWORDS = uf('number_of_words', S, I)


def cout_root(ex):
    return ex.new_root(('g', 'cout'), 'std::ostream', Struct('ostream', {'buf': ''}))


def cout(ex, store=None):
    o = (ex.store if store is None else store).get(('g', 'cout'))
    return o.fields['buf'] if o is not None else ''


def fill(c, n):
    return zs(lib_fill(n, c))


def words(ex, text):
    """reading texts from a stream: the words between white space"""
    s = zs(text)
    ex.assume([NWORDS(s) >= 0, NWORDS(s) <= s_len(s)])
    ex.assume(All(0, NWORDS(s), lambda k: b_and(1 <= z3.Length(WORDS(s)[zi(k)]), z3.Length(WORDS(s)[zi(k)]) <= zi(s_len(s)))))
    return Vec('std::string', WORDS(s), NWORDS(s))


class prints(Spec):
    """appends output(C) to std::cout and changes the members state(C); nothing else"""
    def proof_env(self, ex, fn):
        ex.reg_chars = False
        ex.libover['tokens'] = words

    def setup(self, ex, fn):
        cout_root(ex)
        ex.cout0 = cout(ex)
        return Spec.setup(self, ex, fn)

    def state(self, C):
        return {}

    def effects(self, C):
        ex = C.ex
        if ('g', 'cout') not in ex.store:
            cout_root(ex)
        C.x['before'] = cout(ex)
        out = self.output(C)
        st = self.state(C)
        ex.write(Loc(('g', 'cout')), Struct('ostream', {'buf': s_cat(cout(ex), out)}))
        for k, v in st.items():
            ex.write(C.f(k), v)

    def ensures(self, C):
        ex = C.ex
        yield 'returns', C.returned
        if C.applied:
            return
        yield 'prints exactly this', eq(cout(ex), self.output(C))
        st = self.state(C)
        old, new = C.old(C.this), C.new(C.this)
        for k in old.fields:
            if k in st:
                yield 'state ' + k, b_iff(zb(C.new(C.f(k))), zb(st[k]))
            else:
                yield 'unchanged ' + k, ex.same(old.fields[k], new.fields[k])


HP = D + 'format_html::'
TXT = lambda s: HTMLTEXT(sv(s))


def if_(c, a, b=''):
    return z3.If(zb(c), sv(a), sv(b))


@spec
class html_header(prints):
    name = 'html_header'
    q = HP + 'print_header'
    uses = ('to_html', 'escape_special_xml_chars')

    def output(self, C):
        esc = lambda s: XESC(sv(s), zi(s_len(s)))
        app, short_ = C.old(C.f('meta', 'app_name')), C.old(C.f('meta', 'short_description'))
        return cat('<!DOCTYPE html PUBLIC "-//W3C//DTD HTML 4.01//EN" http://www.w3.org/TR/html4/strict.dtd">\n<html lang="en">\n<head>\n'
                   '<meta http-equiv="content-type" content="text/html; charset=utf-8">\n<title>', esc(app), ' &mdash; ', esc(short_),
                   '</title>\n</head>\n<body>\n<h1>', TXT(app), '</h1>\n<div>', TXT(short_), '</div>\n')


def close_p(C):
    return if_(C.old(C.f('is_p')), '</p>\n')


def close_dl(C):
    return if_(C.old(C.f('is_dl')), '</dl>\n')


class html_title(prints):
    uses = ('to_html',)

    def state(self, C):
        return {'is_dl': False, 'is_p': False}

    def output(self, C):
        return cat(close_dl(C), close_p(C), '<%s>' % self.tag, TXT(C.oldarg(0)), '</%s>\n' % self.tag)


@spec
class html_section(html_title):
    name = 'html_section'
    q = HP + 'print_section'
    tag = 'h2'


@spec
class html_subsection(html_title):
    name = 'html_subsection'
    q = HP + 'print_subsection'
    tag = 'h3'


@spec
class html_line(prints):
    name = 'html_line'
    q = HP + 'print_line'
    uses = ('to_html',)

    def state(self, C):
        return {'is_dl': False, 'is_p': b_not(C.oldarg(1))}

    def output(self, C):
        return cat(close_dl(C), if_(C.old(C.f('is_p')), '', '<p>\n'), TXT(C.oldarg(0)), '\n', if_(C.oldarg(1), '</p>\n', '<br>\n'))


@spec
class html_item(prints):
    name = 'html_item'
    q = HP + 'print_list_item'
    uses = ('to_html',)

    def state(self, C):
        return {'is_dl': True, 'is_p': False}

    def output(self, C):
        return cat(close_p(C), if_(C.old(C.f('is_dl')), '', '<dl>\n'), '<dt>', TXT(C.oldarg(0)), '</dt>\n<dd>', TXT(C.oldarg(1)), '</dd>\n')


@spec
class html_footer(prints):
    name = 'html_footer'
    q = HP + 'print_footer'

    def requires(self, C):
        yield 'no list is open', b_not(C.old(C.f('is_dl')))

    def state(self, C):
        return {'is_p': False}

    def output(self, C):
        return cat(close_p(C), '</body></html>')


# ------------------------------------------------------------------ terminal
TP = D + 'format_help::'
LAYOUT = ('screenWidth', 'leftPadding', 'centerPadding', 'rightColumnTab')
OUTW = uf('wrapped_text', z3.ArraySort(I, S), I, I, I, S)        # words, indentation, screen width, number of words: what is printed
POSW = uf('wrapped_position', z3.ArraySort(I, S), I, I, I, I)    # ... and the column behind it


def layout(C, k):
    return zi(C.old(C.f('layout', k)))


def wrap(ex, words, n, tab, screen):
    """greedy line wrapping: a word goes to the next line exactly if it does not fit on this one with the space before it"""
    tab, screen = zi(tab), zi(screen)
    out, pos = (lambda k: OUTW(words, tab, screen, zi(k))), (lambda k: POSW(words, tab, screen, zi(k)))
    tt, w = (lambda k: TERMTEXT(words[zi(k)])), (lambda k: TEXTWIDTH(words[zi(k)]))
    nl = z3.Concat(str_val('\n'), fill(' ', tab))
    e = str_val('')
    ex.assume([out(0) == e, pos(0) == tab])
    far = tab + w(0) > screen
    ex.assume([out(1) == z3.Concat(tt(0), z3.If(far, nl, e)), pos(1) == z3.If(far, tab, tab + w(0))])

    def step(k):
        over = pos(k) + 1 + w(k) > screen
        return [out(add(k, 1)) == z3.If(over, z3.Concat(out(k), nl, tt(k)), z3.Concat(out(k), str_val(' '), tt(k))),
                pos(add(k, 1)) == z3.If(over, tab + w(k), pos(k) + 1 + w(k))]
    ex.assume(All(1, n, lambda k: z3.And(*step(k))))
    ex.assume(All(0, n, lambda k: z3.And(0 <= w(k), w(k) <= z3.Length(words[zi(k)]))))
    ex.reg_idx(0)
    ex.reg_idx(1)
    return out, pos


def wrap_loop(ctx):
    ex = ctx.ex
    C = getattr(ex, 'cur_call', None)
    if C is None or 'wrap' not in C.x:
        return
    out, pos = C.x['wrap']
    buf = lambda c, how: sv(getattr(c, how)(Loc(('g', 'cout'))).fields['buf'])
    locs = list(ctx.mods) + [l for nm, ty, l in ctx.locals()]
    seen, cursors, numbers = set(), [], []
    for l in locs:
        if l.key() in seen:
            continue
        seen.add(l.key())
        x = ex.load(l)
        if isinstance(x, Iter):
            cursors.append((l, lambda c, l=l: at(c, l)))
        elif isinstance(x, (int, z3.ArithRef)) and not isinstance(x, bool):
            numbers.append(l)
            cursors.append((l, lambda c, l=l: (ex.reg_idx(c.cur(l)), zi(c.cur(l)))[1]))
    for i, (l, k) in enumerate(cursors):
        yield 'words so far (%d)' % i, lambda c, k=k: buf(c, 'cur') == z3.Concat(buf(c, 'ent'), out(k(c)))
        yield 'among the words (%d)' % i, lambda c, k=k: b_and(le(0, k(c)), le(k(c), C.x['n']))
        for j, p in enumerate(numbers):
            if p.key() != l.key():
                yield 'column (%d %d)' % (i, j), lambda c, k=k, p=p: eq(c.cur(p), pos(k(c)))
    for j, p in enumerate(numbers):
        yield 'column in range (%d)' % j, lambda c, p=p: b_and(le(0, c.cur(p)), le(c.cur(p), 2 ** 31))


def text_block(ex, text, tab, screen):
    """what print_text prints"""
    s = zs(text)
    out, pos = wrap(ex, WORDS(s), NWORDS(s), tab, screen)
    ex.assume([NWORDS(s) >= 0])
    ex.reg_idx(NWORDS(s))
    return z3.If(NWORDS(s) == 0, str_val(''), z3.Concat(out(NWORDS(s)), str_val('\n')))


class on_terminal(prints):
    def layout_range(self, C):
        return b_and(*[b_and(le(0, layout(C, k)), le(layout(C, k), 2 ** 20)) for k in LAYOUT])

    def requires(self, C):
        if C.this is not None:
            yield 'the layout is as constructed', self.layout_range(C)


@spec
class print_text(on_terminal):
    name = 'print_text'
    q = TP + 'print_text'
    uses = ('to_text', 'text_width')
    templates = (wrap_loop,)
    budget = 120

    def requires(self, C):
        yield from on_terminal.requires(self, C)
        yield 'indentation in range', b_and(le(0, C.oldarg(1)), le(C.oldarg(1), 2 ** 20))

    def prologue(self, C):
        s = zs(C.oldarg(0))
        if C.applied:
            return
        C.x['wrap'] = wrap(C.ex, WORDS(s), NWORDS(s), C.oldarg(1), layout(C, 'screenWidth'))
        C.x['n'] = NWORDS(s)

    def output(self, C):
        ex = C.ex
        s = zs(C.oldarg(0))
        if C.applied:
            return BLOCK(s, zi(C.oldarg(1)), layout(C, 'screenWidth'))
        out, pos = C.x['wrap']
        ex.reg_idx(NWORDS(s))
        return z3.If(NWORDS(s) == 0, str_val(''), z3.Concat(out(NWORDS(s)), str_val('\n')))


BLOCK = uf('text_block', S, I, I, S)


def bold(t):
    return cat(TERMTEXT(str_val('\\fB')), t, TERMTEXT(str_val('\\fP')))


@spec
class term_in_bold(Spec):
    name = 'term_in_bold'
    q = TP + 'in_bold'
    uses = ('to_text',)

    def ensures(self, C):
        yield 'returns', C.returned
        yield 'the text between the control sequences', eq(C.ret, bold(C.oldarg(0)))


@spec
class term_header(on_terminal):
    name = 'term_header'
    q = TP + 'print_header'
    uses = ('text_width',)

    def output(self, C):
        app, sh = C.old(C.f('meta', 'app_name')), C.old(C.f('meta', 'short_description'))
        has = z3.Not(zs(sh) == str_val(''))
        w = TEXTWIDTH(zs(app)) + z3.If(has, 3, 0) + TEXTWIDTH(zs(sh))
        return cat(app, z3.If(has, cat(' - ', sh), str_val('')), '\n', fill('=', w), '\n')


@spec
class term_section(on_terminal):
    name = 'term_section'
    q = TP + 'print_section'
    uses = ('to_text',)

    def state(self, C):
        return {'prev_was_paragraph': False}

    def output(self, C):
        return cat('\n', bold(UPPER(zs(C.oldarg(0)))), '\n')


@spec
class term_subsection(on_terminal):
    name = 'term_subsection'
    q = TP + 'print_subsection'
    uses = ('to_text', 'term_in_bold')

    def state(self, C):
        return {'prev_was_paragraph': False}

    def output(self, C):
        return cat('\n', fill(' ', layout(C, 'leftPadding') / 2), bold(C.oldarg(0)), '\n')


@spec
class term_line(on_terminal):
    name = 'term_line'
    q = TP + 'print_line'
    uses = ('print_text',)

    def state(self, C):
        return {'prev_was_paragraph': C.oldarg(1)}

    def output(self, C):
        lp = layout(C, 'leftPadding')
        return cat(if_(C.old(C.f('prev_was_paragraph')), '\n'), fill(' ', lp), BLOCK(zs(C.oldarg(0)), lp, layout(C, 'screenWidth')))


@spec
class term_item(on_terminal):
    name = 'term_item'
    q = TP + 'print_list_item'
    uses = ('print_text', 'to_text', 'text_width')

    def state(self, C):
        return {'prev_was_paragraph': False}

    def output(self, C):
        lp, cp, tab = layout(C, 'leftPadding'), layout(C, 'centerPadding'), layout(C, 'rightColumnTab')
        size = lp + zi(s_len(C.oldarg(0)))
        far = size + cp > tab
        return cat(if_(C.old(C.f('prev_was_paragraph')), '\n'), fill(' ', lp), TERMTEXT(zs(C.oldarg(0))), if_(far, cat('\n', fill(' ', tab)), fill(' ', tab - size)),
                   BLOCK(zs(C.oldarg(1)), tab, layout(C, 'screenWidth')))


# ------------------------------------------------------------------ man page
MAN = D + 'format_man::'
LOWERM = uf('map_of_tolower(str.to_code(char))', S, S)


@spec
class man_header(prints):
    name = 'man_header'
    q = MAN + 'print_header'

    def output(self, C):
        m = lambda k: C.old(C.f('meta', k))
        return cat('.TH ', UPPER(zs(m('app_name'))), ' ', int_str(m('man_page_section')), ' "', m('date'), '" "', LOWERM(zs(m('app_name'))), ' ', m('version'), '" "',
                   m('man_page_title'), '"\n.SH NAME\n', m('app_name'), ' \\- ', m('short_description'), '\n')


@spec
class man_section(prints):
    name = 'man_section'
    q = MAN + 'print_section'

    def state(self, C): return {'is_first_in_section': True}

    def output(self, C): return cat('.SH ', UPPER(zs(C.oldarg(0))), '\n')


@spec
class man_subsection(prints):
    name = 'man_subsection'
    q = MAN + 'print_subsection'

    def state(self, C): return {'is_first_in_section': True}

    def output(self, C): return cat('.SS ', C.oldarg(0), '\n')


@spec
class man_line(prints):
    name = 'man_line'
    q = MAN + 'print_line'

    def state(self, C): return {'is_first_in_section': False}

    def output(self, C):
        return cat(if_(C.old(C.f('is_first_in_section')), '', if_(C.oldarg(1), '.sp\n', '.br\n')), C.oldarg(0), '\n')


@spec
class man_item(prints):
    name = 'man_item'
    q = MAN + 'print_list_item'

    def state(self, C): return {'is_first_in_section': False}

    def output(self, C): return cat('.TP\n', C.oldarg(0), '\n', C.oldarg(1), '\n')


@spec
class man_in_bold(Spec):
    name = 'man_in_bold'
    q = MAN + 'in_bold'

    def ensures(self, C):
        yield 'returns', C.returned
        yield 'the text in bold', eq(C.ret, cat('\\fB', C.oldarg(0), '\\fR'))


@spec
class html_in_bold(Spec):
    name = 'html_in_bold'
    q = HP + 'in_bold'

    def ensures(self, C):
        yield 'returns', C.returned
        yield 'the text in bold', eq(C.ret, cat('\\fB', C.oldarg(0), '\\fP'))
