"""Contracts of the file and directory validators and of the scope guard (C16, C17, C18, C26)."""
import z3
from cxv.vals import *
from cxv.spec import Spec, spec, REG
from cxv.lib import PF, TOLOWER
from cxv.fs import *
from contracts.validators import accepted_before

V = 'sharg::'
VERR = 'sharg::validation_error'
PATH_OK = uf('path_accepted', S, B)
VALID_NAME = uf('valid_name', S, B)        # what validate_filename accepts (one validator at a time)
ENDS_CI = uf('ends_with_ignoring_case', S, S, B)


# ------------------------------------------------------------------------------------------------ C18
def lower_at(s, i):
    c = s_at(s, i)
    return TOLOWER(z3.StrToCode(zs(c)))


def same_lower(a, s, b):
    """b is, ignoring case, what a has from position s on, for len(b) characters"""
    return All(0, s_len(b), lambda j: eq(lower_at(a, add(s, j)), lower_at(b, j)))


@spec
class ends_with(Spec):
    """defines ENDS_CI; the text must be at least as long and its last characters equal, ignoring case"""
    name = 'case_insensitive_ends_with'
    q = V + 'file_validator_base::case_insensitive_string_ends_with'

    def result(self, C):
        return ENDS_CI(zs(C.oldarg(0)), zs(C.oldarg(1)))

    def ensures(self, C):
        if C.applied:
            return
        ex = C.ex
        a, b = C.oldarg(0), C.oldarg(1)
        yield 'returns', C.returned
        if not C.returned:
            return
        r = C.ret
        n, k = s_len(a), s_len(b)
        yield 'true only if the text is long enough', b_imp(r, le(k, n))
        yield 'true only if the last characters agree', b_imp(r, All(0, k, lambda j: eq(lower_at(a, add(sub(n, k), j)), lower_at(b, j))))
        yield 'false only if it is too short or a character differs', b_or(r, lt(n, k), *[
            b_and(le(0, j), lt(j, k), b_not(eq(lower_at(a, add(sub(n, k), j)), lower_at(b, j)))) for j in list(ex.idx_terms) + [0]])

    def t(ctx):
        ex = ctx.ex
        C = getattr(ex, 'cur_call', None)
        if C is None or len(C.args) != 2:
            return
        a, b = C.oldarg(0), C.oldarg(1)
        n, k = s_len(a), s_len(b)
        for l in ctx.mods:
            x = ex.load(l)
            if isinstance(x, (int, z3.ArithRef)) and not isinstance(x, bool):
                yield 'agrees so far', lambda c, l=l: All(0, c.cur(l), lambda j: eq(lower_at(a, add(sub(n, k), j)), lower_at(b, j)))
                yield 'in range', lambda c, l=l: (ex.reg_idx(c.cur(l)), b_and(le(0, c.cur(l)), le(c.cur(l), k)))[1]
    templates = (t,)


def dotted(e):
    """the extension with its dot; an empty extension stands for any"""
    e = zs(e)
    return z3.If(z3.Or(e == '', z3.PrefixOf('.', e)), e, z3.Concat(z3.StringVal('.'), e))


def base_name(p):
    f = PF(zs(p))
    return z3.If(z3.PrefixOf('.', f), z3.SubString(f, 1, z3.Length(f) - 1), f)


def has_ext(p):
    f = PF(zs(p))
    return z3.And(f != '..', z3.Contains(z3.SubString(f, 1, z3.Length(f)), '.'))


class only_validation_errors(Spec):
    throws = (VERR,)


@spec
class validate_filename(Spec):
    name = 'validate_filename'
    q = V + 'file_validator_base::validate_filename'
    uses = ('case_insensitive_ends_with',)
    throws = (VERR,)

    def ensures(self, C):
        ex = C.ex
        p = C.oldarg(0)
        if C.applied:
            yield '', eq(C.returned, VALID_NAME(zs(p)))
            return
        es = C.old(C.f('extensions'))
        ok = lambda j: ENDS_CI(base_name(p), dotted(ex.elem_at(es, j)))
        yield 'neither the path nor the validator is modified', b_and(ex.same(C.old(C.this), C.new(C.this)), eq(C.newarg(0), p))
        if C.returned:
            yield 'accepts only names that end in a valid extension', b_or(eq(es.len, 0), b_and(has_ext(p), b_or(*[b_and(le(0, j), lt(j, es.len), ok(j)) for j in list(ex.idx_terms)])))
        else:
            yield 'rejection is a validation error', C.threw(VERR)
            yield 'never rejects without a list of extensions', b_not(eq(es.len, 0))
            yield 'rejects only names that end in no valid extension', All(0, es.len, lambda j: b_or(b_not(has_ext(p)), b_not(ok(j))))


# ------------------------------------------------------------------------------------------------ file system
ANY = 'fs_any'


def any_entry(ex):
    """an arbitrary entry: what is shown for it holds for every entry"""
    p = ex.fresh('any_entry', S)
    ex.fs_path(p)
    ex.ghost[ANY] = p
    return p


def readable(ex, p, kind=K0):
    k = kind(zs(p))
    return z3.Or(z3.And(k == 2, LIST(zs(p))), z3.And(k == 1, ROPEN(zs(p))))


def err(p):
    return STAT_ERR(zs(p))


class fs_spec(Spec):
    removal_ok = True

    def prologue(self, C):
        ex = C.ex
        ex.ghost['fs_removal_ok'] = self.removal_ok
        any_entry(ex)

    def untouched(self, C, entry=None, unless=False):
        """the entry has the kind and, if it existed, the content it had"""
        ex = C.ex
        p = zs(ex.ghost[ANY] if entry is None else entry)
        return b_or(unless, b_and(ex.fs_kind(p) == K0(p), z3.Implies(K0(p) != 0, ex.fs_content(p) == CONT0(p))))


@spec
class validate_readability(fs_spec):
    name = 'validate_readability'
    q = V + 'file_validator_base::validate_readability'
    throws = (VERR, FSERR)

    def ensures(self, C):
        ex = C.ex
        p = C.oldarg(0)
        if C.applied:
            ex.fs_path(p)
        K = lambda q: ex.fs_kind(q) if C.applied else K0(q)
        yield 'C16 accepts exactly readable files and directories', b_imp(b_not(err(p)), eq(C.returned, readable(ex, p, K)))
        yield 'C16 a failing status is an error', b_imp(err(p), b_not(C.returned))
        yield 'C16 other exceptions only if the status fails', b_or(C.returned, C.threw(VERR), err(p))
        if not C.applied:
            yield 'C17 nothing is changed', self.untouched(C)


@spec
class validate_writeability(fs_spec):
    """the probe: afterwards the path is free again if it could be opened, and nothing else has changed"""
    name = 'validate_writeability'
    q = V + 'file_validator_base::validate_writeability'
    throws = (VERR, FSERR)

    def writable(self, ex, p, kind):
        return b_and(b_not(kind == 2), WOPEN(zs(p)), WGOOD(zs(p)))

    def ensures(self, C):
        ex = C.ex
        p = C.oldarg(0)
        if C.applied:
            ex.fs_path(p)
            k = ex.fs_kind(p)
        else:
            k = K0(zs(p))
        yield 'C16 accepts exactly what can be written', b_imp(b_not(err(p)), eq(C.returned, self.writable(ex, p, k)))
        yield 'C16 a failing status is an error', b_imp(err(p), b_not(C.returned))
        yield 'C16 other exceptions only if the status fails', b_or(C.returned, C.threw(VERR), err(p))
        if C.applied:
            ex.assume(b_imp(k == 2, b_not(WOPEN(zs(p)))))
            probed = b_and(b_not(err(p)), b_not(k == 2), WOPEN(zs(p)))
            ex.ghost['probes'] = ex.ghost.get('probes', ()) + ((p, C.returned, k),)
            ex.fs_set(lambda q: b_and(probed, eq(q, p)), 0)
        else:
            a = zs(ex.ghost[ANY])
            yield 'C17 only the probed path is changed', b_or(eq(a, zs(p)), self.untouched(C), BELOW(zs(p), a))
            yield 'C17 a path that did not exist does not exist afterwards', b_imp(K0(zs(p)) == 0, self.untouched(C))
            yield 'C17 nothing is changed if the path cannot be opened', b_imp(b_not(WOPEN(zs(p))), self.untouched(C))


@spec
class input_file(fs_spec):
    name = 'input_file_validator'
    q = V + 'input_file_validator::operator()'
    uses = ('validate_readability', 'validate_filename')

    def accept(self, prog, fn):
        return 'vector' not in fn['params'][0]['type']

    def ensures(self, C):
        p = zs(C.oldarg(0))
        ok = b_and(b_not(err(p)), K0(p) == 1, ROPEN(p), VALID_NAME(p))
        yield 'C16 accepts exactly readable regular files with a valid extension', eq(C.returned, ok)
        yield 'C16 rejection is a validation error', b_or(C.returned, C.threw(VERR))
        yield 'C17 nothing is changed', self.untouched(C)


@spec
class output_file(fs_spec):
    name = 'output_file_validator'
    q = V + 'output_file_validator::operator()'
    uses = ('validate_writeability', 'validate_filename')
    CREATE_NEW = 1

    def accept(self, prog, fn):
        return 'vector' not in fn['params'][0]['type']

    def requires(self, C):
        m = C.old(C.f('open_mode'))
        yield 'one of the two modes', b_or(eq(m, 0), eq(m, 1))

    def ensures(self, C):
        p = zs(C.oldarg(0))
        new = eq(C.old(C.f('open_mode')), self.CREATE_NEW)
        ok = b_and(b_not(err(p)), b_not(K0(p) == 2), WOPEN(p), WGOOD(p), VALID_NAME(p), b_or(b_not(new), K0(p) == 0))
        yield 'C16 accepts exactly writable files with a valid extension that may be created or overwritten', eq(C.returned, ok)
        yield 'C16 rejection is a validation error', b_or(C.returned, C.threw(VERR))
        # known finding: in open_or_create mode the probe removes the existing file it has opened
        probed = b_and(b_not(new), b_not(K0(p) == 0), WOPEN(p), VALID_NAME(p), b_not(err(p)))
        yield 'C17 nothing is changed', self.untouched(C, unless=b_and(probed, eq(zs(C.ex.ghost[ANY]), p)))


@spec
class input_directory(fs_spec):
    name = 'input_directory_validator'
    q = V + 'input_directory_validator::operator()'
    uses = ('validate_readability',)

    def accept(self, prog, fn):
        return 'vector' not in fn['params'][0]['type']

    def ensures(self, C):
        p = zs(C.oldarg(0))
        yield 'C16 accepts exactly readable directories', eq(C.returned, b_and(b_not(err(p)), K0(p) == 2, LIST(p)))
        yield 'C16 rejection is a validation error', b_or(C.returned, C.threw(VERR))
        yield 'C17 nothing is changed', self.untouched(C)


def probe_stays_below(ctx):
    ex = ctx.ex
    C = getattr(ex, 'cur_call', None)
    if C is None or len(C.args) != 1 or not isinstance(C.args[0], Loc):
        return
    d = C.oldarg(0)
    for l in ctx.mods:
        if isinstance(ex.load(l), (str, z3.SeqRef)):
            yield 'the probe is an entry of the directory', lambda c, l=l: b_and(BELOW(zs(d), zs(c.cur(l))), b_not(eq(zs(d), zs(c.cur(l)))))


@spec
class output_directory(fs_spec):
    name = 'output_directory_validator'
    q = V + 'output_directory_validator::operator()'
    uses = ('validate_writeability',)
    templates = (probe_stays_below,)

    def accept(self, prog, fn):
        return 'vector' not in fn['params'][0]['type']

    def ensures(self, C):
        ex = C.ex
        p = zs(C.oldarg(0))
        probes = ex.ghost.get('probes', ())
        usable = b_or(K0(p) == 2, b_and(K0(p) == 0, MKDIR(p)))
        yield 'C16 at most one entry is probed', len(probes) <= 1
        for q, ok, k in probes:
            yield 'C16 the probe lies in the directory and did not exist', b_and(BELOW(p, zs(q)), b_not(eq(p, zs(q))), K0(zs(q)) == 0)
            yield 'C16 the directory exists or was created', usable
            yield 'C16 accepts exactly if the probe can be written', eq(C.returned, ok)
        if not probes:
            q = ex.load_probe if hasattr(ex, 'load_probe') else None
            yield 'C16 rejects without a probe only if it does not exist and cannot be created or a status fails', b_and(
                b_not(C.returned), b_or(b_not(usable), C.ex.ghost.get('status_failed', False), err(p), *[err(x) for x in ex.ghost.get('fs_paths', [])]))
        yield 'C16 rejection is a validation error', b_or(C.returned, C.threw(VERR))
        yield 'C17 nothing is changed', self.untouched(C)


@spec
class all_paths(Spec):
    """a list of paths: each element is asked, in order, until one is rejected"""
    name = 'path_list_validator'
    q = V + 'file_validator_base::operator()'
    throws = (VERR,)

    def accept(self, prog, fn):
        return 'vector' in fn['params'][0]['type'] and bool(fn.get('body'))

    def proof_env(self, ex, fn):
        def ask(ex, c, args, n):
            """the (virtual) validator of one path; whether it accepts depends on the path only"""
            v = ex.as_str(args[1])
            if ex.branch(PATH_OK(zs(v))):
                return None
            ex.throw(VERR, ex.fresh('msg', S))
        ex.libover['sharg::file_validator_base::operator()'] = ask

    def ensures(self, C):
        ex = C.ex
        v = C.oldarg(0)
        ok = lambda j: PATH_OK(zs(ex.elem_at(v, j)))
        yield 'C16 the list is not modified', ex.same(v, C.newarg(0))
        if C.returned:
            yield 'C16 accepts only if every element is accepted', All(0, v.len, ok)
        else:
            yield 'C16 rejection is what the element was rejected with', C.threw(VERR)
            yield 'C16 rejects only if an element is rejected', b_or(*[b_and(le(0, j), lt(j, v.len), b_not(ok(j))) for j in list(ex.idx_terms) + [0]])

    templates = (accepted_before(lambda C, x: PATH_OK(zs(x))),)


# ------------------------------------------------------------------------------------------------ C26
class guard(fs_spec):
    removal_ok = False
    cls = V + 'detail::safe_filesystem_entry'

    def failed(self, C):
        return b_or(*C.ex.ghost.get('fs_removals', ()))

    def entry(self, C):
        return zs(C.old(C.f('entry')))

    def proof_env(self, ex, fn):
        def stop(ex):
            """the destructor asserts that the removal succeeded: it may only fail otherwise"""
            from cxv.engine import StopPath
            ex.oblige('the assertion fails only if the removal failed', b_or(*ex.ghost.get('fs_removals', ())), 'post')
            raise StopPath()
        ex.libover['__assert_fail'] = stop

    def others(self, C):
        ex = C.ex
        a = zs(ex.ghost[ANY])
        return b_or(BELOW(self.entry(C), a), self.untouched(C))


@spec
class guard_dtor(guard):
    name = 'guard_destructor'
    q = V + 'detail::safe_filesystem_entry::~safe_filesystem_entry'

    def ensures(self, C):
        ex = C.ex
        e = self.entry(C)
        yield 'does not throw', C.returned
        yield 'the entry is gone unless removing it failed', b_or(ex.fs_kind(e) == 0, self.failed(C))
        a = zs(ex.ghost[ANY])
        yield 'everything below the entry is gone unless removing it failed', b_imp(BELOW(e, a), b_or(ex.fs_kind(a) == 0, self.failed(C)))
        yield 'nothing else is removed', self.others(C)


@spec
class guard_ctor(guard):
    name = 'guard_constructor'
    q = V + 'detail::safe_filesystem_entry::safe_filesystem_entry'

    def accept(self, prog, fn):
        return bool(fn.get('body')) and len(fn['params']) == 1 and 'path' in fn['params'][0]['type']

    def ensures(self, C):
        yield 'returns', C.returned
        yield 'owns the given entry', eq(zs(C.new(C.f('entry'))), zs(C.oldarg(0)))
        yield 'changes nothing', self.untouched(C)


@spec
class guard_remove(guard):
    name = 'guard_remove'
    q = V + 'detail::safe_filesystem_entry::remove'

    def ensures(self, C):
        ex = C.ex
        e = self.entry(C)
        yield 'the entry is gone or an exception says why not', b_or(b_and(C.returned, ex.fs_kind(e) == 0), C.threw(FSERR))
        yield 'nothing else is removed', b_or(eq(e, zs(ex.ghost[ANY])), self.untouched(C))
        yield 'still owns the entry', eq(zs(C.new(C.f('entry'))), e)


@spec
class guard_remove_no_throw(guard):
    name = 'guard_remove_no_throw'
    q = V + 'detail::safe_filesystem_entry::remove_no_throw'

    def ensures(self, C):
        ex = C.ex
        e = self.entry(C)
        yield 'does not throw', C.returned
        yield 'the entry is gone unless removing it failed', b_or(ex.fs_kind(e) == 0, self.failed(C))
        yield 'nothing else is removed', b_or(eq(e, zs(ex.ghost[ANY])), self.untouched(C))
        yield 'still owns the entry', eq(zs(C.new(C.f('entry'))), e)


@spec
class guard_remove_all(guard):
    name = 'guard_remove_all'
    q = V + 'detail::safe_filesystem_entry::remove_all'

    def ensures(self, C):
        ex = C.ex
        e = self.entry(C)
        yield 'the entry is gone or an exception says why not', b_or(b_and(C.returned, ex.fs_kind(e) == 0), C.threw(FSERR))
        yield 'nothing else is removed', self.others(C)
        yield 'still owns the entry', eq(zs(C.new(C.f('entry'))), e)


# ------------------------------------------------------------------------------------------------ constructors
class stores_extensions(Spec):
    mode = None

    def accept(self, prog, fn):
        return bool(fn.get('body')) and fn['params'] and not any(bare(p['type']) == bare(fn.get('cls') or '') for p in fn['params'])

    def given(self, C):
        """the list of extensions among the arguments"""
        ex = C.ex
        a = [C.oldarg(i) for i in range(len(C.args))]
        if a and isinstance(a[-1], Vec):
            return a[-1].len, lambda j: ex.elem_at(a[-1], j)
        xs = [x for i, x in enumerate(a) if not (i == 0 and 'open_options' in C.ptype(0))]
        return len(xs), lambda j: ex.as_str(xs[j]) if isinstance(j, int) else None

    def ensures(self, C):
        ex = C.ex
        yield 'returns', C.returned
        if not C.returned:
            return
        v = C.new(C.f('extensions'))
        n, at = self.given(C)
        yield 'C18 exactly the given extensions', eq(v.len, n)
        if isinstance(n, int):
            for j in range(n):
                yield 'C18 the given extensions', eq(ex.elem_at(v, j), at(j))
        else:
            yield 'C18 the given extensions', All(0, n, lambda j: eq(ex.elem_at(v, j), at(j)))
        if 'output' in C.fn['cls']:
            m = C.oldarg(0) if 'open_options' in C.ptype(0) else output_file.CREATE_NEW
            yield 'C16 the given mode, by default create_new', eq(C.new(C.f('open_mode')), m)


@spec
class input_file_ctor(stores_extensions):
    name = 'input_file_validator_ctor'
    q = V + 'input_file_validator::input_file_validator'


@spec
class output_file_ctor(stores_extensions):
    name = 'output_file_validator_ctor'
    q = V + 'output_file_validator::output_file_validator'
