"""Function contracts: a Spec is proved against the body of every instance of its function and assumed at call sites."""
import os, time
import z3
from .vals import *
from .lib import VC


NPROC = min(8, os.cpu_count() or 4)


class Call:
    """one activation of a function under contract"""
    def __init__(self, ex, fn, this, args, spec):
        self.ex, self.fn, self.this, self.args, self.spec = ex, fn, this, list(args), spec
        self.pre = dict(ex.store)
        self.out, self.ret, self.exc, self.code = None, None, None, None
        self.applied = False
        self.x = {}

    def arg(self, name):
        for p, a in zip(self.fn['params'], self.args):
            if p['name'] == name:
                return a
        raise Unsupported('parameter %s of %s' % (name, self.fn['q']))

    def old(self, loc):
        return self.ex.load_in(self.pre, loc) if isinstance(loc, Loc) else loc

    def new(self, loc):
        return self.ex.load(loc) if isinstance(loc, Loc) else loc

    def oldarg(self, i):
        a = self.args[i] if isinstance(i, int) else self.arg(i)
        return self.old(a)

    def newarg(self, i):
        a = self.args[i] if isinstance(i, int) else self.arg(i)
        return self.new(a)

    def ptype(self, i):
        return bare(self.fn['params'][i]['type'])

    def f(self, *names):
        l = self.this
        for n in names:
            l = l.f(n)
        return l

    @property
    def returned(self):
        return self.out == 'ret'

    def threw(self, t=None):
        if self.out != 'throw':
            return False
        return t is None or self.ex.prog.is_a(self.exc.type, t)


class Spec:
    name = None
    q = None                # qualified name without template arguments
    throws = ()             # exception types for application
    uses = ()               # names of contracts assumed when proving this one
    props = ()
    templates = ()
    tmo = 4000
    cvc = 12
    budget = 150
    feas_tmo = 700
    par = False             # explore its paths in parallel
    one_of_many = False

    def fns(self, prog):
        return [f for f in prog.functions(self.q) if self.accept(prog, f)]

    def accept(self, prog, fn):
        return True

    def label(self, fn):
        return '%s#%d(%s)' % (self.name, fn['id'], ', '.join(bare(p['type'])[:40] for p in fn['params']))

    def setup(self, ex, fn):
        """symbolic pre-state; returns (this, args)"""
        this = None
        if fn.get('cls') and not fn.get('static'):
            c = bare(fn['cls'])
            this = ex.new_root(('this',), c, ex.sym(c, 'this'))
        args = [self.sym_arg(ex, p) for p in fn['params']]
        return this, args

    def sym_arg(self, ex, p):
        t = bare(p['type'])
        v = ex.sym(t, p['name'] or 'arg')
        return ex.new_root(('arg', p['name'], p['id']), t, v)

    def requires(self, C):
        return []

    def ensures(self, C):
        return []

    def effects(self, C):
        """havoc what the function may modify (application only)"""

    def result(self, C):
        r = C.fn['ret']
        return None if bare(r) == 'void' else C.ex.sym(r, 'ret_' + self.name)

    def exc_value(self, C, t):
        return ExcVal(t, C.ex.fresh('msg', S))

    def after_apply(self, C):
        """ghost updates of the caller's obligations"""

    def applicable(self, C):
        return True

    # ---------------------------------------------------------------- use
    def handler(self):
        def h(ex, fn, this, args, node):
            C = Call(ex, fn, this, args, self)
            C.applied = True
            if not self.applicable(C):
                return NotImplemented
            for n, g in self.requires(C):
                ex.oblige('precondition of %s: %s' % (self.name, n), g, 'pre')
            outs = ['ret'] + list(self.throws) if not getattr(self, 'noreturn', False) else list(self.throws)
            k = ex.choose(len(outs), self.name)
            self.effects(C)
            if outs[k] == 'ret':
                C.out = 'ret'
                C.ret = self.result(C)
            else:
                C.out = 'throw'
                C.exc = self.exc_value(C, outs[k])
            for n, g in self.ensures(C):
                ex.assume(g)
            if not ex.feasible(z3.BoolVal(True)):
                raise StopPath()
            self.after_apply(C)
            if C.out == 'throw':
                raise CxxThrow(C.exc)
            return C.ret
        return h

    def prologue(self, C):
        """ghost state of the proof"""

    def proof_env(self, ex, fn):
        """extra hooks while proving"""

    def prove(self, ex, fn):
        def thunk():
            this, args = self.setup(ex, fn)
            C = Call(ex, fn, this, args, self)
            for n, g in self.requires(C):
                ex.assume(g)
            ex.cur_call = C
            self.prologue(C)
            run_body(ex, C)
            if not ex.live.get(C.out):
                ex.live[C.out] = ex.feasible(z3.BoolVal(True))
            for n, g in self.ensures(C):
                ex.oblige('%s: %s' % (self.name, n), g, 'post')
        ex.no_contract_for = fn['id']
        ex.loop_templates = list(self.templates)
        self.proof_env(ex, fn)
        ex.explore(thunk)


def run_body(ex, C):
    fn = C.fn
    try:
        C.ret = ex.call_fn(fn, C.this, C.args)
        C.out = 'ret'
    except CxxThrow as e:
        del ex.frames[:]
        C.out, C.exc = 'throw', e.ev
    except ExitCall as e:
        del ex.frames[:]
        C.out, C.code = 'exit', e.code


class Registry:
    def __init__(self):
        self.specs = {}

    def add(self, cls):
        s = cls() if isinstance(cls, type) else cls
        if s.name is None:
            s.name = type(s).__name__
        self.specs[s.name] = s
        return cls


REG = Registry()
spec = REG.add


def closure(names):
    seen = []
    todo = list(names)
    while todo:
        n = todo.pop(0)
        if n in seen:
            continue
        seen.append(n)
        todo += list(REG.specs[n].uses)
    return seen


def run_task(prog, name, fnid, verbose=False, disabled=()):
    """prove one contract for one instance; returns a picklable record"""
    s = REG.specs[name]
    fn = prog.fn[fnid] if fnid is not None else None
    t0 = time.time()
    ex = VC(prog, name, tmo=s.tmo, cvc_tmo=s.cvc, verbose=verbose)
    ex.deadline = t0 + s.budget
    ex.live = {}
    ex.par = NPROC if s.par else 1
    ex.feas_tmo = s.feas_tmo
    for u in s.uses:
        if u in disabled:
            continue
        us = REG.specs[u]
        h = us.handler()
        for f in us.fns(prog):
            ex.contracts[f['id']] = h
    rec = {'spec': name, 'fn': fnid, 'q': fn['q'] if fn else name, 'label': s.label(fn) if fn else name, 'error': None}
    try:
        s.prove(ex, fn)
    except (Unsupported, Impure) as e:
        rec['error'] = '%s (at %s:%s)' % (e, ex.frames[-1].fn['q'] if ex.frames and ex.frames[-1].fn else '?', ex.cur_line)
        if verbose:
            import traceback
            traceback.print_exc()
    except RecursionError:
        rec['error'] = 'recursion'
    except (AttributeError, KeyError, TypeError, IndexError, ValueError, AssertionError, z3.Z3Exception) as e:
        import traceback
        rec['error'] = 'internal: %s: %s' % (type(e).__name__, e)
        rec['trace'] = traceback.format_exc()[-1500:]
        if verbose:
            traceback.print_exc()
    rec['obs'] = [(o.name, o.kind, o.result, o.backend, round(o.time, 4), o.line, o.fn, (o.model or '')[:3000], o.goal if o.result != 'unsat' else '')
                  for o in ex.obs]
    rec['paths'] = ex.npaths
    rec['live'] = {k: bool(v) for k, v in ex.live.items()}
    if rec['error'] is None and not any(ex.live.values()) and not getattr(s, 'lemma', False):
        rec['error'] = 'vacuous: no feasible path reaches the postcondition'
    rec['inlined'] = sorted({prog.fn[i]['q'] for i in ex.inlined if i in prog.fn})
    rec['contracts'] = sorted({prog.fn[i]['q'] for i in ex.used_contracts if i in prog.fn})
    rec['trusted'] = sorted(ex.trusted)
    rec['dropped'] = sum(len(l.dropped) for l in ex.loops.values())
    rec['dropdesc'] = [str(d)[:150] for l in ex.loops.values() for d in l.dropped]
    rec['soft_unknown'] = ex.soft_unknown
    rec['loops'] = len(ex.loops)
    rec['time'] = time.time() - t0
    return rec


from .engine import Impure  # noqa: E402
