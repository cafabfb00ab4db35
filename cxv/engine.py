"""Symbolic executor / verification condition generator over the IR extracted from /repo.

Every path of a function is explored by re-execution; loops are cut by inductive invariants (candidates pruned
Houdini-style); calls use the callee's contract when there is one and inline the callee's real body otherwise."""
import json, os, pickle, re, select, subprocess, tempfile, time, traceback
import z3
from .vals import *

CVC5 = '/usr/bin/cvc5' if os.path.exists('/usr/bin/cvc5') else 'cvc5'
MAXLEN = 1 << 30


def strip_targs(q):
    out, d = [], 0
    i = 0
    q = q.replace('operator<<', 'operator\x01\x01').replace('operator<=>', 'operator\x01=\x02')
    q = q.replace('operator->', 'operator-\x02').replace('operator>>', 'operator\x02\x02')
    q = q.replace('operator<=', 'operator\x01=').replace('operator>=', 'operator\x02=')
    q = re.sub(r'operator<$', 'operator\x01', q)
    q = re.sub(r'operator>$', 'operator\x02', q)
    for ch in q:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            out.append(ch)
    return ''.join(out).replace('\x01', '<').replace('\x02', '>')


def zcheck(s):
    try:
        return s.check()
    except z3.Z3Exception:      # resource limits inside the solver: no answer
        return z3.unknown


_short = {}
def short(q):
    r = _short.get(q)
    if r is None:
        r = strip_targs(q)
        for p in ('std::__cxx11::', 'std::', '__gnu_cxx::', '__cxx11::', '__detail::'):
            r = r.replace(p, '')
        r = r.replace('basic_string_view::', 'string_view::').replace('basic_string::', 'string::')
        _short[q] = r
    return r


class Prog:
    def __init__(self, ir):
        self.fn = {f['id']: f for f in ir['functions']}
        self.byq = {}
        for f in ir['functions']:
            self.byq.setdefault(strip_targs(f['q']), []).append(f)
        self.rec = {r['name']: r for r in ir['records']}
        self.recid = {r['id']: r for r in ir['records']}
        self.globals = ir['globals']
        self.variant = ir.get('variant', '')
        self.override = {}
        for f in ir['functions']:
            for o in f.get('overrides', []):
                self.override.setdefault(o, []).append(f)
        self.dtor = {}
        for f in ir['functions']:
            if f['q'].split('::')[-1].startswith('~') and f.get('cls'):
                self.dtor[f['cls']] = f
        self.n = 0
        for f in ir['functions']:
            self._number(f)

        for g in ir['globals'].values():
            self._number(g)
        for r in ir['records']:
            self._number(r)
        self.exc_bases = {}
        for r in ir['records']:
            self.exc_bases[r['name']] = r['bases']
        std = {'std::runtime_error': ['std::exception'], 'std::logic_error': ['std::exception'],
               'std::out_of_range': ['std::logic_error'], 'std::length_error': ['std::logic_error'],
               'std::invalid_argument': ['std::logic_error'],
               'std::bad_optional_access': ['std::exception'], 'std::regex_error': ['std::runtime_error'],
               'std::system_error': ['std::runtime_error'], 'std::bad_alloc': ['std::exception'],
               'std::filesystem::filesystem_error': ['std::system_error'], 'std::exception': [],
               'user::other': [], 'user::exception': ['std::exception']}
        for k, v in std.items():
            self.exc_bases.setdefault(k, v)

    def _number(self, n):
        if isinstance(n, dict):
            if 'k' in n:
                self.n += 1
                n['_u'] = self.n
            for v in n.values():
                self._number(v)
        elif isinstance(n, list):
            for v in n:
                self._number(v)

    def is_a(self, t, base):
        if t == base:
            return True
        return any(self.is_a(b, base) for b in self.exc_bases.get(t, []))

    def functions(self, q, pred=None):
        """definitions whose qualified name (without template arguments) is q"""
        return [f for f in self.byq.get(q, []) if pred is None or pred(f)]

    def all_fields(self, recname):
        r = self.rec.get(recname)
        if r is None:
            return None
        out = []
        for b in r['bases']:
            out += self.all_fields(b) or []
        return out + r['fields']


class Frame:
    def __init__(self, key, fn, this=None):
        self.key, self.fn, self.this = key, fn, this
        self.env = {}
        self.names = {}
        self.scopes = []


class LoopInfo:
    def __init__(self):
        self.mod = {}       # key -> Loc
        self.dropped = set()
        self.desc = ''


class LoopCtx:
    """what a loop template may look at"""
    def __init__(self, ex, info, node, frame, entry):
        self.ex, self.info, self.node, self.frame, self.entry = ex, info, node, frame, entry
        self.mods = list(info.mod.values())

    def cur(self, loc):
        return self.ex.load(loc)

    def ent(self, loc):
        return self.ex.load_in(self.entry, loc)

    def typ(self, loc):
        return self.ex.type_of(loc)

    def locals(self):
        """(name, type, loc) of the variables visible in the frame"""
        out = []
        for vid, loc in self.frame.env.items():
            if isinstance(loc, Loc):
                nm, ty = self.frame.names.get(vid, ('?', '?'))
                out.append((nm, ty, loc))
        return out


class NoTemplate(Exception):
    pass


class NeedBranch(Exception):
    pass


class Impure(Exception):
    pass


class Ob:
    __slots__ = ('name', 'kind', 'fn', 'line', 'result', 'backend', 'time', 'model', 'aux', 'goal', 'path')


class Ex:
    def __init__(self, prog, name, tmo=4000, cvc_tmo=12, verbose=False):
        self.prog = prog
        self.both_feasible = set()
        self.name = name
        self.contracts = {}      # fn id -> handler(ex, fn, this, args, node) -> value | NotImplemented
        self.libover = {}        # short name -> handler
        self.loop_templates = []
        self.tmo, self.cvc_tmo = tmo, cvc_tmo
        self.verbose = verbose
        self.loops = {}
        self.obs = []
        self.ob_cache = {}
        self.feas_cache = {}
        self.npaths = 0
        self.inlined = set()
        self.used_contracts = set()
        self.trusted = set()
        self.deadline = None
        self.stats = {'feas': 0, 'feas_t': 0.0}
        self.max_paths = 4000
        self.cur_line = 0
        self.hints = []
        self.frames = []

    # ------------------------------------------------------------------ exploration
    def explore(self, thunk):
        """run thunk on every path; thunk receives nothing and uses self"""
        if self.par > 1:
            return self.explore_par(thunk)
        restarts = 0
        while True:
            stack = [()]
            self.npaths = 0
            try:
                while stack:
                    if self.deadline and time.time() > self.deadline:
                        raise Unsupported('time budget of the function exhausted')
                    prefix = stack.pop()
                    self.start_path(prefix)
                    self.npaths += 1
                    if self.npaths > self.max_paths:
                        raise Unsupported('too many paths')
                    try:
                        thunk()
                    except StopPath:
                        pass
                    # schedule the alternatives
                    for i in range(len(self.dec) - 1, len(prefix) - 1, -1):
                        v, alt = self.dec[i]
                        if alt:
                            stack.append(tuple(self.dec[:i]) + ((not v, False),))
                return
            except Restart:
                restarts += 1
                if restarts > 120:
                    raise Unsupported('loop analysis does not converge')
                self.obs = [o for o in self.obs if o.kind == 'keep']
                self.ob_cache = {}
                self.feas_cache = {}

    par = 1

    def explore_par(self, thunk):
        """the same, every path in a process of its own; candidate invariants that fail anywhere are dropped everywhere"""
        restarts = 0
        t00 = time.time()
        while True:
            pending, running, again = [()], {}, None
            self.npaths = 0
            try:
                while (pending or running) and not (again and not running):
                    if self.deadline and time.time() > self.deadline:
                        raise Unsupported('time budget of the function exhausted')
                    while pending and len(running) < self.par and again is None:
                        prefix = pending.pop()
                        self.npaths += 1
                        if self.npaths > self.max_paths:
                            raise Unsupported('too many paths')
                        pid, rd = self.fork_path(thunk, prefix)
                        running[rd] = (pid, prefix, [])
                    if again is not None and time.time() > again:
                        break
                    ready, _, _ = select.select(list(running), [], [], 1.0)
                    for rd in ready:
                        pid, prefix, buf = running[rd]
                        b = os.read(rd, 1 << 20)
                        if b:
                            buf.append(b)
                            continue
                        os.close(rd)
                        os.waitpid(pid, 0)
                        del running[rd]
                        data = b''.join(buf)
                        if not data:
                            raise Unsupported('a path was ended (memory?)')
                        r = pickle.loads(data)
                        st = self.merge_path(r)
                        if os.environ.get('CXV_PAR'):
                            print('%.1f path %s %s obs %d st %s run %d pend %d' % (time.time() - t00, prefix and ''.join('TF'[not x[0]] for x in prefix), r['status'], len(r['obs']), st, len(running), len(pending)), [o.time for o in r['obs'] if o.time > 2], flush=True)
                        if r['status'] == 'restart' or st:
                            again = again or time.time() + 4.0
                        elif r['status'] == 'unsup':
                            raise Unsupported(r['msg'])
                        elif r['status'] == 'error':
                            raise AssertionError(r['msg'])
                        dec = r['dec']
                        for i in range(len(prefix), len(dec)):
                            v, alt = dec[i]
                            if alt:
                                pending.append(tuple(dec[:i]) + ((not v, False),))
            finally:
                for rd, (pid, _, _) in running.items():
                    os.close(rd)
                    try:
                        os.kill(pid, 9)
                    except OSError:
                        pass
                    os.waitpid(pid, 0)
            if again is None:
                return
            if os.environ.get('CXV_PAR'):
                print('ROUND', [(l.desc[-30:], len(l.mod), [str(d)[-60:] for d in l.dropped]) for l in self.loops.values()], flush=True)
            restarts += 1
            if restarts > 120:
                raise Unsupported('loop analysis does not converge')
            self.obs = []
            self.ob_cache = {}

    def fork_path(self, thunk, prefix):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid:
            os.close(wr)
            return pid, rd
        try:
            os.close(rd)
            r = self.one_path(thunk, prefix)
            data = pickle.dumps(r)
            with os.fdopen(wr, 'wb') as f:
                f.write(data)
        except BaseException as e:  # noqa
            try:
                with os.fdopen(wr, 'wb') as f:
                    f.write(pickle.dumps({'status': 'error', 'msg': '%s: %s %s' % (type(e).__name__, e, traceback.format_exc()[-800:]), 'dec': []}))
            except BaseException:  # noqa
                pass
        finally:
            os._exit(0)

    def one_path(self, thunk, prefix):
        nobs, cache0, feas0 = len(self.obs), set(self.ob_cache), set(self.both_feasible)
        status, msg = 'ok', ''
        self.start_path(prefix)
        try:
            thunk()
        except StopPath:
            pass
        except Restart:
            status = 'restart'
        except (Unsupported, Impure) as e:
            status, msg = 'unsup', '%s (at %s:%s)' % (e, self.frames[-1].fn['q'] if self.frames and self.frames[-1].fn else '?', self.cur_line)
        return {'status': status, 'msg': msg, 'dec': list(self.dec), 'obs': self.obs[nobs:],
                'cache': {k: v for k, v in self.ob_cache.items() if k not in cache0}, 'feas': self.both_feasible - feas0,
                'loops': {k: (dict(l.mod), set(l.dropped), l.desc) for k, l in self.loops.items()},
                'inlined': self.inlined, 'used': self.used_contracts, 'trusted': self.trusted, 'live': getattr(self, 'live', {}), 'soft_unknown': self.soft_unknown}

    def merge_path(self, r):
        """returns whether a loop's analysis changed"""
        if r['status'] == 'error':
            return False
        self.obs += r['obs']
        self.soft_unknown = max(self.soft_unknown, r['soft_unknown'])
        self.ob_cache.update(r['cache'])
        self.both_feasible |= r['feas']
        self.inlined |= r['inlined']
        self.used_contracts |= r['used']
        self.trusted |= r['trusted']
        for k, v in r['live'].items():
            self.live[k] = self.live.get(k) or v
        changed = False
        for k, (mod, dropped, desc) in r['loops'].items():
            l = self.loops.setdefault(k, LoopInfo())
            l.desc = l.desc or desc
            new = {a: b for a, b in mod.items() if a not in l.mod}
            if new:
                l.mod.update(new)
                l.dropped.clear()
                l.gen = getattr(l, 'gen', 0) + 1
                changed = True
            elif set(mod) == set(l.mod) and not dropped <= l.dropped:
                l.dropped |= dropped
                changed = True
        return changed

    def start_path(self, prefix):
        self.prefix = prefix
        self.dec = []
        self.store = {}
        self.types = {}
        self.asserts = []
        self.foralls = []
        self.idx_terms = []
        self.idx_seen = set()
        self.unfolded = set()
        self.counter = {}
        self.obn = 0
        self.solver = z3.Solver()
        self.solver.set('timeout', 700)
        self.nest = None
        self.nobranch = 0
        self.frames = []
        self.ghost = {}
        self.cur_exc = []
        self.trace = []
        self.callpath = []
        self.purecache_n = 0

    def fresh(self, prefix, sort):
        if self.tmpl_mode:
            raise NoTemplate()
        n = self.counter.get(prefix, 0)
        self.counter[prefix] = n + 1
        return z3.Const('%s!%d' % (prefix, n), sort)

    # ------------------------------------------------------------------ assumptions
    def assume(self, f):
        if self.tmpl_mode:
            raise NoTemplate()
        if isinstance(f, All):
            self.add_forall(f)
            return
        if isinstance(f, (list, tuple)):
            for g in f:
                self.assume(g)
            return
        if isinstance(f, bool):
            if not f:
                self.solver.add(z3.BoolVal(False))
                self.asserts.append(z3.BoolVal(False))
            return
        if self.nest is not None:
            self.nest.facts.append((list(self.nest.conds), f))
        self.asserts.append(f)
        self.solver.add(f)

    def add_forall(self, f):
        if self.nest is not None:
            raise Impure('quantified fact in nested evaluation')
        f.store = dict(self.store)      # the fact is about the state it is assumed in
        self.foralls.append(f)
        for t in list(self.idx_terms):
            self.inst(f, t)

    def inst(self, f, t):
        if f.only is not None and not f.only(t):
            return
        c = b_and(le(f.lo, t), lt(t, f.hi))
        if c is False:
            return
        g = self.template(f, t)
        self.assume(b_imp(c, b_and(*g) if isinstance(g, (list, tuple)) else g))

    def template(self, f, t):
        """the instance of f at t, in the state f was assumed in; f's body is built once and substituted when building it
        has no side effect"""
        cur, self.store = self.store, dict(f.store)
        try:
            return self.template0(f, t)
        finally:
            self.store = cur

    def template0(self, f, t):
        if isinstance(t, int) or self.nest is not None:
            return f.fn(t)
        if f.tmpl is None:
            sav = self.tmpl_mode
            self.tmpl_mode = True
            ph = z3.Int('template!index')
            try:
                g = f.fn(ph)
                if isinstance(g, (list, tuple)):
                    g = b_and(*g)
                f.tmpl = g if is_z3(g) and not isinstance(g, bool) else False
            except NoTemplate:
                f.tmpl = False
            finally:
                self.tmpl_mode = sav
        if f.tmpl is False:
            return f.fn(t)
        return z3.substitute(f.tmpl, (z3.Int('template!index'), t))

    tmpl_mode = False
    feas_tmo = 700
    soft_unknown = 0        # invariant candidates dropped without a countermodel

    def reg_idx(self, t):
        """t is an index that matters: instantiate the quantified facts there"""
        if self.tmpl_mode:
            raise NoTemplate()
        k = t if isinstance(t, int) else t.get_id()
        if k in self.idx_seen:
            return
        if not isinstance(t, int) and z3.is_int_value(t):
            return self.reg_idx(t.as_long())
        self.idx_seen.add(k)
        self.idx_terms.append(t)
        if self.nest is not None:
            self.nest.newidx.append(t)
        for f in list(self.foralls):
            self.inst(f, t)

    skolem = False

    def idx_dependent(self):
        """the fact being built mentions the index terms seen so far: do not reuse it for others"""
        if self.tmpl_mode:
            raise NoTemplate()
        return list(self.idx_terms)

    def hint(self, t):
        """instantiate the quantified facts at t while this goal is proved"""
        if self.skolem:
            self.skolem = False
            self.reg_idx(t)
            self.skolem = True
        return True

    # ------------------------------------------------------------------ branching
    def feasible(self, c):
        t0 = time.time()
        self.stats['feas'] += 1
        self.solver.push()
        self.solver.add(c)
        self.solver.set('timeout', self.feas_tmo)
        r = zcheck(self.solver)
        self.solver.set('timeout', 700)
        self.solver.pop()
        self.stats['feas_t'] += time.time() - t0
        return r != z3.unsat

    def branch(self, c):
        if self.tmpl_mode:
            raise NoTemplate()
        c = mk_bool(c) if not isinstance(c, bool) else c
        if isinstance(c, bool):
            return c
        if self.nobranch:
            raise NeedBranch()
        if self.nest is not None:
            d, prefix = self.nest.dec, self.nest.prefix
            key = None
        else:
            d, prefix = self.dec, self.prefix
        i = len(d)
        if i < len(prefix):
            v, alt = prefix[i]
            d.append((v, alt))
        else:
            # assumptions only get weaker from restart to restart: what was feasible stays so
            key = tuple(x[0] for x in d) if self.nest is None else None
            if key is not None and key in self.both_feasible:
                ft = ff = True
            else:
                ft = self.feasible(c)
                ff = self.feasible(z3.Not(c)) if ft else True
                if key is not None and ft and ff:
                    self.both_feasible.add(key)
            if ft and ff:
                v = True
                d.append((True, True))
            else:
                v = ft
                d.append((v, False))
        cc = c if v else z3.Not(c)
        if self.nest is not None:
            self.nest.conds.append(cc)
        self.asserts.append(cc)
        self.solver.add(cc)
        return v

    def choose(self, n, what=''):
        """demonic choice between 0..n-1 (all are explored)"""
        for i in range(n - 1):
            b = self.fresh('choice_%s' % what, B)
            if self.branch(b):
                return i
        return n - 1

    def known(self, c, tmo=None):
        """c follows from what is assumed (cheap check)"""
        if isinstance(c, bool):
            return c
        c = mk_bool(c)
        if isinstance(c, bool):
            return c
        k = (c.get_id(), len(self.asserts))
        self.solver.push()
        self.solver.add(z3.Not(c))
        r = zcheck(self.solver)
        self.solver.pop()
        return r == z3.unsat

    # ------------------------------------------------------------------ obligations
    def where(self):
        fn = self.frames[-1].fn['q'] if self.frames and self.frames[-1].fn else self.name
        return fn, self.cur_line

    def oblige(self, name, goal, kind='post', soft=False, tmo=None):
        """prove goal here; returns True if discharged.  soft: only a candidate, not recorded when it fails"""
        if isinstance(goal, (list, tuple)):
            ok = True
            for i, g in enumerate(goal):
                ok = self.oblige('%s.%d' % (name, i), g, kind, soft, tmo) and ok
                if soft and not ok:
                    return False
            return ok
        self.obn += 1
        nestkey = (tuple(v for v, _ in self.nest.dec), self.nest.id) if self.nest is not None else None
        key = (tuple(v for v, _ in self.dec), self.obn, nestkey, name)
        if key in self.ob_cache:
            ok = self.ob_cache[key]
            if ok:
                self.assume_goal(goal)
            return ok
        fn, line = self.where()
        t0 = time.time()
        r, backend, model = self.prove(goal, tmo, soft)
        dt = time.time() - t0
        ok = r == 'unsat'
        self.ob_cache[key] = ok
        if soft and r == 'unknown':
            self.soft_unknown += 1
        if ok or not soft:
            o = Ob()
            o.name, o.kind, o.fn, o.line, o.result, o.backend, o.time, o.model = name, kind, fn, line, r, backend, dt, model
            o.aux = soft
            o.goal = str(goal)[:2000] if not ok and not isinstance(goal, All) else ''
            o.path = [self.describe_dec()] if not ok else None
            self.obs.append(o)
        if self.verbose and (dt > 1 or not ok):
            print('   [%s] %s %s %s %.1fs %s %s' % (self.name, kind, name, r, dt, backend, self.describe_dec()), flush=True)
        if ok:
            self.assume_goal(goal)
        return ok

    def describe_dec(self):
        return ''.join('T' if v else 'F' for v, _ in self.dec)

    def assume_goal(self, goal):
        if self.nest is not None:
            return
        self.assume(goal)

    def prove(self, goal, tmo=None, soft=False):
        if isinstance(goal, bool):
            if goal:
                return 'unsat', 'simplify', None
            goal = z3.BoolVal(False)
        extra = []
        if isinstance(goal, All):
            sav = (len(self.asserts), len(self.idx_terms), set(self.idx_seen), len(self.foralls))
            self.solver.push()
            nest, self.nest = self.nest, None
            k = self.fresh('sk', I)
            self.assume(b_and(le(goal.lo, k), lt(k, goal.hi)))
            self.skolem = True
            try:
                g = goal.fn(k)
            finally:
                self.skolem = False
            self.reg_idx(k)
            try:
                gs = g if isinstance(g, (list, tuple)) else [g]
                for x in gs:
                    r = self._prove0(x, tmo, soft)
                    if r[0] != 'unsat':
                        return r
                return r
            finally:
                self.solver.pop()
                del self.asserts[sav[0]:]
                del self.idx_terms[sav[1]:]
                self.idx_seen = sav[2]
                self.nest = nest
        return self._prove0(goal, tmo, soft)

    def _prove0(self, goal, tmo, soft):
        if isinstance(goal, bool):
            if goal:
                return 'unsat', 'simplify', None
            goal = z3.BoolVal(False)
        g = z3.simplify(goal)
        if z3.is_true(g):
            return 'unsat', 'simplify', None
        tmo = tmo or (self.tmo * 3 // 8 if soft else self.tmo)
        self.solver.push()
        self.solver.add(z3.Not(goal))
        self.solver.set('timeout', min(tmo, self.tmo * 5 // 8))
        r = zcheck(self.solver)
        model = None
        if r == z3.sat:
            try:
                model = str(self.solver.model())[:6000]
            except z3.Z3Exception:
                model = None
        self.solver.set('timeout', 700)
        self.solver.pop()
        if r == z3.unsat:
            return 'unsat', 'z3', None
        if r == z3.sat:
            return 'sat', 'z3', model
        s = z3.Solver()
        s.set('timeout', tmo)
        for a in self.asserts:
            s.add(a)
        s.add(z3.Not(goal))
        if not soft:
            r = zcheck(s)
            if r == z3.unsat:
                return 'unsat', 'z3', None
            if r == z3.sat:
                try:
                    model = str(s.model())[:6000]
                except z3.Z3Exception:
                    model = None
                return 'sat', 'z3', model
        r = run_cvc5(s, self.cvc_tmo if not soft else self.cvc_tmo // 2)
        if r == 'unsat':
            return 'unsat', 'cvc5', None
        if r == 'sat':
            return 'sat', 'cvc5', None
        return 'unknown', 'z3+cvc5', None

    # ------------------------------------------------------------------ nested pure evaluation
    def pure(self, thunk, allow_throw=False):
        """all outcomes of thunk as a list of (conditions, value); no effect on the state"""
        class Nest:
            pass
        outer = self.nest
        res = []
        stack = [()]
        sav_store, sav_counter = self.store, dict(self.counter)
        nas = len(self.asserts)
        allfacts = []
        self.purecache_n += 1
        pid = self.purecache_n
        newidx = []
        maxcounter = dict(self.counter)
        while stack:
            prefix = stack.pop()
            n = Nest()
            n.prefix, n.dec, n.conds, n.facts, n.newidx, n.id = prefix, [], [], [], [], pid
            self.nest = n
            self.store = dict(sav_store)
            self.solver.push()
            na, ni, seen = len(self.asserts), len(self.idx_terms), set(self.idx_seen)
            nfr = len(self.frames)
            try:
                try:
                    v = thunk()
                    res.append((list(n.conds), 'ret', v))
                except StopPath:
                    pass
                except CxxThrow as e:
                    if not allow_throw:
                        raise Impure('throw')
                    res.append((list(n.conds), 'throw', e.ev))
                for r, val in sav_store.items():
                    if self.store.get(r) is not val:
                        raise Impure('writes %s' % (r,))
            finally:
                self.solver.pop()
                del self.asserts[na:]
                del self.idx_terms[ni:]
                self.idx_seen = seen
                self.store = sav_store
                self.nest = outer
                del self.frames[nfr:]
            allfacts += n.facts
            newidx += n.newidx
            for k, c in self.counter.items():
                maxcounter[k] = max(maxcounter.get(k, 0), c)
            # names of fresh symbols of different branches stay distinct
            for i in range(len(n.dec) - 1, len(prefix) - 1, -1):
                v, alt = n.dec[i]
                if alt:
                    stack.append(tuple(n.dec[:i]) + ((not v, False),))
        self.counter = maxcounter
        for conds, f in allfacts:
            self.assume(b_imp(b_and(*conds), f))
        for t in newidx:
            self.reg_idx(t)
        return res

    def pure_bool(self, thunk):
        res = self.pure(thunk)
        return mk_bool(b_or(*[b_and(*(conds + [self.to_bool(v)])) for conds, _, v in res]))

    def to_bool(self, v):
        if isinstance(v, Loc):
            v = self.load(v)
        if isinstance(v, (bool, z3.BoolRef)):
            return v
        if isinstance(v, int):
            return v != 0
        if isinstance(v, z3.ArithRef):
            return mk_bool(v != 0)
        if isinstance(v, Opt):
            return v.has
        if isinstance(v, UPtr):
            return v.loc is not None
        if isinstance(v, CodeOf):
            return b_not(eq(v.s, '\0'))
        raise Unsupported('bool of %r' % (v,))

    # ------------------------------------------------------------------ store
    def new_root(self, key, typ, val):
        self.store[key] = val
        self.types[key] = typ
        return Loc(key)

    def load_in(self, store, loc):
        v = store.get(loc.root)
        if v is None and loc.root not in store:
            raise Unsupported('dangling location %s' % (loc,))
        for p in loc.path:
            v = self.project(v, p, loc)
        return v

    def load(self, loc):
        return self.load_in(self.store, loc)

    def project(self, v, p, loc):
        k = p[0]
        if k == 'f':
            if not isinstance(v, Struct) or p[1] not in v.fields:
                raise Unsupported('field %s of %r' % (p[1], v))
            return v.fields[p[1]]
        if k == 'i':
            if isinstance(v, Vec):
                self.reg_idx(p[1]) if not isinstance(p[1], int) else None
                return self.vec_get(v, p[1])
            if isinstance(v, FnVec):
                raise Unsupported('indexing function list')
            if isinstance(v, (str, z3.SeqRef)):
                return s_at(v, p[1])
            raise Unsupported('index into %r' % (v,))
        if k == 'c':
            return self.char_at(v, p[1])
        if k == 'o':
            return v.val
        if k == 'a':
            if isinstance(v, Variant):
                return v.val
        raise Unsupported('projection %s of %r' % (p, v))

    def vec_get(self, v, i):
        t = z3.simplify(z3.Select(v.arr, zi(i)))
        return self.from_term(t, v.et)

    def from_term(self, t, et):
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return t

    reg_chars = False       # positions of characters that are read are indices that matter

    def char_at(self, s, i):
        """s[i] with s[size()] == NUL"""
        n = s_len(s)
        if self.reg_chars and not self.tmpl_mode:
            self.reg_idx(i)
        if isinstance(s, str) and isinstance(i, int):
            if i < len(s):
                return s[i]
            return '\0'
        c = lt(i, n)
        if c is True or self.known(c):
            return s_at(s, i)
        if c is False or self.known(b_not(c)):
            return '\0'
        return z3.If(zb(c), zs(s_at(s, i)), str_val('\0'))

    def write(self, loc, val):
        if loc.root not in self.store:
            raise Unsupported('write to dead location')
        self.store[loc.root] = self._upd(self.store[loc.root], loc.path, val)

    def _upd(self, v, path, val):
        if not path:
            return val
        p, rest = path[0], path[1:]
        k = p[0]
        if k == 'f':
            if not isinstance(v, Struct):
                raise Unsupported('field write to %r' % (v,))
            return v.with_(p[1], self._upd(v.fields.get(p[1]), rest, val))
        if k == 'i':
            if isinstance(v, Vec):
                old = self.vec_get(v, p[1])
                new = self._upd(old, rest, val)
                return Vec(v.et, z3.Store(v.arr, zi(p[1]), self.elem_term(new, v.et)), v.len)
            if isinstance(v, (str, z3.SeqRef)):
                return s_cat(s_sub(v, 0, p[1]), val, s_sub(v, add(p[1], 1), sub(sub(s_len(v), p[1]), 1)))
        if k == 'c':
            if rest:
                raise Unsupported('char path')
            i = p[1]
            if isinstance(i, int) and isinstance(v, str):
                return s_cat(v[:i], val, v[i + 1:])
            return s_cat(s_sub(v, 0, i), val, s_sub(v, add(i, 1), sub(sub(s_len(v), i), 1)))
        if k == 'o':
            return Opt(True, self._upd(v.val, rest, val), v.et)
        if k == 'a':
            return Variant(v.alts, v.idx, self._upd(v.val, rest, val))
        raise Unsupported('update path')

    def type_of(self, loc):
        t = bare(self.types.get(loc.root, '?'))
        for p in loc.path:
            if p[0] == 'f':
                fs = self.prog.all_fields(t) or []
                t = bare(next((f['type'] for f in fs if f['name'] == p[1]), '?'))
            elif p[0] == 'i':
                t = self.elem_type(t)
            elif p[0] == 'c':
                t = 'char'
            else:
                t = '?'
        return t

    # ------------------------------------------------------------------ types and symbolic values
    def elem_type(self, t):
        t = bare(t)
        if t in ('std::string', 'std::string_view'):
            return 'char'
        m = re.match(r'std::(?:vector|list|deque|set|initializer_list)<(.*)>$', t)
        if m:
            return first_targ(m.group(1))
        m = re.match(r'std::array<(.*)>$', t)
        if m:
            return first_targ(m.group(1))
        return '?'

    def sort_of(self, t):
        t = bare(t)
        if t in ('std::string', 'std::string_view', 'std::filesystem::path', 'char', 'const char *',
                 'std::basic_string_view<char>'):
            return S
        if t == 'bool':
            return B
        if t in INT_TYPES:
            return I
        if t == 'double':
            return F64
        if t == 'float':
            return F32
        r = self.prog.rec.get(t)
        if t == 'vp::custom':
            return usort('custom')
        if t.startswith('std::pair<std::string_view, vp::color'):
            return usort('enumpair')
        if t == 'vp::color' or t in self.enum_types:
            return I
        return None

    enum_types = {'sharg::update_notifications', 'sharg::output_file_open_options',
                  'sharg::detail::format_parse::option_parse_result', 'std::errc'}

    def sym(self, t, name, depth=0):
        """a fresh symbolic value of type t (with the assumptions the type implies)"""
        t0 = t
        t = bare(t)
        if t == 'char':
            v = self.fresh(name, S)
            self.assume(z3.Length(v) == 1)
            return v
        if t in ('std::string', 'std::string_view', 'std::filesystem::path'):
            v = self.fresh(name, S)
            self.assume(z3.Length(v) <= MAXLEN)
            return v
        if t in INT_TYPES:
            v = self.fresh(name, I)
            self.assume(self.in_range(v, t))
            return v
        srt = self.sort_of(t)
        if srt is not None:
            v = self.fresh(name, srt)
            return v
        if t.startswith('std::vector<') or t.startswith('std::list<'):
            et = self.elem_type(t)
            if et.startswith('std::function<'):
                return FnVec(self.fresh(name, z3.SeqSort(usort('Fn'))))
            es = self.sort_of(et)
            if es is not None:
                n = self.fresh(name + '_len', I)
                self.assume(z3.And(n >= 0, n <= MAXLEN))
                a = self.fresh(name + '_arr', z3.ArraySort(I, es))
                return Vec(et, a, n)
            return Opaque(t)
        if t.startswith('std::array<') and self.sort_of(self.elem_type(t)) is not None:
            return Vec(self.elem_type(t), self.fresh(name, z3.ArraySort(I, self.sort_of(self.elem_type(t)))), int(t[:-1].split(',')[-1]))
        if t.startswith('std::unordered_set<std::string') or t.startswith('std::set<std::string'):
            return SetV(self.fresh(name, z3.ArraySort(S, B)))
        if t.startswith('std::optional<'):
            et = first_targ(t[len('std::optional<'):-1])
            return Opt(self.fresh(name + '_has', B), self.sym(et, name + '_val'), et)
        if t.startswith('std::unique_ptr<'):
            return UPtr(None)
        if t in ('std::regex', 'std::basic_regex<char, std::regex_traits<char>>') or t.startswith('std::basic_regex<'):
            return Regex(self.fresh(name, S))
        if t in self.prog.rec and not self.prog.rec[t].get('lambda'):
            fs = {}
            for f in self.prog.all_fields(t):
                fs[f['name']] = self.sym(f['type'], name + '.' + f['name'], depth + 1)
            return Struct(t, fs)
        return Opaque(t)

    def in_range(self, v, t):
        bits, signed = INT_TYPES[bare(t)]
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
        if isinstance(v, int):
            return lo <= v <= hi
        return z3.And(v >= lo, v <= hi)

    def default_value(self, t):
        t = bare(t)
        if t in ('std::string', 'std::string_view', 'std::filesystem::path'):
            return ''
        if t == 'char':
            return '\0'
        if t == 'bool':
            return False
        if t in INT_TYPES or t in self.enum_types or t == 'vp::color':
            return 0
        if t == 'double':
            return z3.FPVal(0.0, F64)
        if t == 'float':
            return z3.FPVal(0.0, F32)
        if t == 'vp::custom':
            return z3.Const('custom_default', usort('custom'))
        if t.startswith('std::pair<std::string_view, vp::color'):
            return z3.Const('enumpair_default', usort('enumpair'))
        if t.startswith('std::vector<') or t.startswith('std::list<'):
            et = self.elem_type(t)
            if et.startswith('std::function<'):
                return FnVec(None)
            return self.empty_vec(et)
        if t.startswith('std::unordered_set<std::string') or t.startswith('std::set<std::string'):
            return SetV(z3.K(S, z3.BoolVal(False)))
        if t.startswith('std::optional<'):
            et = first_targ(t[len('std::optional<'):-1])
            return Opt(False, None, et)
        if t.startswith('std::unique_ptr<'):
            return UPtr(None)
        if t.endswith(']'):
            return []
        if t.startswith('std::array<'):
            et = self.elem_type(t)
            n = int(t[:-1].split(',')[-1])
            dv = self.default_value(et)
            return Vec(et, z3.K(I, lift(dv)), n)
        if t.startswith('__gnu_cxx::__normal_iterator<'):
            return Opaque(t)
        if 'stringstream' in t:
            return Struct('sstream', {'buf': ''})
        if t in self.prog.rec:
            return None
        return Opaque(t)

    def empty_vec(self, et):
        es = self.sort_of(et)
        if es is None:
            return Opaque('std::vector<%s>' % et)
        return Vec(et, z3.K(I, lift(self.default_value(et))), 0)

    def elem_term(self, v, et):
        if isinstance(v, Loc):
            v = self.load(v)
        if bare(et) == 'bool':
            return zb(v)
        if isinstance(v, CodeOf):
            return v.code()
        return lift(v)

    def vec_push(self, v, val):
        return Vec(v.et, z3.Store(v.arr, zi(v.len), self.elem_term(val, v.et)), add(v.len, 1))

    def havoc(self, v, t, name):
        if isinstance(v, Iter):
            i = self.fresh(name, I)
            return Iter(v.loc, i, v.rev)
        if isinstance(v, Vec):
            n = self.fresh(name + '_len', I)
            self.assume(z3.And(n >= 0, n <= MAXLEN))
            return Vec(v.et, self.fresh(name + '_arr', v.arr.sort()), n)
        if isinstance(v, (str, z3.SeqRef)):
            x = self.fresh(name, S)
            if bare(t) == 'char':
                self.assume(z3.Length(x) == 1)
            else:
                self.assume(z3.Length(x) <= MAXLEN)
            return x
        if isinstance(v, (bool, z3.BoolRef)):
            return self.fresh(name, B)
        if isinstance(v, (int, z3.ArithRef)):
            x = self.fresh(name, I)
            if bare(t) in INT_TYPES:
                self.assume(self.in_range(x, t))
            return x
        if isinstance(v, z3.FPRef):
            return self.fresh(name, v.sort())
        if isinstance(v, SetV):
            return SetV(self.fresh(name, v.arr.sort()))
        if isinstance(v, Opt):
            return Opt(self.fresh(name + '_has', B), self.havoc(v.val, v.et, name + '_val') if v.val is not None else self.sym(v.et, name + '_val'), v.et)
        if isinstance(v, Struct):
            fs = self.prog.all_fields(v.type) or []
            ft = {f['name']: f['type'] for f in fs}
            return Struct(v.type, {k: self.havoc(x, ft.get(k, '?'), name + '.' + k) for k, x in v.fields.items()})
        if isinstance(v, Variant):
            h = self.ghost.get('havoc_variant')
            if h:
                return h(self, v, name)
            raise Unsupported('havoc variant')
        if isinstance(v, Opaque):
            return v
        if is_z3(v):
            return self.fresh(name, v.sort())
        raise Unsupported('havoc of %r' % (v,))


def first_targ(s):
    d = 0
    for i, ch in enumerate(s):
        if ch in '<(':
            d += 1
        elif ch in '>)':
            d -= 1
        elif ch == ',' and d == 0:
            return s[:i].strip()
    return s.strip()


def run_cvc5(solver, tmo):
    txt = solver.to_smt2()
    txt = txt.replace('(set-info :status unknown)', '')
    txt = re.sub(r'\(declare-sort (\w+)\s*\)', r'(declare-sort \1 0)', txt)
    txt = '(set-logic ALL)\n' + txt
    fd, p = tempfile.mkstemp(suffix='.smt2')
    with os.fdopen(fd, 'w') as f:
        f.write(txt)
    try:
        r = subprocess.run([CVC5, '--strings-exp', '--tlimit=%d' % int(tmo * 1000), p], capture_output=True,
                           text=True, timeout=tmo + 5)
        o = r.stdout.strip().split('\n')[0] if r.stdout else ''
        if o not in ('sat', 'unsat'):
            if os.environ.get('CXV_DEBUG'):
                print('cvc5:', (r.stdout + r.stderr)[:300])
            return 'unknown'
        return o
    except subprocess.TimeoutExpired:
        return 'unknown'
    finally:
        os.unlink(p)
