"""Semantics of the extracted statements and expressions."""
import re
import z3
from .vals import *
from .sysmodel import NOW, NOWD
from .engine import Ex, Frame, LoopInfo, LoopCtx, NeedBranch, Impure, short, strip_targs, first_targ

UNROLL = 200
ENUMPAIR = usort('enumpair')
PAIRKEY = uf('enumpair_key', ENUMPAIR, S)
PAIRVAL = uf('enumpair_val', ENUMPAIR, I)


class Interp(Ex):
    # ------------------------------------------------------------------ functions
    def call_fn(self, fn, this, args, node=None, caps=None, capthis=None):
        """args: list of Loc (glvalues) or values"""
        h = self.contracts.get(fn['id'])
        if h is not None and not getattr(self, 'no_contract_for', None) == fn['id']:
            r = h(self, fn, this, args, node)
            if r is not NotImplemented:
                self.used_contracts.add(fn['id'])
                return r
        if len(self.frames) > 60:
            raise Unsupported('call depth')
        self.inlined.add(fn['id'])
        return self.inline(fn, this, args, node, caps, capthis)

    def inline(self, fn, this, args, node=None, caps=None, capthis=None):
        pk = self.frames[-1].key if self.frames else ()
        fr = Frame(pk + ((node['_u'] if node else 0), fn['id']), fn, this)
        if caps is not None:
            fr.env.update(caps)
            fr.names.update({k: ('cap', self.type_of(v) if isinstance(v, Loc) else '?') for k, v in caps.items()})
            fr.this = capthis
        if sum(1 for f in self.frames if f.fn is fn) > 3:
            raise Unsupported('recursion in %s' % fn['q'])
        line = self.cur_line
        self.frames.append(fr)
        try:
            for p, a in zip(fn['params'], args):
                self.bind_var(fr, p['id'], p['name'], p['type'], a)
            if 'inits' in fn:
                self.run_inits(fr, fn)
            try:
                if fn['body'] is not None:
                    self.exec(fn['body'])
                r = None
            except ReturnEx as e:
                r = e.v
        finally:
            self.frames.remove(fr) if fr in self.frames else None
        self.cur_line = line
        if is_ref(fn['ret']):
            return r
        if isinstance(r, Loc):
            r = self.load(r)
        return r

    def bind_var(self, fr, vid, name, typ, a):
        fr.names[vid] = (name, typ)
        if is_ref(typ):
            if not isinstance(a, Loc):
                a = self.new_root(fr.key + ('p%d' % vid,), strip_ref(typ), a)
            fr.env[vid] = a
        else:
            if isinstance(a, Loc):
                a = self.load(a)
            fr.env[vid] = self.new_root(fr.key + ('v%d' % vid,), typ, self.conv(a, typ))

    def conv(self, v, typ):
        """implicit adjustments of representation"""
        b = bare(typ)
        if isinstance(v, CodeOf) and b in INT_TYPES and b not in ('char', 'signed char', 'unsigned char'):
            return v
        if b in ('std::string_view',) and isinstance(v, Iter):
            return self.as_str(v)
        return v

    def run_inits(self, fr, fn):
        cls = fn['cls']
        this = fr.this
        for i in fn['inits']:
            if i.get('field'):
                v = self.rv(i['init']) if i['init'] is not None else self.default_value(i['ft'])
                if isinstance(v, Struct) and v.type == '?':
                    v = None
                self.write(this.f(i['field']), v)
            elif i.get('base'):
                ini = i['init']
                if ini['k'] == 'construct':
                    self.construct_at(ini, this)
                else:
                    v = self.rv(ini)
                    if isinstance(v, Struct):
                        cur = self.load(this)
                        d = dict(cur.fields)
                        d.update(v.fields)
                        self.write(this, Struct(cur.type, d))
            else:  # delegating
                self.construct_at(i['init'], this)

    def construct_at(self, node, this):
        """run a constructor of a repo class on an existing object"""
        c = node['callee']
        args = [self.ev(a) for a in node['args']]
        if c.get('body') and c['id'] in self.prog.fn:
            f = self.prog.fn[c['id']]
            self.call_fn(f, this, args, node)
            return
        cls = bare(c['cls'])
        if node.get('copy') or node.get('move'):
            v = self.load(args[0]) if isinstance(args[0], Loc) else args[0]
            cur = self.load(this)
            d = dict(cur.fields)
            d.update(v.fields)
            self.write(this, Struct(cur.type, d))
            return
        if cls in self.prog.rec:
            v = self.default_struct(cls)
            cur = self.load(this)
            d = dict(cur.fields)
            d.update(v.fields)
            self.write(this, Struct(cur.type, d))
            return
        if cls == 'std::runtime_error' or self.prog.is_a(cls, 'std::exception'):
            cur = self.load(this)
            msg = self.as_str(args[0]) if args else ''
            self.write(this, Struct(cur.type, {**cur.fields, '__msg': msg}))
            return
        raise Unsupported('base constructor of %s' % cls)

    def default_struct(self, cls):
        fs = {}
        for f in self.prog.all_fields(cls):
            if f.get('init') is not None:
                fs[f['name']] = self.rv(f['init'])
            else:
                v = self.default_value(f['type'])
                if v is None:
                    v = self.construct_default(bare(f['type']))
                fs[f['name']] = v
        return Struct(cls, fs)

    def construct_default(self, cls):
        cands = [f for f in self.prog.fn.values() if f.get('cls') == cls and 'inits' in f and not f['params']]
        if cands:
            loc = self.new_root(('tmpd', cls, len(self.frames)), cls, Struct(cls, {}))
            self.call_fn(cands[0], loc, [])
            return self.load(loc)
        return self.default_struct(cls)

    # ------------------------------------------------------------------ statements
    def exec(self, s):
        if s is None:
            return
        if s.get('l'):
            self.cur_line = s['l']
        getattr(self, 'st_' + s['k'])(s)

    def st_block(self, s):
        fr = self.frames[-1]
        fr.scopes.append([])
        exc = None
        try:
            for x in s['b']:
                self.exec(x)
        except (ReturnEx, BreakEx, ContinueEx, CxxThrow) as e:
            exc = e
            if isinstance(e, ReturnEx) and isinstance(e.v, Loc) and not is_ref(fr.fn['ret']):
                e.v = self.load(e.v)
        except BaseException:
            fr.scopes.pop()
            raise
        self.leave_scope(fr)
        if exc is not None:
            raise exc

    def leave_scope(self, fr):
        for loc, d in reversed(fr.scopes.pop()):
            line = self.cur_line
            self.call_fn(d, loc, [], None)
            self.cur_line = line

    def st_null(self, s):
        pass

    def st_expr(self, s):
        self.ev(s['e'])

    def st_decl(self, s):
        for v in s['vars']:
            self.decl_var(v)

    def decl_var(self, v):
        fr = self.frames[-1]
        key = fr.key + ('v%d' % v['id'],)
        fr.names[v['id']] = (v['name'], v['type'])
        if v.get('init') is None:
            val = self.default_value(v['type'])
            if val is None:
                val = self.default_struct(bare(v['type']))
            fr.env[v['id']] = self.new_root(key, v['type'], val)
        else:
            r = self.ev(v['init'])
            if is_ref(v['type']):
                if not isinstance(r, Loc):
                    r = self.new_root(key, strip_ref(v['type']), r)
                fr.env[v['id']] = r
            else:
                if isinstance(r, Loc):
                    r = self.load(r)
                fr.env[v['id']] = self.new_root(key, v['type'], self.conv(r, v['type']))
        if v.get('bindings'):
            self.bind_structured(fr, v)
        t = bare(v['type'])
        if t in self.prog.dtor and not is_ref(v['type']) and fr.scopes:
            fr.scopes[-1].append((fr.env[v['id']], self.prog.dtor[t]))

    def bind_structured(self, fr, v):
        loc = fr.env[v['id']]
        val = self.load(loc)
        if isinstance(val, Struct):
            names = list(val.fields)
            for b, nm in zip(v['bindings'], names):
                fr.env[b['id']] = loc.f(nm)
                fr.names[b['id']] = (b['name'], b['type'])
            return
        if is_z3(val) and val.sort() == ENUMPAIR:
            val = (PAIRKEY(val), PAIRVAL(val))
        if isinstance(val, tuple):
            for b, x in zip(v['bindings'], val):
                fr.env[b['id']] = self.new_root(fr.key + ('v%d' % b['id'],), b['type'], x)
                fr.names[b['id']] = (b['name'], b['type'])
            return
        raise Unsupported('structured binding of %r' % (val,))

    def st_if(self, s):
        fr = self.frames[-1]
        fr.scopes.append([])
        exc = None
        try:
            if s.get('init'):
                self.exec(s['init'])
            if s.get('cv') is not None and s.get('constexpr'):
                c = s['cv'] not in ('0', 'false')
            else:
                if s.get('cvar'):
                    self.decl_var(s['cvar'])
                c = self.branch(self.truth(s['c']))
            self.exec(s['a'] if c else s['b'])
        except (ReturnEx, BreakEx, ContinueEx, CxxThrow) as e:
            exc = e
            if isinstance(e, ReturnEx) and isinstance(e.v, Loc) and not is_ref(fr.fn['ret']):
                e.v = self.load(e.v)
        except BaseException:
            fr.scopes.pop()
            raise
        self.leave_scope(fr)
        if exc is not None:
            raise exc

    def truth(self, n):
        return self.to_bool(self.ev(n))

    def st_return(self, s):
        v = self.ev(s['e']) if s['e'] is not None else None
        fr = self.frames[-1]
        if isinstance(v, Loc) and not is_ref(fr.fn['ret']):
            v = self.load(v)
        raise ReturnEx(v)

    def st_break(self, s):
        raise BreakEx()

    def st_continue(self, s):
        raise ContinueEx()

    def st_try(self, s):
        nfr = len(self.frames)
        nsc = len(self.frames[-1].scopes)
        try:
            self.exec(s['b'])
        except CxxThrow as e:
            del self.frames[nfr:]
            for h in s['handlers']:
                t = h['type']
                if t is None or self.prog.is_a(e.ev.type, bare(t)):
                    fr = self.frames[-1]
                    if h.get('var'):
                        fr.env[h['var']] = self.new_root(fr.key + ('exc%d' % h['var'],), e.ev.type, e.ev)
                        fr.names[h['var']] = ('exc', e.ev.type)
                    self.cur_exc.append(e.ev)
                    try:
                        self.exec(h['b'])
                    finally:
                        self.cur_exc.pop()
                    return
            raise

    def st_switch(self, s):
        if s.get('init'):
            self.exec(s['init'])
        v = self.rv(s['c'])
        cases = []
        body = s['b']['b'] if s['b']['k'] == 'block' else [s['b']]
        flat = []
        for x in body:
            while x is not None and x['k'] in ('case', 'default'):
                flat.append(('label', x))
                x = x['b']
            flat.append(('stmt', x))
        start = None
        dflt = None
        for i, (k, x) in enumerate(flat):
            if k == 'label':
                if x['k'] == 'default':
                    dflt = i
                    continue
                c = int(x['cv']) if 'cv' in x else self.rv(x['v'])
                if self.branch(eq(v, c)):
                    start = i
                    break
        if start is None:
            start = dflt
        if start is None:
            return
        try:
            for k, x in flat[start:]:
                if k == 'stmt':
                    self.exec(x)
        except BreakEx:
            pass

    def st_unsupported(self, s):
        raise Unsupported('statement ' + s['cls'])

    # ------------------------------------------------------------------ loops
    def st_for(self, s):
        fr = self.frames[-1]
        fr.scopes.append([])
        try:
            if s['init']:
                self.exec(s['init'])
            self.loop(s, (lambda: self.truth(s['c'])) if s['c'] is not None else (lambda: True),
                      lambda: self.exec(s['b']), (lambda: self.ev(s['inc'])) if s['inc'] is not None else (lambda: None))
        finally:
            fr.scopes.pop()

    def st_while(self, s):
        def cond():
            if s.get('cvar'):
                self.decl_var(s['cvar'])
            return self.truth(s['c'])
        self.loop(s, cond, lambda: self.exec(s['b']), lambda: None)

    def st_do(self, s):
        try:
            self.exec(s['b'])
        except BreakEx:
            return
        except ContinueEx:
            pass
        self.loop(s, lambda: self.truth(s['c']), lambda: self.exec(s['b']), lambda: None)

    def st_forrange(self, s):
        fr = self.frames[-1]
        if s.get('init'):
            self.exec(s['init'])
        r = self.ev(s['range'])
        if not isinstance(r, Loc):
            r = self.new_root(fr.key + ('rng%d' % s['_u'],), bare(s['rt']), r)
        v = self.load(r)
        var = s['var']
        key = fr.key + ('v%d' % var['id'],)
        fr.names[var['id']] = (var['name'], var['type'])
        byref = is_ref(var['type'])
        if isinstance(v, FnVec):
            return self.fn_loop(s, fr, v, var, key)
        if isinstance(v, (SetV, Opaque)):
            raise Unsupported('range over %r' % (v,))
        it = self.new_root(fr.key + ('it%d' % s['_u'],), '__iter', Iter(r, 0))
        fr.env['it%d' % s['_u']] = it
        fr.names['it%d' % s['_u']] = ('__it', '__iter')

        def size():
            x = self.load(r)
            return x.len if isinstance(x, Vec) else s_len(x)

        def cond():
            return lt(self.load(it).idx, size())

        def body():
            i = self.load(it)
            el = self.deref(i)
            if byref:
                fr.env[var['id']] = el
            else:
                x = self.load(el)
                fr.env[var['id']] = self.new_root(key, var['type'], x)
            if var.get('bindings'):
                self.bind_structured(fr, var)
            self.exec(s['b'])

        def inc():
            i = self.load(it)
            self.write(it, Iter(i.loc, add(i.idx, 1)))
        self.loop(s, cond, body, inc)

    def fn_loop(self, s, fr, v, var, key):
        """for (auto & f : functions) ...: the opaque part is traversed by a cut loop, appended closures concretely"""
        if v.base is not None:
            it = self.new_root(fr.key + ('it%d' % s['_u'],), '__fnidx', 0)
            fr.env['it%d' % s['_u']] = it
            fr.names['it%d' % s['_u']] = ('__it', '__fnidx')
            n = z3.Length(v.base)

            def cond():
                return lt(self.load(it), n)

            def body():
                i = self.load(it)
                el = FnElem(v.base[zi(i)], v)
                fr.env[var['id']] = self.new_root(key, var['type'], el)
                self.exec(s['b'])

            def inc():
                self.write(it, add(self.load(it), 1))
            info = self.loops.setdefault(fr.key + ('L', s['_u']), LoopInfo())
            info.fnseq = v.base
            self.loop(s, cond, body, inc)
        for f in v.items:
            fr.env[var['id']] = self.new_root(key, var['type'], f)
            try:
                self.exec(s['b'])
            except BreakEx:
                return
            except ContinueEx:
                pass

    def loop(self, node, cond, body, inc):
        fr = self.frames[-1]
        count = 0
        while True:
            c = self.try_concrete(cond)
            if c is None:
                break
            if not c:
                return
            count += 1
            if count > UNROLL:
                raise Unsupported('concrete loop too long')
            try:
                body()
            except ContinueEx:
                pass
            except BreakEx:
                return
            inc()
        if self.nest is not None and not getattr(self, 'allow_nested_loops', False):
            raise Impure('symbolic loop in nested evaluation')
        lk = fr.key + ('L', node['_u'])
        info = self.loops.setdefault(lk, LoopInfo())
        info.desc = '%s:%s' % (fr.fn['q'], node.get('l'))
        entry = dict(self.store)
        ctx = LoopCtx(self, info, node, fr, entry)
        ctx.body, ctx.inc, ctx.cond = body, inc, cond
        ctx.phase = 'init'
        cands = self.loop_candidates(ctx)
        bad = False
        for label, fn in cands:
            if label in info.dropped:
                continue
            if not self.check_cand(info, label, 'init', fn, ctx):
                info.dropped.add(label)
                bad = True
        if bad:
            raise Restart()
        # arbitrary iteration
        for k, loc in info.mod.items():
            try:
                cur = self.load(loc)
            except Unsupported:
                continue
            self.write(loc, self.havoc(cur, self.type_of(loc), 'h_%s' % str(loc.path[-1][1] if loc.path else loc.root[-1])))
        head = dict(self.store)
        ctx.head = head
        ctx.phase = 'head'
        live = []
        for label, fn in cands:
            if label in info.dropped:
                continue
            self.assume(fn(ctx))
            live.append((label, fn))
        for h in self.ghost.get('loop_head_hooks', []):
            h(ctx)
        if self.branch(cond()):
            try:
                body()
            except ContinueEx:
                pass
            except BreakEx:
                return
            inc()
            new = self.find_mods(info, head)
            if new:
                info.mod.update(new)
                info.dropped.clear()
                raise Restart()
            ctx.phase = 'step'
            for h in self.ghost.get('loop_step_hooks', []):
                h(ctx)
            for label, fn in live:
                if not self.check_cand(info, label, 'preserved', fn, ctx):
                    info.dropped.add(label)
                    bad = True
            if bad:
                raise Restart()
            raise StopPath()
        return

    def check_cand(self, info, label, phase, fn, ctx):
        try:
            goal = fn(ctx)
        except (Unsupported, Impure):
            return False
        return self.oblige('loop %s invariant %s %s' % (info.desc, label, phase), goal, 'inv', soft=True)

    def find_mods(self, info, head):
        out = {}
        for root, old in head.items():
            new = self.store.get(root)
            if new is old:
                continue
            for loc in self.diff(Loc(root), old, new):
                if loc.key() not in info.mod:
                    out[loc.key()] = loc
        return out

    def diff(self, loc, a, b):
        if a is b:
            return []
        if isinstance(a, Struct) and isinstance(b, Struct) and a.type == b.type and a.fields.keys() == b.fields.keys():
            out = []
            for k in a.fields:
                out += self.diff(loc.f(k), a.fields[k], b.fields[k])
            return out
        if self.same(a, b):
            return []
        return [loc]

    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, (int, str, bool)) and isinstance(b, (int, str, bool)):
            return a == b and type(a) == type(b)
        if is_z3(a) and is_z3(b):
            return a.eq(b)
        if type(a) != type(b):
            return False
        if isinstance(a, Vec):
            return self.same(a.arr, b.arr) and self.same(a.len, b.len)
        if isinstance(a, Iter):
            return a.loc.key() == b.loc.key() and self.same(a.idx, b.idx)
        if isinstance(a, SetV):
            return self.same(a.arr, b.arr)
        if isinstance(a, Opt):
            return self.same(a.has, b.has) and self.same(a.val, b.val)
        if isinstance(a, Ptr):
            return a.loc.key() == b.loc.key()
        if isinstance(a, UPtr):
            return (a.loc is None and b.loc is None) or (a.loc and b.loc and a.loc.key() == b.loc.key())
        if isinstance(a, FnVec):
            return a.items == b.items and (a.base is b.base or (a.base is not None and b.base is not None and a.base.eq(b.base)))
        if isinstance(a, CodeOf):
            return self.same(a.s, b.s) and a.signed == b.signed
        if isinstance(a, Variant):
            return self.same(a.idx, b.idx) and (a.val is b.val or (isinstance(a.val, Struct) and not self.diff(Loc('x'), a.val, b.val)))
        if isinstance(a, ExcVal):
            return a.type == b.type
        if isinstance(a, (Opaque, Closure, Regex)):
            return True if isinstance(a, Opaque) else False
        if isinstance(a, Struct):
            return a.type == b.type and a.fields.keys() == b.fields.keys() and all(self.same(a.fields[k], b.fields[k]) for k in a.fields)
        return False

    def try_concrete(self, cond):
        snap = (dict(self.store), len(self.asserts), dict(self.counter), len(self.frames), self.obn)
        self.nobranch += 1
        self.solver.push()
        ok = None
        try:
            c = cond()
            ok = b_const(c if isinstance(c, bool) else mk_bool(c))
        except NeedBranch:
            ok = None
        finally:
            self.nobranch -= 1
            self.solver.pop()
        del self.frames[snap[3]:]
        if ok is None:
            self.store = snap[0]
            del self.asserts[snap[1]:]
            self.counter = snap[2]
            self.obn = snap[4]
        else:
            for a in self.asserts[snap[1]:]:
                self.solver.add(a)
        return ok

    # ------------------------------------------------------------------ loop candidates
    def loop_candidates(self, ctx):
        out = []
        for k, loc in ctx.info.mod.items():
            try:
                e = self.load_in(ctx.entry, loc)
            except Unsupported:
                continue
            nm = str(k)
            out += self.generic_cands(ctx, nm, loc, e)
        for t in self.loop_templates:
            for label, fn in t(ctx):
                out.append((label, fn))
        return out

    def generic_cands(self, ctx, nm, loc, e):
        out = []
        if isinstance(e, Iter):
            def rng(c, loc=loc):
                v = c.cur(loc)
                return [le(0, v.idx), le(v.idx, self.size_of(v.loc))]
            out.append((nm + ' in range', rng))
            out.append((nm + ' advances', lambda c, loc=loc: le(c.ent(loc).idx, c.cur(loc).idx)))
            out.append((nm + ' unchanged', lambda c, loc=loc: eq(c.ent(loc).idx, c.cur(loc).idx)))
        elif isinstance(e, (int, z3.ArithRef)) and not isinstance(e, bool):
            out.append((nm + ' grows', lambda c, loc=loc: le(c.ent(loc), c.cur(loc))))
            out.append((nm + ' shrinks', lambda c, loc=loc: le(c.cur(loc), c.ent(loc))))
            fs = getattr(ctx.info, 'fnseq', None)
            if fs is not None and self.types.get(loc.root) == '__fnidx':
                out.append((nm + ' in range', lambda c, loc=loc: [le(0, c.cur(loc)), le(c.cur(loc), z3.Length(fs))]))
            seen = set()
            for name, ty, l2 in ctx.locals():
                if l2.key() == loc.key() or l2.key() in seen:
                    continue
                seen.add(l2.key())
                try:
                    v2 = self.load_in(ctx.entry, l2)
                except Unsupported:
                    continue
                if isinstance(v2, Vec) or (isinstance(v2, (str, z3.SeqRef)) and bare(ty) != 'char'):
                    out.append(('%s <= size(%s)' % (nm, name), lambda c, loc=loc, l2=l2: le(c.cur(loc), self.size_of(l2))))
                elif isinstance(v2, (int, z3.ArithRef)) and not isinstance(v2, bool):
                    out.append(('%s <= %s' % (nm, name), lambda c, loc=loc, l2=l2: le(c.cur(loc), c.cur(l2))))
                    if l2.key() in ctx.info.mod:
                        out.append(('%s - %s const' % (nm, name), lambda c, loc=loc, l2=l2: eq(sub(c.cur(loc), c.cur(l2)), sub(c.ent(loc), c.ent(l2)))))
                elif isinstance(v2, Iter) and l2.key() in ctx.info.mod:
                    out.append(('%s - %s const' % (nm, name), lambda c, loc=loc, l2=l2: eq(sub(c.cur(loc), c.cur(l2).idx), sub(c.ent(loc), c.ent(l2).idx))))
            th = ctx.frame.this
            if th is not None:
                try:
                    tv = self.load(th)
                except Unsupported:
                    tv = None
                if isinstance(tv, Struct):
                    for fn, fv in tv.fields.items():
                        if isinstance(fv, Vec):
                            out.append(('%s <= size(this.%s)' % (nm, fn), lambda c, loc=loc, l2=th.f(fn): le(c.cur(loc), self.size_of(l2))))
        elif isinstance(e, Vec):
            out.append((nm + ' len const', lambda c, loc=loc: eq(c.cur(loc).len, c.ent(loc).len)))
            out.append((nm + ' len grows', lambda c, loc=loc: le(c.ent(loc).len, c.cur(loc).len)))
        elif isinstance(e, (bool, z3.BoolRef)):
            out.append((nm + ' const', lambda c, loc=loc: eq(c.cur(loc), c.ent(loc))))
        elif isinstance(e, (str, z3.SeqRef)) and bare(self.type_of(loc)) != 'char':
            out.append((nm + ' len grows', lambda c, loc=loc: le(s_len(c.ent(loc)), s_len(c.cur(loc)))))
            for k2, l2 in ctx.info.mod.items():
                try:
                    v2 = self.load_in(ctx.entry, l2)
                except Unsupported:
                    continue
                if isinstance(v2, Iter) and not v2.rev:
                    out.append(('%s grows with %s' % (nm, k2), lambda c, loc=loc, l2=l2: le(add(s_len(c.ent(loc)), sub(c.cur(l2).idx, c.ent(l2).idx)), s_len(c.cur(loc)))))
        return out

    def size_of(self, loc):
        v = self.load(loc)
        if isinstance(v, Vec):
            return v.len
        if isinstance(v, (str, z3.SeqRef)):
            return s_len(v)
        raise Unsupported('size of %r' % (v,))

    # ------------------------------------------------------------------ expressions
    def rv(self, n):
        v = self.ev(n)
        return self.load(v) if isinstance(v, Loc) else v

    def V(self, v):
        return self.load(v) if isinstance(v, Loc) else v

    def ev(self, n):
        if n is None:
            raise Unsupported('missing expression')
        if n.get('l'):
            self.cur_line = n['l']
        return getattr(self, 'ex_' + n['k'])(n)

    def ex_unsupported(self, n):
        raise Unsupported('expression ' + n.get('cls', '?'))

    def ex_mat(self, n):
        v = self.ev(n['sub'])
        if isinstance(v, Loc):
            return v
        return self.new_root(self.frames[-1].key + ('t', n['_u']), n['t'], v)

    def ex_int(self, n):
        return int(n['v'])

    def ex_char(self, n):
        return chr(n['v'] & 255)

    def ex_bool(self, n):
        return n['v']

    def ex_str(self, n):
        return ''.join(chr(b) for b in n['v'])

    def ex_float(self, n):
        return z3.FPVal(float(n['v']), F32 if n['t'] == 'float' else F64)

    def ex_null(self, n):
        return Ptr(None)

    def ex_this(self, n):
        t = self.frames[-1].this
        if t is None:
            raise Unsupported('this')
        return Ptr(t)

    def ex_const(self, n):
        if 'cv' in n:
            v = int(n['cv'])
            return bool(v) if n['t'] == 'bool' else v
        raise Unsupported('constant')

    def ex_valueinit(self, n):
        v = self.default_value(n['t'])
        return self.default_struct(bare(n['t'])) if v is None else v

    def ex_typeid(self, n):
        return Opaque('typeinfo')

    def ex_new(self, n):
        raise Unsupported('new')

    def ex_ref(self, n):
        k = n['kind']
        if k == 'enumconst':
            return int(n['v'])
        if k == 'func':
            return FuncRef(n['f'])
        if k == 'global':
            return self.global_var(n)
        for fr in (self.frames[-1],):
            if n['id'] in fr.env:
                return fr.env[n['id']]
        if 'cv' in n:
            v = int(n['cv'])
            return bool(v) if bare(n['t']) == 'bool' else v
        # constexpr/static locals of an enclosing function used without capture
        for fr in reversed(self.frames):
            if n['id'] in fr.env:
                return fr.env[n['id']]
        raise Unsupported('variable %s' % n['name'])

    def global_var(self, n):
        q = n['q']
        key = ('g', short(q))
        if key in self.store:
            return Loc(key)
        if 'cv' in n:
            v = int(n['cv'])
            t = bare(n['t'])
            if t == 'bool':
                return bool(v)
            if t == 'char':
                return chr(v & 255)
            return v
        if strip_targs(q) == 'sharg::detail::type_name_as_string':
            return z3.Const('typename_' + bare(n.get('targ', '?')), S)       # trusted: the demangler
        if strip_targs(q) == 'sharg::enumeration_names' and 'unordered_map' in n['t']:
            return self.new_root(('g', q, bare(n['t'])), n['t'], Opaque('enummap'))
        if q in self.prog.globals and 'init' in self.prog.globals[q]:
            g = self.prog.globals[q]
            v = self.rv(g['init'])
            return self.new_root(key, g['type'], v)
        if short(q) in ('cout', 'cerr', 'cin', 'clog'):
            return self.new_root(key, 'std::ostream', Struct('ostream', {'buf': ''}))
        if q.startswith('std::ranges::'):   # a function object
            return Opaque('function object', q)
        raise Unsupported('global ' + q)

    def ex_member(self, n):
        if n.get('static'):
            q = n['q']
            if q in self.prog.globals and 'init' in self.prog.globals[q]:
                return self.global_var({'q': q, 't': n['t'], **({'cv': n['cv']} if 'cv' in n else {})})
            if 'cv' in n:
                return int(n['cv'])
            raise Unsupported('static member ' + q)
        b = self.ev(n['base'])
        if n['arrow']:
            b = self.V(b)
            if isinstance(b, Ptr):
                if b.loc is None:
                    raise Unsupported('null dereference')
                b = b.loc
            elif isinstance(b, Iter):
                b = self.deref(b)
            elif isinstance(b, Loc):
                pass
            else:
                raise Unsupported('-> on %r' % (b,))
        if isinstance(b, Loc):
            v = self.load(b)
            if isinstance(v, Struct) and n['name'] in v.fields:
                return b.f(n['name'])
            if isinstance(v, Struct):
                raise Unsupported('field %s of %s' % (n['name'], v.type))
            if isinstance(v, tuple) and n['name'] in ('first', 'second', 'iterator', 'inserted'):
                return v[0 if n['name'] in ('first',) else 1]
            raise Unsupported('member %s of %r' % (n['name'], v))
        if isinstance(b, Struct):
            return b.fields[n['name']]
        if isinstance(b, tuple):
            return b[0 if n['name'] == 'first' else 1]
        raise Unsupported('member %s of %r' % (n['name'], b))

    def ex_cast(self, n):
        ck = n['ck']
        if ck == 'LValueToRValue':
            v = self.ev(n['sub'])
            return self.load(v) if isinstance(v, Loc) else v
        if ck in ('UncheckedDerivedToBase', 'DerivedToBase', 'BaseToDerived', 'BitCast', 'Dynamic'):
            return self.ev(n['sub'])
        if ck == 'ToVoid':
            self.ev(n['sub'])
            return None
        if ck == 'ArrayToPointerDecay':
            v = self.ev(n['sub'])
            if isinstance(v, Loc):
                x = self.load(v)
                if isinstance(x, (str, z3.SeqRef)):
                    return x
                return Iter(v, 0)
            return v
        if ck == 'NullToPointer':
            return Ptr(None)
        if ck == 'IntegralCast':
            if 'cv' in n:
                v = int(n['cv'])
                return bool(v) if bare(n['t']) == 'bool' else (chr(v & 255) if bare(n['t']) == 'char' else v)
            v = self.rv(n['sub'])
            return self.int_cast(v, bare(n['from']), bare(n['t']))
        if ck == 'IntegralToBoolean':
            return self.to_bool(self.rv(n['sub']))
        if ck == 'PointerToBoolean':
            v = self.rv(n['sub'])
            if isinstance(v, Opaque) and v.type == 'envptr':
                return b_not(v.info[0])
            return not (isinstance(v, Ptr) and v.loc is None)
        if ck == 'IntegralToFloating':
            v = self.rv(n['sub'])
            s = F32 if n['t'] == 'float' else F64
            if is_z3(v) and v.eq(NOW) and s == F64:
                return NOWD
            if isinstance(v, int):
                return z3.FPVal(float(v), s)
            return z3.fpToFP(z3.RNE(), z3.ToReal(zi(v)), s)
        if ck == 'FloatingCast':
            v = self.rv(n['sub'])
            return z3.fpFPToFP(z3.RNE(), v, F32 if n['t'] == 'float' else F64)
        raise Unsupported('cast ' + ck)

    CHARS = ('char', 'signed char', 'unsigned char')

    def int_cast(self, v, frm, to):
        if frm == 'char':
            if to == 'char':
                return v
            if to == 'unsigned char':
                return CodeOf(v if not isinstance(v, CodeOf) else v.s, False)
            if isinstance(v, CodeOf):
                return v
            if isinstance(v, (str, z3.SeqRef)):
                return CodeOf(v, True)
            return v
        if isinstance(v, CodeOf):
            if to == 'char':
                return v.s
            if to == 'unsigned char':
                return CodeOf(v.s, False)
            if to in ('int', 'long', 'short', 'unsigned int', 'unsigned long'):
                if to.startswith('unsigned') and v.signed:
                    return self.wrap(v.code(), to)
                return v
        if to == 'char':
            # int -> char
            if isinstance(v, int):
                return chr(v & 255)
            r = uf('int2char', I, S)(zi(v))
            return r
        if isinstance(v, (bool, z3.BoolRef)):
            if to == 'bool':
                return v
            return zi(v) if not isinstance(v, bool) else int(v)
        if to == 'bool':
            return self.to_bool(v)
        if to in INT_TYPES:
            fr, tr = INT_TYPES.get(frm), INT_TYPES[to]
            if fr and (fr == tr or (tr[0] > fr[0] and (tr[1] or not fr[1]))):
                return v
            return self.wrap(v, to)
        if to in self.enum_types or frm in self.enum_types:
            return v
        return v

    def wrap(self, v, t):
        bits, signed = INT_TYPES[t]
        m = 1 << bits
        if isinstance(v, int):
            v &= m - 1
            return v - m if signed and v >= m >> 1 else v
        lo, hi = (-(m >> 1), (m >> 1) - 1) if signed else (0, m - 1)
        c = z3.And(v >= lo, v <= hi)
        if self.known(c):
            return v
        r = v % m
        if signed:
            r = z3.If(r >= m >> 1, r - m, r)
        return r

    def ex_cond(self, n):
        c = self.branch(self.truth(n['c']))
        return self.ev(n['a'] if c else n['b'])

    def ex_index(self, n):
        a = self.rv(n['a'])
        i = self.rv(n['b'])
        if isinstance(a, Iter):
            return self.deref(Iter(a.loc, add(a.idx, i)))
        if isinstance(a, (str, z3.SeqRef)):
            return self.char_at(a, i)
        raise Unsupported('subscript of %r' % (a,))

    def ex_stdinitlist(self, n):
        return self.ev(n['sub'])

    def ex_initlist(self, n):
        t = bare(n['t'])
        if t in self.prog.rec:
            fs = {}
            r = self.prog.rec[t]
            slots = [('b', b) for b in r['bases']] + [('f', f) for f in r['fields']]
            d = {}
            for (k, x), a in zip(slots, n['args']):
                v = self.rv(a)
                if k == 'b':
                    if isinstance(v, Struct):
                        d.update(v.fields)
                else:
                    d[x['name']] = v
            for f in self.prog.all_fields(t):
                if f['name'] not in d:
                    v = self.rv(f['init']) if f.get('init') is not None else self.default_value(f['type'])
                    d[f['name']] = v
            return Struct(t, d)
        if not n['args']:
            return [] if t.endswith(']') else self.default_value(t)
        if t.endswith(']') or t.startswith('std::array<') or t.startswith('std::initializer_list'):
            vals = [self.rv(a) for a in n['args']]
            if t.startswith('std::array<') and len(vals) == 1 and isinstance(vals[0], (Vec, list)):
                vals = vals[0] if isinstance(vals[0], list) else vals[0]
            if t.startswith('std::array<'):
                if isinstance(vals, Vec):
                    return vals
                et = self.elem_type(t)
                cnt = int(t[:-1].split(',')[-1])
                arr = z3.K(I, lift(self.default_value(et)))
                for i, x in enumerate(vals):
                    arr = z3.Store(arr, i, self.elem_term(x, et))
                return Vec(et, arr, cnt)
            return list(vals)
        if len(n['args']) == 1:
            return self.rv(n['args'][0])
        raise Unsupported('init list of ' + t)

    def ex_lambda(self, n):
        caps, this = {}, None
        fr = self.frames[-1]
        key = fr.key + ('cl', n['_u'])
        for c in n['caps']:
            if c['kind'] in ('this', 'starthis'):
                this = fr.this
            elif c['kind'] == 'ref':
                v = self.ev(c['init'])
                caps[c['id']] = v if isinstance(v, Loc) else self.new_root(key + (c['id'],), c['type'], v)
            else:
                v = self.ev(c['init'])
                if isinstance(v, Loc):
                    v = self.load(v)
                caps[c['id']] = self.new_root(key + (c['id'],), c['type'], v)
        return Closure(n, caps, this)

    def ex_throw(self, n):
        if n['sub'] is None:
            if not self.cur_exc:
                raise Unsupported('rethrow')
            raise CxxThrow(self.cur_exc[-1])
        v = self.rv(n['sub'])
        if isinstance(v, ExcVal):
            raise CxxThrow(v)
        if isinstance(v, Struct):
            raise CxxThrow(ExcVal(bare(n['et']), v.fields.get('__msg', '')))
        raise Unsupported('throw of %r' % (v,))

    def ex_unop(self, n):
        op = n['op']
        if op == '!':
            return b_not(self.truth(n['sub']))
        if op in ('++', '--'):
            l = self.ev(n['sub'])
            old = self.load(l)
            d = 1 if op == '++' else -1
            new = self.advance(old, d) if isinstance(old, Iter) else self.arith('+' if d > 0 else '-', old, 1, bare(n['t']))
            self.write(l, new)
            return old if n['post'] else l
        if op == '*':
            v = self.rv(n['sub'])
            if isinstance(v, Ptr):
                if v.loc is None:
                    raise Unsupported('null dereference')
                return v.loc
            if isinstance(v, Iter):
                return self.deref(v)
            if isinstance(v, (FuncRef, Closure)):
                return v
            raise Unsupported('deref of %r' % (v,))
        if op == '&':
            v = self.ev(n['sub'])
            if isinstance(v, Loc):
                if v.path and v.path[-1][0] in ('c', 'i'):
                    return Iter(Loc(v.root, v.path[:-1]), v.path[-1][1])
                return Ptr(v)
            raise Unsupported('address of %r' % (v,))
        if op == '-':
            v = self.rv(n['sub'])
            if isinstance(v, z3.FPRef):
                return z3.fpNeg(v)
            return self.arith('-', 0, v, bare(n['t']))
        if op == '+':
            return self.rv(n['sub'])
        raise Unsupported('unary ' + op)

    def advance(self, it, d):
        idx = add(it.idx, d) if not it.rev else sub(it.idx, d)
        return Iter(it.loc, idx, it.rev)

    def deref(self, it):
        """glvalue designated by an iterator; out of bounds is an obligation"""
        v = self.load(it.loc)
        n = v.len if isinstance(v, Vec) else (s_len(v) if isinstance(v, (str, z3.SeqRef)) else None)
        if n is None:
            raise Unsupported('deref into %r' % (v,))
        idx = it.idx if not it.rev else sub(it.idx, 1)
        if isinstance(v, Vec):
            self.safety('iterator in range', b_and(le(0, idx), lt(idx, n)))
            return it.loc.at(idx)
        self.safety('character access in range', b_and(le(0, idx), le(idx, n)))
        return it.loc.ch(idx)

    def safety(self, what, c):
        if c is True:
            return
        self.oblige('memory safety: ' + what, c, 'safety')

    def arith(self, op, a, b, t):
        if isinstance(a, z3.FPRef) or isinstance(b, z3.FPRef):
            f = {'+': z3.fpAdd, '-': z3.fpSub, '*': z3.fpMul, '/': z3.fpDiv}[op]
            return f(z3.RNE(), a, b)
        if isinstance(a, CodeOf):
            a = a.code()
        if isinstance(b, CodeOf):
            b = b.code()
        if isinstance(a, z3.BoolRef):
            a = zi(a)
        if isinstance(b, z3.BoolRef):
            b = zi(b)
        if op in ('+', '-', '*'):
            r = {'+': add, '-': sub, '*': mul}[op](a, b)
        elif op in ('/', '%'):
            if not isinstance(b, int) or b <= 0:
                raise Unsupported('division')
            if isinstance(a, int):
                q = abs(a) // b * (1 if a >= 0 else -1)
                return q if op == '/' else a - q * b
            q = z3.If(zi(a) >= 0, zi(a) / b, -((-zi(a)) / b))
            return simp(q) if op == '/' else simp(zi(a) - q * b)
        elif op in ('&', '|', '^', '<<', '>>'):
            if isinstance(a, int) and isinstance(b, int):
                return {'&': a & b, '|': a | b, '^': a ^ b, '<<': a << b, '>>': a >> b}[op]
            r = self.bit_op(op, a, b)
        else:
            raise Unsupported('operator ' + op)
        if t in INT_TYPES:
            bits, signed = INT_TYPES[t]
            if isinstance(r, int):
                return self.wrap(r, t)
            if signed:
                c = self.in_range(r, t)
                if not self.known(c):
                    self.oblige('no signed overflow', c, 'safety')
                return r
            return self.wrap(r, t)
        return r

    def bit_op(self, op, a, b):
        """bit operations of an unknown number (two's complement) and a constant that is not negative"""
        if op in ('&', '|', '^') and isinstance(a, int):
            a, b = b, a
        if not isinstance(b, int) or b < 0 or b >= 2 ** 62:
            raise Unsupported('bit operation')
        a = zi(a)
        if op == '<<':
            return simp(a * 2 ** b)
        if op == '>>':
            return simp(a / 2 ** b)
        if b & (b + 1) == 0:
            both = a % (b + 1)
        else:
            both = z3.Sum([z3.If((a / 2 ** k) % 2 == 1, 2 ** k, 0) for k in range(b.bit_length()) if b >> k & 1])
        return simp({'&': both, '|': a + b - both, '^': a + b - 2 * both}[op])

    def compare(self, op, a, b):
        if isinstance(a, (Ptr, UPtr)) or isinstance(b, (Ptr, UPtr)):
            la = a.loc if isinstance(a, (Ptr, UPtr)) else a
            lb = b.loc if isinstance(b, (Ptr, UPtr)) else b
            for x in (a, b):
                if isinstance(x, Opaque) and x.type == 'envptr':
                    return x.info[0] if op == '==' else b_not(x.info[0])
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                raise Unsupported('pointer comparison')
            if is_z3(la) or is_z3(lb):   # symbolic nullness: Bool "is null"
                x = la if is_z3(la) else lb
                return b_not(x) if op == '!=' else x
            r = (la is None and lb is None) or (la is not None and lb is not None and la.key() == lb.key())
            return r if op == '==' else (not r)
        if isinstance(a, Iter) and isinstance(b, Iter):
            if a.loc.key() != b.loc.key():
                raise Unsupported('comparing iterators of different containers')
            a, b = a.idx, b.idx
        if isinstance(a, z3.FPRef) or isinstance(b, z3.FPRef):
            f = {'==': z3.fpEQ, '!=': z3.fpNEQ, '<': z3.fpLT, '<=': z3.fpLEQ, '>': z3.fpGT, '>=': z3.fpGEQ}[op]
            return f(a, b)
        if op == '==':
            return eq(a, b)
        if op == '!=':
            return b_not(eq(a, b))
        if isinstance(a, (str, z3.SeqRef)) or isinstance(b, (str, z3.SeqRef)):
            if isinstance(a, str) and isinstance(b, str):
                return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
            x, y = zs(a), zs(b)
            return {'<': x < y, '<=': x <= y, '>': y < x, '>=': y <= x}[op]
        if isinstance(a, CodeOf):
            a = a.code() if not isinstance(a.s, str) else zi_const(a)
        if isinstance(b, CodeOf):
            b = b.code() if not isinstance(b.s, str) else zi_const(b)
        return {'<': lambda: lt(a, b), '<=': lambda: le(a, b), '>': lambda: lt(b, a), '>=': lambda: le(b, a)}[op]()

    def ex_binop(self, n):
        op = n['op']
        if op in ('&&', '||'):
            a = self.truth(n['a'])
            a = mk_bool(a)
            if isinstance(a, bool):
                if op == '&&':
                    return self.truth(n['b']) if a else False
                return True if a else self.truth(n['b'])
            g = a if op == '&&' else z3.Not(a)
            if self.nobranch:
                raise NeedBranch()
            r = self.under(g, lambda: self.truth(n['b']))
            if r is None:
                if self.branch(a):
                    return self.truth(n['b']) if op == '&&' else True
                return False if op == '&&' else self.truth(n['b'])
            return b_and(a, r) if op == '&&' else b_or(a, r)
        if op == ',':
            self.ev(n['a'])
            return self.ev(n['b'])
        if op == '=':
            v = self.rv(n['b'])
            l = self.ev(n['a'])
            self.write(l, v)
            return l
        if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
            v = self.rv(n['b'])
            l = self.ev(n['a'])
            old = self.load(l)
            ct = bare(n.get('ct', n['t']))
            if isinstance(old, Iter):
                new = self.advance(old, v if op == '+=' else sub(0, v))
            else:
                r = self.arith(op[:-1], old, v, ct)
                new = self.int_cast(r, ct, bare(n['t'])) if bare(n['t']) in INT_TYPES else r
            self.write(l, new)
            return l
        a, b = self.rv(n['a']), self.rv(n['b'])
        if op in ('==', '!=', '<', '<=', '>', '>='):
            return self.compare(op, a, b)
        if isinstance(a, Opaque) and a.type == 'argv' and op == '+':
            return Opaque('argv', (a.info[0], add(a.info[1], b)))
        if isinstance(a, Iter) and op in '+-' and not isinstance(b, Iter):
            return self.advance(a, b if op == '+' else sub(0, b))
        if isinstance(b, Iter) and op == '+':
            return self.advance(b, a)
        if isinstance(a, Iter) and isinstance(b, Iter) and op == '-':
            return sub(a.idx, b.idx)
        return self.arith(op, a, b, bare(n['t']))

    def under(self, g, thunk):
        """value of the pure boolean expression under assumption g, or None when it is not pure"""
        try:
            if self.nest is None and not self.feasible(g):
                return False
            # evaluate nested with g assumed
            self.pending = None

            def th():
                if self.nest is not None:
                    self.nest.conds.append(g)
                self.asserts.append(g)
                self.solver.add(g)
                r = thunk()
                return r
            nobn = self.obn
            res = self.pure(th)
            return mk_bool(b_or(*[b_and(*(conds[1:] + [self.to_bool(v)])) for conds, _, v in res]))
        except Impure:
            return None


def zi_const(c):
    x = ord(c.s)
    return x - 256 if c.signed and x > 127 else x
