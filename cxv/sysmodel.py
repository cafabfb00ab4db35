"""Trusted models of the environment used by the update check: clock, standard input, text files read by line, threads,
promises and system(), which only record what they are given."""
import z3
from .vals import *

NOW = z3.Int('seconds_since_epoch')
NOWD = z3.Const('seconds_since_epoch_as_double', F64)
HASIN = z3.Const('stdin_has_a_line', B)
INLINE = z3.Const('stdin_first_line', S)
HASLINE = uf('file_has_line', S, I, B)           # (path, k): reading the k-th line of the initial content yields one
LINE = uf('file_line', S, I, S)
LASTEOF = uf('file_ends_within_line', S, I, B)   # the k-th line is not followed by a line break
SYS = uf('system_status', S, I)
THROWS_TMP = z3.Const('no_temporary_directory', B)
TMPDIR = z3.Const('temporary_directory', S)


class SysLib:
    # ---------------------------------------------------------------- clock
    def lf_chrono__system_clock__now(self, c, args, n):
        return Opaque('time')

    def lf_chrono__duration_cast(self, c, args, n):
        if 'ratio<1>' not in c['ret'].replace('ratio<1, 1>', 'ratio<1>') and 'seconds' not in c['ret']:
            raise Unsupported('duration_cast to ' + c['ret'])
        if any(w in c['ret'] for w in ('milli', 'micro', 'nano')):
            raise Unsupported('duration_cast to ' + c['ret'])
        return Opaque('seconds')

    def now(self):
        if 'now' not in self.ghost:
            self.ghost['now'] = True
            self.assume(z3.And(NOW >= 0, NOW < 2 ** 53))
            self.assume(z3.And(z3.fpGEQ(NOWD, z3.FPVal(0.0, F64)), z3.fpLT(NOWD, z3.FPVal(2.0 ** 53, F64))))
        return NOW

    # ---------------------------------------------------------------- system
    def lf_system(self, c, args, n):
        cmd = self.as_str(args[0])
        self.ghost['commands'] = self.ghost.get('commands', ()) + (cmd,)
        return SYS(zs(cmd))

    def lf_filesystem__temp_directory_path(self, c, args, n):
        if args:
            self.write(args[0], Struct('error_code', {'val': THROWS_TMP}))
            return z3.If(THROWS_TMP, z3.StringVal(''), TMPDIR)
        if self.branch(THROWS_TMP):
            self.throw('std::filesystem::filesystem_error')
        return TMPDIR

    def lf_make_error_code(self, c, args, n):
        v = self.V(args[0])
        if not isinstance(v, int) or v == 0:
            raise Unsupported('make_error_code')
        return Struct('error_code', {'val': True})

    # ---------------------------------------------------------------- lines
    def lf_getline(self, c, args, n):
        if len(args) > 2:
            raise Unsupported('getline with a delimiter')
        st = args[0]
        o = self.V(st)
        if isinstance(o, Struct) and o.type == 'file' and 'line' in o.fields:
            k, p = o.fields['line'], o.fields['path']
            if self.ghost.get('written'):
                raise Unsupported('reading after writing files')
            if not self.branch(o.fields['good']):
                return st               # the text is left alone
            if self.branch(HASLINE(zs(p), zi(k))):
                x = LINE(zs(p), zi(k))
                self.assume(b_not(z3.Contains(x, z3.StringVal('\n'))))
                self.write(args[1], x)
                e = LASTEOF(zs(p), zi(k))
                self.assume(z3.Implies(e, b_not(HASLINE(zs(p), zi(k) + 1))))
                self.write(st, o.with_('line', add(k, 1)).with_('good', b_not(e)))
            else:
                self.write(args[1], '')
                self.write(st, o.with_('good', False))
            return st
        if isinstance(o, Struct) and o.type == 'ostream' and isinstance(st, Loc) and st.root == ('g', 'cin'):
            if self.ghost.get('asked'):
                raise Unsupported('reading a second line of the standard input')
            self.ghost['asked'] = True
            self.write(args[1], INLINE if self.branch(HASIN) else '')
            return st
        raise Unsupported('getline')

    def file_out(self, loc, o, s):
        """output to an opened file"""
        if isinstance(loc, Loc) and self.branch(o.fields['open']):
            w = dict(self.ghost.get('written', {}))
            p, buf = w[o.fields['id']]
            w[o.fields['id']] = (p, s_cat(buf, s))
            self.ghost['written'] = w

    # ---------------------------------------------------------------- threads
    def sys_construct(self, cls, c, args, n):
        if cls == 'std::thread':
            if not args:
                return Opaque('thread')
            f = self.V(args[0])
            if not isinstance(f, FuncRef):
                raise Unsupported('thread of %r' % (f,))
            self.ghost['threads'] = self.ghost.get('threads', ()) + ((f.f['q'], [self.V(a) for a in args[1:]]),)
            return Opaque('thread')
        if cls.startswith('std::promise<'):
            if args:
                return self.V(args[0])
            k = self.ghost['promises'] = self.ghost.get('promises', 0) + 1
            return Opaque('promise', k)
        if cls.startswith('std::future<'):
            return self.V(args[0]) if args else Opaque('future', 0)
        if cls.startswith('std::match_results'):
            return Opaque('smatch')
        return NotImplemented

    def sys_method(self, name, obj, o, A, c):
        if o.type == 'time' and name == 'time_since_epoch':
            return o
        if o.type == 'seconds' and name == 'count':
            return self.now()
        if o.type == 'thread' and name == 'detach':
            return None
        if o.type == 'promise' and name == 'get_future':
            return Opaque('future', o.info)
        if o.type == 'promise' and name == 'set_value':
            self.ghost['promised'] = self.ghost.get('promised', ()) + ((o.info, A[0]),)
            return None
        if o.type == 'future' and name == 'operator=':
            self.write(obj, A[0])
            return obj
        if o.type == 'future' and name == 'valid':
            return o.info != 0
        return NotImplemented
