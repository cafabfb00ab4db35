"""A trusted model of the file system functions that /repo uses.

A path is its text; two paths are the same entry exactly if their texts are equal (no links, no aliases).  The initial
file system is arbitrary: kind0 (0 nothing, 1 regular file, 2 directory, 3 anything else), content0, and for every path
whether asking for its status fails, whether it can be opened for reading, for writing, listed, created as directory.
The operations of the program are recorded as updates in ex.ghost['fs']."""
import z3
from .vals import *

K0 = uf('fs_kind', S, I)
CONT0 = uf('fs_content', S, I)
STAT_ERR = uf('fs_status_fails', S, B)
ROPEN = uf('fs_opens_for_reading', S, B)
WOPEN = uf('fs_opens_for_writing', S, B)
WGOOD = uf('fs_stream_good', S, B)
LIST = uf('fs_can_be_listed', S, B)
MKDIR = uf('fs_directory_can_be_created', S, B)
BELOW = uf('fs_is_below', S, S, B)        # (directory, entry), also the directory itself
FSERR = 'std::filesystem::filesystem_error'


class FsLib:
    # ---------------------------------------------------------------- state
    def fs_log(self):
        return self.ghost.get('fs', ())

    def fs_set(self, match, kind, content=None):
        self.ghost['fs'] = self.fs_log() + ((match, kind, content),)

    def fs_kind(self, q, log=None):
        k = K0(zs(q))
        for m, v, _ in (self.fs_log() if log is None else log):
            k = z3.If(lift(m(q)), zi(v), k)
        return k

    def fs_content(self, q, log=None):
        k = CONT0(zs(q))
        for m, _, c in (self.fs_log() if log is None else log):
            if c is not None:
                k = z3.If(lift(m(q)), zi(c), k)
        return k

    def fs_path(self, p):
        """facts about the initial file system for a path that occurs"""
        p = self.as_str(p)
        known = self.ghost.setdefault('fs_paths', [])
        if not any(isinstance(q, str) and isinstance(p, str) and q == p or is_z3(q) and is_z3(p) and q.eq(p) for q in known):
            self.assume(z3.And(K0(zs(p)) >= 0, K0(zs(p)) <= 3, BELOW(zs(p), zs(p))))
            for q in list(known):
                for d, e in ((p, q), (q, p)):
                    self.assume(z3.Implies(z3.And(K0(zs(d)) == 0, BELOW(zs(d), zs(e))), K0(zs(e)) == 0))
            known.append(p)
        return p

    def fs_join(self, d, r):
        self.assume(BELOW(zs(d), zs(r)))
        self.assume(zs(d) != zs(r))
        self.fs_path(d)
        self.fs_path(r)

    def fs_append(self, old, new):
        for d in list(self.ghost.get('fs_paths', [])):
            self.assume(z3.Implies(z3.And(BELOW(zs(d), zs(old)), zs(d) != zs(old)), z3.And(BELOW(zs(d), zs(new)), zs(d) != zs(new))))
        self.fs_path(new)

    # ---------------------------------------------------------------- status
    def fs_status(self, args, test):
        p = self.fs_path(args[0])
        k = self.fs_kind(p)
        err = STAT_ERR(zs(p))
        if len(args) > 1:
            self.write(args[1], Struct('error_code', {'val': err}))
            return b_and(b_not(err), test(k))
        if self.branch(err):
            self.throw(FSERR)
        return test(k)

    def lf_filesystem__exists(self, c, args, n):
        return self.fs_status(args, lambda k: k != 0)

    def lf_filesystem__is_directory(self, c, args, n):
        return self.fs_status(args, lambda k: k == 2)

    def lf_filesystem__is_regular_file(self, c, args, n):
        return self.fs_status(args, lambda k: k == 1)

    # ---------------------------------------------------------------- modification
    def fs_removal_fails(self):
        if self.ghost.get('fs_removal_ok'):
            return False
        f = self.fresh('removal_fails', B)
        self.ghost['fs_removals'] = self.ghost.get('fs_removals', ()) + (f,)
        return f

    def fs_remove(self, args, match, what):
        p = self.fs_path(args[0])
        fails = self.fs_removal_fails()
        was = self.fs_kind(p) != 0
        if len(args) > 1:
            self.write(args[1], Struct('error_code', {'val': fails}))
        elif self.branch(fails):
            self.throw(FSERR)
        m = match(p)
        self.fs_set(lambda q: b_and(b_not(fails), m(q)), 0)
        return b_and(was, b_not(fails))

    def lf_filesystem__remove(self, c, args, n):
        return self.fs_remove(args, lambda p: (lambda q: eq(q, p)), 'remove')

    def lf_filesystem__remove_all(self, c, args, n):
        self.fs_remove(args, lambda p: (lambda q: BELOW(zs(p), zs(q))), 'remove_all')
        r = self.fresh('removed', I)
        self.assume(r >= 0)
        return r

    def lf_filesystem__create_directory(self, c, args, n):
        p = self.fs_path(args[0])
        k = self.fs_kind(p)
        if self.branch(k == 2):
            err, made = False, False
        elif self.branch(b_and(k == 0, MKDIR(zs(p)))):
            err, made = False, True
            self.fs_set(lambda q: eq(q, p), 2)
        else:
            err, made = True, False
        if len(args) > 1:
            self.write(args[1], Struct('error_code', {'val': err}))
        elif err:
            self.throw(FSERR)
        return made

    # ---------------------------------------------------------------- streams and iterators
    def fs_construct(self, cls, args, n):
        if cls == 'std::filesystem::directory_iterator':
            if not args:
                return Opaque('directory_iterator_end')
            p = self.fs_path(args[0])
            ok = b_and(self.fs_kind(p) == 2, LIST(zs(p)))
            if len(args) > 1:
                self.write(args[1], Struct('error_code', {'val': b_not(ok)}))
            elif not self.branch(ok):
                self.throw(FSERR)
            return Opaque('directory_iterator')
        if cls.startswith('std::basic_ifstream'):
            if not args:
                return Struct('file', {'open': False, 'good': True, 'path': ''})
            p = self.fs_path(args[0])
            ok = b_and(self.fs_kind(p) != 0, ROPEN(zs(p)))
            return Struct('file', {'open': ok, 'good': ok, 'path': p, 'line': 0})
        if cls.startswith('std::basic_ofstream'):
            if not args:
                return Struct('file', {'open': False, 'good': True, 'path': ''})
            p = self.fs_path(args[0])
            mode = self.V(args[1]) if len(args) > 1 else 16
            if not isinstance(mode, int):
                raise Unsupported('ofstream with open mode')
            append, need = bool(mode & 1), bool(mode & 8) and not mode & 33
            can = b_and(WOPEN(zs(p)), b_not(self.fs_kind(p) == 0)) if need else WOPEN(zs(p))
            if self.branch(can):
                self.assume(b_not(self.fs_kind(p) == 2))
                k = self.fs_kind(p)
                cont = self.fs_content(p)
                self.fs_set(lambda q: eq(q, p), z3.If(k == 0, 1, k), z3.If(k == 0, 0, cont) if append or need else 0)
                w = dict(self.ghost.get('written', {}))
                w[len(w)] = (p, '')
                self.ghost['written'] = w
                if append or need:
                    return Struct('file', {'open': True, 'good': WGOOD(zs(p)), 'path': p})
                return Struct('file', {'open': True, 'good': WGOOD(zs(p)), 'path': p, 'id': len(w) - 1})
            return Struct('file', {'open': False, 'good': False, 'path': p, 'id': None})
        return NotImplemented

    def file_method(self, name, obj, o, A):
        if name == 'is_open':
            return o.fields['open']
        if name in ('good', 'operator bool'):
            return o.fields['good']
        if name in ('fail', 'operator!'):
            return b_not(o.fields['good'])
        if name == 'close':
            self.write(obj, o.with_('open', False))
            return None
        raise Unsupported('file stream method ' + name)
