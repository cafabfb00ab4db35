#!/usr/bin/env python3
"""Decide one property of /repo's current tree:  python3-vt check.py Cxx [quick|thorough]

1. extract: clang parses /repo's headers (through driver/driver.cpp, which only instantiates templates) -> IR
2. prove:   every contract the property depends on is discharged function by function, for every instance
3. replay:  harness/Cxx.cpp runs the real code on a bounded input space against an independent oracle
Outcome: see DESIGN.md ("How a run is judged")."""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time, traceback
import multiprocessing as mp
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
EV = os.environ.get('VP_EV', os.path.join(HERE, 'evidence'))
sys.path.insert(0, HERE)
NPROC = min(8, os.cpu_count() or 4)


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, **kw)


# ------------------------------------------------------------------------------------------------ setup
def build_extractor(force=False):
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, 'cxtract')
    src = os.path.join(HERE, 'extractor', 'cxtract.cpp')
    if not force and os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return out
    flags = subprocess.run('llvm-config-18 --cxxflags', shell=True, capture_output=True, text=True).stdout
    flags = [f for f in flags.split() if not f.startswith('-std=') and f != '-fno-exceptions']
    tmp = out + '.%d' % os.getpid()
    r = sh(['clang++', '-std=c++17', '-O1', '-fno-rtti'] + flags + [src, '-o', tmp, '-L/usr/lib/llvm-18/lib',
                                                                   '-l:libclang-cpp.so.18.1', '-lLLVM-18'])
    if r.returncode:
        raise RuntimeError('extractor does not build: ' + r.stdout[-2000:])
    os.replace(tmp, out)
    return out


def extract(work, variant=''):
    ext = build_extractor()
    out = os.path.join(work, 'ir%s.json' % variant)
    res = subprocess.run(['clang-18', '-print-resource-dir'], capture_output=True, text=True).stdout.strip()
    r = sh([ext, REPO + '/include/', out, os.path.join(HERE, 'driver', 'driver.cpp'), '--', '-std=c++20',
            '-I' + REPO + '/include', '-resource-dir', res, '-DSHARG_HAS_TDL=0'] + (['-D' + variant] if variant else []), timeout=240)
    if r.returncode or not os.path.exists(out):
        return None, r.stdout[-3000:]
    with open(out) as f:
        ir = json.load(f)
    ir['variant'] = variant
    return ir, ''


# ------------------------------------------------------------------------------------------------ proof
_PROG = None


def _task(a):
    name, fnid, disabled, scale = a
    from cxv.spec import run_task, REG
    import faulthandler
    s = REG.specs[name]
    old = (s.tmo, s.cvc, s.budget)
    s.tmo, s.cvc, s.budget = s.tmo * scale, s.cvc * scale, s.budget * scale
    try:
        return run_task(_PROG, name, fnid, False, disabled)
    except BaseException as e:  # noqa
        return {'spec': name, 'fn': fnid, 'q': name, 'label': name, 'error': 'internal: %s' % e, 'obs': [], 'paths': 0,
                'live': {}, 'inlined': [], 'contracts': [], 'trusted': [], 'dropped': 0, 'loops': 0, 'time': 0,
                'trace': traceback.format_exc()[-1500:]}
    finally:
        s.tmo, s.cvc, s.budget = old


def clause(ob_name, spec_name):
    """the clause of the contract an obligation belongs to"""
    return ob_name.split(': ', 1)[1] if ob_name.startswith(spec_name + ': ') else ob_name


def belongs(prop, spec_name, ob):
    """obligation is a clause of this property (labels starting with other properties' ids are not)"""
    m = re.match(r'(C\d\d(?:,C\d\d)*)\b', clause(ob[0], spec_name))
    return m is None or prop in m.group(1).split(',')


class Proof:
    def __init__(self, prop, conf, ir, deadline):
        global _PROG
        from cxv.engine import Prog
        from cxv.spec import REG, Spec, closure
        import contracts  # noqa
        self.REG, self.Spec, self.prop, self.conf = REG, Spec, prop, conf
        self.prog = _PROG = Prog(ir)
        self.deadline = deadline
        self.primary = list(conf['specs'])
        self.closure = closure(self.primary)
        self.records = {}
        self.disabled = set()
        self.notes = []
        self.missing = []

    def instances(self, name):
        s = self.REG.specs[name]
        if s.q is None and type(s).fns is self.Spec.fns:
            return [None]
        return [f['id'] for f in s.fns(self.prog)]

    def run(self):
        todo = {n: self.instances(n) for n in self.closure}
        for n, l in todo.items():
            if not l:
                self.missing.append(n)
                if n not in self.primary:
                    self.disabled.add(n)
        every = dict(todo)
        stale = set()       # contracts whose last proof used a contract that has turned out not to hold
        for rnd in range(8):
            tasks = [(n, i, tuple(sorted(self.disabled)), 1) for n, l in todo.items() for i in l if n not in self.disabled]
            # long ones first
            order = {n: -self.REG.specs[n].budget for n in self.closure}
            tasks.sort(key=lambda t: (order[t[0]], t[0]))
            self.execute(tasks)
            stale -= set(todo)
            bad = self.bad()
            # timeouts get a second chance
            again = [(n, i, tuple(sorted(self.disabled)), 4) for n, l in bad.items() for i in l
                     if any(o[2] == 'unknown' for o in self.records[(n, i)]['obs']) or self.records[(n, i)].get('soft_unknown')
                     or 'time budget' in (self.records[(n, i)]['error'] or '')]
            if again and time.time() < self.deadline - 60:
                self.execute(again)
                bad = self.bad()
            aux = [n for n in bad if n not in self.primary]
            if not aux:
                break
            # an auxiliary contract does not hold: check its callers against the body instead
            for n in aux:
                self.disabled.add(n)
                self.notes.append('auxiliary contract %s not established: callers are checked against the body' % n)
            stale |= {n for n in every if self.depends(n, aux)}
            todo = {n: l for n, l in every.items() if n not in self.disabled and n in stale}
            if not todo or time.time() > self.deadline:
                break
        for n in stale - self.disabled:
            for i in every[n]:
                self.records[(n, i)]['error'] = self.records[(n, i)]['error'] or 'time budget: proved from a contract that does not hold'
        return self.records

    def bad(self):
        r = {}
        for (n, i), rec in self.records.items():
            if n not in self.disabled and (rec['error'] or any(o[2] != 'unsat' for o in rec['obs'])):
                r.setdefault(n, []).append(i)
        return r

    def depends(self, n, aux):
        return any(u in aux for u in self.REG.specs[n].uses)

    def execute(self, tasks):
        for t in [t for t in tasks if self.REG.specs[t[0]].par]:
            r = _task(t)
            self.records[(r['spec'], r['fn'])] = r
        tasks = [t for t in tasks if not self.REG.specs[t[0]].par]
        if not tasks:
            return
        with mp.get_context('fork').Pool(NPROC, maxtasksperchild=4) as pool:
            it = pool.imap_unordered(_task, tasks)
            for k in range(len(tasks)):
                left = max(5, self.deadline - time.time())
                try:
                    r = it.next(timeout=left)
                except mp.TimeoutError:
                    self.notes.append('proof time budget exhausted')
                    done = set()
                    for n, i, *_ in tasks:
                        if (n, i) not in self.records:
                            self.records[(n, i)] = {'spec': n, 'fn': i, 'q': n, 'label': n, 'error': 'time budget', 'obs': [],
                                                    'paths': 0, 'live': {}, 'inlined': [], 'contracts': [], 'trusted': [],
                                                    'dropped': 0, 'loops': 0, 'time': 0}
                    pool.terminate()
                    return
                self.records[(r['spec'], r['fn'])] = r

    def merge(self, other, variant):
        """the records of the same contracts for another configuration of the code"""
        for (n, i), r in other.records.items():
            if n not in other.disabled:
                r['label'] += ' [%s]' % variant
                self.records[(n, (variant, i))] = r
        self.notes += ['%s: %s' % (variant, x) for x in other.notes]

    def verdict(self):
        """(failed primary obligations, unsupported primary tasks)"""
        failed, unsup = [], []
        for n in self.missing:
            if n in self.primary:
                unsup.append((n, 'no function of that name is left'))
        for (n, i), r in sorted(self.records.items(), key=lambda x: str(x[0])):
            if n in self.disabled or n not in self.primary:
                continue
            if r['error']:
                unsup.append((r['label'], r['error']))
                if os.environ.get('VP_TRACE'):
                    print(r.get('trace'), file=sys.stderr)
                continue
            mine = [o for o in r['obs'] if o[2] != 'unsat' and belongs(self.prop, n, o)]
            failed += [(r, o) for o in mine if o[2] != 'unknown']
            # neither proved nor refuted in the time there is
            unsup += [(r['label'], 'undecided: ' + o[0]) for o in mine if o[2] == 'unknown']
            for u in self.REG.specs[n].uses:
                if u in self.primary and any(o[2] != 'unsat' and not belongs(self.prop, u, o) for (m, _), q in self.records.items() if m == u for o in q['obs']):
                    unsup.append((r['label'], 'uses contract %s, which fails in a clause of another property' % u))
        return failed, unsup


# ------------------------------------------------------------------------------------------------ replay on the real code
class Harness:
    def __init__(self, prop, tier, seed, work):
        self.prop, self.tier, self.seed, self.work = prop, tier, seed, work
        self.src = os.path.join(HERE, 'harness', prop + '.cpp')
        self.bin = os.path.join(work, prop)
        self.build_log = ''
        self.ok = None

    def exists(self):
        return os.path.exists(self.src)

    def build(self):
        head = open(self.src).read(4000)
        flags = re.findall(r'^// flags: (.*)$', head, re.M)
        cmd = ['g++', '-std=c++20', '-O0', '-g0', '-w', '-D_GLIBCXX_ASSERTIONS', '-DSHARG_HAS_TDL=0', '-I' + REPO + '/include',
               '-I' + os.path.join(HERE, 'harness'), self.src, '-o', self.bin, '-pthread']
        for f in flags:
            cmd += f.split()
        cmds = [cmd]
        # other configurations of the code under test
        for k, f in enumerate(re.findall(r'^// also: (.*)$', head, re.M)):
            cmds.append([x + '.%d' % (k + 1) if x == self.bin else x for x in cmd] + f.split())
        self.bins = [self.bin] + [self.bin + '.%d' % (k + 1) for k in range(len(cmds) - 1)]
        try:
            with ThreadPoolExecutor(4) as tp:
                rs = list(tp.map(lambda c: sh(c, timeout=400), cmds))
        except subprocess.TimeoutExpired:
            self.ok, self.build_log = False, 'compiler timeout'
            return
        self.ok = all(r.returncode == 0 for r in rs)
        self.build_log = ''.join(r.stdout[-3000:] for r in rs if r.returncode)

    def run(self, budget, extra=()):
        res = {'evaluations': 0, 'distinct': 0, 'samples': [], 'fails': [], 'notes': [], 'known': []}
        for b in self.bins:
            self.run_bin(b, budget / len(self.bins), res, extra)
        return res

    def run_bin(self, binary, budget, res, extra):
        def shard(i):
            d = os.path.join(self.work, 'h%d' % i)
            os.makedirs(d, exist_ok=True)
            env = dict(os.environ, VP_DIR=d, HOME=os.path.join(d, 'home'), VP_CUR=os.path.join(d, 'cur'),
                       SHARG_NO_VERSION_CHECK='1', TMPDIR=d, LC_ALL='C', ASAN_OPTIONS='detect_leaks=0:abort_on_error=1')
            os.makedirs(env['HOME'], exist_ok=True)
            p = subprocess.Popen([binary, self.tier, str(self.seed), str(i), str(NPROC)] + list(extra), cwd=d, env=env,
                                 stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, start_new_session=True)
            try:
                o, e = p.communicate(timeout=budget)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                o, e = p.communicate()
                rc = 'timeout'
            try:
                cur = open(env['VP_CUR'], 'rb').read().split(b'\0')[0].decode('utf8', 'replace')
            except OSError:
                cur = ''
            return i, rc, o.decode('utf8', 'replace'), e.decode('utf8', 'replace'), cur

        with ThreadPoolExecutor(NPROC) as tp:
            for i, rc, o, e, cur in tp.map(shard, range(NPROC)):
                for l in o.split('\n'):
                    if l.startswith('FAIL '):
                        res['fails'].append(l[5:])
                    elif l.startswith('STAT '):
                        a, b = l.split()[1:3]
                        res['evaluations'] += int(a)
                        res['distinct'] += int(b)
                    elif l.startswith('SAMPLE '):
                        res['samples'].append(l[7:])
                    elif l.startswith('RULE '):
                        res['rule'] = l[5:]
                    elif l.startswith('KNOWN '):
                        res['known'].append(l[6:])
                    elif l.startswith('NOTE '):
                        res['notes'].append(l[5:])
                if rc == 'timeout':
                    if cur:
                        res['notes'].append('shard %d stopped at its time limit' % i)
                    res['timeout'] = cur
                elif rc not in (0, 1):
                    res['fails'].append('the program crashed (%s) on: %s   %s' % (rc, cur, e[-600:].replace('\n', ' | ')))
        return res


def known_findings():
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) id=(\S+) (.*)', l.strip())
            if m:
                out.append(m.groups())
    return out


def main():
    if sys.argv[1] == 'setup':
        build_extractor(True)
        print('extractor built')
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    from contracts.props import PROPS, ASSUMPTIONS, TRUSTED
    conf = PROPS[prop]
    os.makedirs(EV, exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix='vp-%s-' % prop)
    limit = 700 if tier == 'quick' else 850
    try:
        return judge(prop, tier, seed, t0, conf, work, t0 + limit, ASSUMPTIONS, TRUSTED)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def judge(prop, tier, seed, t0, conf, work, limit, ASSUMPTIONS, TRUSTED):
    har = Harness(prop, tier, seed, work)
    tp = ThreadPoolExecutor(1)
    hb = tp.submit(har.build) if har.exists() and not os.environ.get('VP_NOHARNESS') else None
    proof, err = None, None
    failed, unsup = [], []
    if conf['specs']:
        end = min(limit - 200, time.time() + (300 if tier == 'quick' else 450))
        for variant, specs in [('', conf['specs'])] + list(conf.get('variants', {}).items()):
            ir, log = extract(work, variant)
            if ir is None:
                unsup.append(('extraction', log[-600:]))
                continue
            p = Proof(prop, dict(conf, specs=specs), ir, end)
            del ir
            p.run()
            f, u = p.verdict()
            failed, unsup = failed + f, unsup + u
            if proof is None:
                proof = p
            else:
                proof.merge(p, variant)
    res = None
    if hb is not None:
        hb.result()
        if har.ok:
            left = limit - time.time()
            res = har.run(max(30, min(left - 20, 200 if tier == 'quick' else 400)))
    # ---------------------------------------------------------------- report
    status, lines = 0, []
    known = [k for k in known_findings() if k[0] == prop]
    replay = os.path.join(EV, '%s.replay.txt' % prop)
    if os.path.exists(replay):
        os.unlink(replay)
    fails = []
    seen_known = set()
    if res:
        for k in res['known']:
            kid = k.split()[0]
            if any(x[1] == kid for x in known):
                seen_known.add(kid)
            else:
                fails.append(k)
        fails += res['fails']
    for k in known:
        if k[1] in seen_known:
            lines.append('KNOWN-FINDING: property=%s %s %s' % k)
    if fails:
        with open(replay, 'w') as f:
            f.write('property %s\nfailing input on the real code (harness/%s.cpp, seed %d, tier %s):\n' % (prop, prop, seed, tier))
            for x in fails[:20]:
                f.write(x + '\n')
            for r, o in failed[:20]:
                f.write('failed obligation: %s / %s (line %s): %s by %s\n' % (r['label'], o[0], o[5], o[2], o[3]))
        lines.append('failing input: ' + fails[0][:500])
        lines.append('VIOLATION property=%s replay=%s' % (prop, replay))
        status = 1
    elif failed:
        with open(replay, 'w') as f:
            f.write('property %s\nfailed obligations (no failing input found on the bounded space of harness/%s.cpp):\n' % (prop, prop))
            for r, o in failed[:30]:
                f.write('\nobligation: %s\n  clause: %s\n  kind: %s  verdict: %s by %s  function: %s  line: %s\n  goal: %s\n  model: %s\n'
                        % (r['label'], o[0], o[1], o[2], o[3], o[6], o[5], o[8], o[7]))
        for r, o in failed[:5]:
            lines.append('failed obligation: %s / %s: %s (%s)' % (r['label'], o[0], o[2], o[3]))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, replay))
        status = 1
    elif unsup:
        if not res:
            lines.append('no answer: neither proof nor harness: ' + har.build_log[-1500:])
            status = 2
    elif conf['specs'] == [] and not res:
        lines.append('no answer: harness does not build: ' + har.build_log[-1500:])
        status = 2
    for l, e in unsup[:5]:
        lines.insert(0, 'DEGRADED property=%s outside the verifier: %s: %s' % (prop, l, str(e)[:300]))
    # ---------------------------------------------------------------- evidence
    ev = evidence(prop, tier, seed, conf, proof, failed, unsup, res, har, status, t0, ASSUMPTIONS, TRUSTED)
    with open(os.path.join(EV, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    c = ev['coverage']
    print('property %s tier %s: %s obligations, %s discharged, %d functions under contract; %s evaluations on the real code; %.0f s'
          % (prop, tier, c.get('obligations', 0), c.get('discharged', 0), len(c.get('functions_under_contract', [])),
             c.get('bounded', {}).get('evaluations', 0), time.time() - t0))
    for l in lines:
        print(l)
    return status


def evidence(prop, tier, seed, conf, proof, failed, unsup, res, har, status, t0, ASSUMPTIONS, TRUSTED):
    cov = {}
    level = 'proof' if proof is not None and not unsup else 'exploration'
    if proof is not None:
        obs, back, st, fns, inl, trusted, loops, dropped, paths = [], {}, 0.0, set(), set(), set(), 0, 0, 0
        per = {}
        for (n, i), r in proof.records.items():
            if n in proof.disabled:
                continue
            for o in r['obs']:
                if n in proof.primary and not belongs(prop, n, o):
                    continue
                obs.append(o)
                if o[2] == 'unsat':
                    back[o[3]] = back.get(o[3], 0) + 1
                st += o[4]
            if not r['error']:
                fns.add('%s %s' % (r['q'], re.sub(r'.*#\d+', '', r['label'])))
            per.setdefault(n, [0, 0])
            per[n][0] += 1
            per[n][1] += len(r['obs'])
            inl.update(r['inlined'])
            trusted.update(r['trusted'])
            loops += r['loops']
            paths += r['paths']
        kinds = {}
        for o in obs:
            kinds[o[1]] = kinds.get(o[1], 0) + 1
        cov.update({'obligations': len(obs), 'discharged': sum(1 for o in obs if o[2] == 'unsat'),
                    'checker_cmd': 'python3-vt check.py %s %s' % (prop, tier),
                    'trusted_base': TRUSTED + ['std model: ' + t for t in sorted(trusted)],
                    'functions_under_contract': sorted(fns), 'inlined_real_bodies': sorted(inl),
                    'contracts': {n: {'instances': a, 'obligations': b, 'role': 'primary' if n in proof.primary else 'auxiliary'} for n, (a, b) in sorted(per.items())},
                    'back_ends': back, 'obligation_kinds': kinds, 'solver_seconds': round(st, 2), 'loops_with_invariants': loops, 'paths': paths,
                    'notes': proof.notes, 'not_proved': conf.get('bounded_only', [])})
    if unsup:
        cov['degraded'] = ['%s: %s' % (a, str(b)[:300]) for a, b in unsup]
        cov['explanation'] = 'the proof did not go through on this tree; the bounded check decided'
    if res:
        cov['bounded'] = {'label': 'bounded (never counted as proved)', 'evaluations': res['evaluations'],
                          'distinct_nontrivial': res['distinct'], 'rule': res.get('rule', conf.get('bound', '')),
                          'samples': res['samples'][:6], 'notes': res['notes'][:5]}
        if level == 'exploration':
            cov.update({'evaluations': res['evaluations'], 'distinct_nontrivial': res['distinct'],
                        'rule': res.get('rule', conf.get('bound', '')), 'samples': res['samples'][:6] or ['-']})
    elif har.exists():
        cov['bounded'] = {'label': 'not run', 'notes': [har.build_log[-300:]]}
    if not cov:
        cov['explanation'] = 'nothing could be checked'
    return {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
            'assumptions': ASSUMPTIONS + conf.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': 1 if status == 1 else 0}


if __name__ == '__main__':
    sys.exit(main())
