"""debugging: python3-vt -m cxv.run1 IR SPEC [fnid] [-v]"""
import sys, json, time
from .engine import Prog
from .spec import REG, run_task
import contracts
p = Prog(json.load(open(sys.argv[1])))
v = '-v' in sys.argv
a = [x for x in sys.argv[2:] if x != '-v']
s = REG.specs[a[0]]
for f in (s.fns(p) or [{'id':None}] if s.q is None else s.fns(p)):
    if len(a) > 1 and f['id'] is not None and str(f['id']) not in a[1:]:
        continue
    r = run_task(p, a[0], f['id'], v)
    bad = [o for o in r['obs'] if o[2] != 'unsat']
    print('%s paths=%d obs=%d bad=%d loops=%d drop=%d t=%.2f %s' % (r['label'][:90], r['paths'], len(r['obs']), len(bad), r['loops'], r['dropped'], r['time'], r['error'] or ''), flush=True)
    if v: print("  ", r.get("dropdesc"))
    if v: print('  inlined', r['inlined'], 'contracts', r['contracts'], 'trusted', r['trusted'])
    for o in bad[:8]:
        print('    BAD', o[0], o[1], o[2], o[3], o[4], 'line', o[5], o[6])
        if v: print('        goal', o[8][:1500]); print('        model', o[7][:1500])
    if r.get('trace') and not v: print(r['trace'])
