import sys, os, importlib, time
sys.path[:0] = ['/verif/tool', '/verif/specs']
os.environ.setdefault('VP_DEV_CACHE', '/tmp/vpcache'); os.makedirs('/tmp/vpcache', exist_ok=True)
import env; from prove import *
mod = importlib.import_module(sys.argv[1])
only = [a for a in sys.argv[2:] if not a.startswith('-')] or None
gen = os.environ.get('VP_GEN', '/repo/_build')
pr = Prover(env.REPO, env.flags(gen), mod.FNS, getattr(mod, 'THEORIES', ()))
t = time.time()
stages = STAGES if '-full' in sys.argv else STAGES[:3] if '-q' not in sys.argv else [('z3-new',2)]
work = '/tmp/w/' + sys.argv[1]
try:
    pr.translate()
    obls, smk, errs = prove_all2(pr, work, only=only, stages=stages, smoke='-s' in sys.argv)
    for k, v in errs.items(): print('GENERR', k, v)
except Unsupported as e:
    print('UNSUPPORTED', e); sys.exit(2)
bad = [o for o in obls if o.status != 'proved']
for o in bad[:int(os.environ.get('N','12'))]: print('UNPROVED', o.name(), o.out, o.fz)
for o in sorted(obls, key=lambda o: -o.time)[:3]: print('  slow', o.name(), o.solver, round(o.time, 1))
by = {}
for o in obls: by.setdefault(o.fn, [0, 0]); by[o.fn][0] += 1; by[o.fn][1] += o.status == 'proved'
print({k: v for k, v in by.items() if v[0] != v[1]}, 'total', len(obls), 'bad', len(bad), 'smoke', [(o.fn, o.status) for o in smk if o.status != 'ok'], len(smk), 'time', round(time.time() - t, 1))
if '-v' in sys.argv:
  for n, tr in pr.trs.items(): print(n, 'writes', sorted(tr.writes), 'loops', tr.loops_seen, 'inl', tr.inlined, tr.assumptions if '-v' in sys.argv else '')
