"""dev: devnat.py SPEC [--thorough] [--seed N]  build in /tmp/nbdev and run harnesses"""
import sys, os, importlib
sys.path[:0] = [os.path.dirname(os.path.abspath(__file__)), os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs')]
import env, natbuild
ND = '/tmp/nbdev' + ('' if env.REPO == '/repo' else env.REPO.replace('/', '_'))
nb = natbuild.Native(env.REPO, ND)
if not os.path.exists(ND + '/build.ninja'): nb.configure()
else: nb.gen = nb.gen if hasattr(nb, 'gen') else None
class S: pass
for p in sys.argv[1].split(','):
    spec = importlib.import_module(p)
    seed = int(sys.argv[sys.argv.index('--seed') + 1]) if '--seed' in sys.argv else 1
    f, e = nb.run_harnesses(spec, seed, '--thorough' in sys.argv)
    for x in e: print(p, {k: v for k, v in x.items() if k != 'sample'})
    for x in f: print(p, x['cmd'], x['out'][:2500])
    print('known', sorted(nb.known))
