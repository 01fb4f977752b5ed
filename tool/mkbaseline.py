"""Regenerates tool/baseline.json from /repo: for every function under contract its number of loops, its locals
(to follow renames) and a digest of its generated module (to tell a solver resource limit from a changed obligation)."""
import sys, os, json, tempfile, shutil, hashlib, importlib, glob
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), 'specs')]
import env, prove, natbuild
d = tempfile.mkdtemp(prefix='vp-base-')
try:
    nb = natbuild.Native(env.REPO, d); nb.configure()
    out = {}
    for f in sorted(glob.glob(os.path.join(env.VERIF, 'specs', 'C*.py'))):
        spec = importlib.import_module(os.path.basename(f)[:-3])
        if not spec.FNS: continue
        pr = prove.Prover(env.REPO, env.flags(nb.gen), list(spec.FNS), getattr(spec, 'THEORIES', ()))
        pr.translate()
        for s in pr.specs:
            if s.trusted: continue
            t = pr.trs[s.name]
            out[s.name] = {'loops': t.loops_seen, 'rets': t.rets_seen, 'locals': [list(x) for x in t.locals_seen], 'sha': hashlib.sha1(pr.module_text(s.name).encode()).hexdigest()}
    json.dump(out, open(os.path.join(HERE, 'baseline.json'), 'w'), indent=0, sort_keys=True)
    print(len(out), 'functions')
finally: shutil.rmtree(d, ignore_errors=True)
