#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's current working tree.

Deciding step: every obligation generated from the current source is discharged by the SMT portfolio.
Second step: the executable contract is evaluated on the real compiled code (counterexample search and
replay; bounded stand-in for functions outside the prover's reach)."""
import sys, os, json, time, tempfile, shutil, subprocess, threading, hashlib, importlib, traceback, signal, re
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), 'specs')]
import env
from cast import Unsupported
import prove, natbuild

T0 = time.time()
def log(*a): print(*a, flush=True)

def load_baseline():
    try: return json.load(open(os.path.join(HERE, 'baseline.json')))
    except FileNotFoundError: return {}

def shape(tr):
    return {'loops': tr.loops_seen, 'locals': [list(x) for x in tr.locals_seen]}

def spec_names(fn):
    txt = []
    for l in fn.loops.values():
        txt += l.inv + ([l.var] if l.var else []) + l.begin + l.end + l.before + l.after
    for r in fn.rets.values(): txt += r
    txt += fn.begin + fn.end
    return set(re.findall(r"[A-Za-z_]\w*", ' '.join(txt)))

def adapt(pr, base, notes):
    """Follow renamed locals: annotation names missing from the current function are matched with new names of
    the same type, in declaration order.  Sound: a wrong guess only makes an obligation fail."""
    mism = {}
    for s in pr.specs:
        if s.trusted or s.name not in base: continue
        t, b = pr.trs[s.name], base[s.name]
        used = spec_names(s)
        cur, old = [tuple(x) for x in t.locals_seen], [tuple(x) for x in b['locals']]
        curn, oldn = {n for n, _ in cur}, {n for n, _ in old}
        gone = [(n, ty) for n, ty in dict.fromkeys(old) if n not in curn and n in used]
        new = [(n, ty) for n, ty in dict.fromkeys(cur) if n not in oldn]
        ren = {}
        for n, ty in gone:
            c = [x for x in new if x[1] == ty and x[0] not in ren.values()]
            if c: ren[n] = c[0][0]
            else: mism.setdefault(s.name, []).append(f'annotation variable {n} no longer exists')
        if ren: pr.rename[s.name] = ren; notes.append(f'{s.name}: annotation names followed {ren}')
        if s.rets and t.rets_seen != b.get('rets'):
            mism.setdefault(s.name, []).append('return structure changed')
        if t.loops_seen != b['loops']:
            mism.setdefault(s.name, []).append(f'loop structure changed ({b["loops"]} -> {t.loops_seen} loops)')
    return mism

class Proof:
    def __init__(self): self.status, self.obls, self.smoke, self.notes, self.mism, self.pr, self.err, self.same = 'none', [], [], [], {}, None, None, {}

def run_proof(spec, gen, work, thorough, deadline):
    P = Proof()
    base = load_baseline()
    try:
        fns = list(spec.FNS)
        P.pr = None
        dropped = {}
        while True:
            pr = prove.Prover(env.REPO, env.flags(gen), fns, getattr(spec, 'THEORIES', ()))
            if P.pr: pr.tus = P.pr.tus
            P.pr = pr
            try:
                pr.translate(); break
            except Unsupported as e:
                # find the offending function, drop it (its callers too: they keep the contract as assumption)
                bad = getattr(e, 'fn', None)
                if bad is None: raise
                dropped[bad] = str(e)
                if len(dropped) >= len(fns): break
                fns = [f for f in fns if f.name != bad] + []
                fns = [f for f in fns]
                keep = next(f for f in spec.FNS if f.name == bad)
                import copy
                k = copy.copy(keep); k.trusted = True; k.dropped = True
                fns.append(k)
                fns.sort(key=lambda f: [g.name for g in spec.FNS].index(f.name))
        P.mism.update({k: [v] for k, v in dropped.items()})
        m = adapt(pr, base, P.notes)
        for k, v in m.items(): P.mism.setdefault(k, []).extend(v)
        if pr.rename: pr.translate()
        for s in pr.specs:
            if not s.trusted:
                h = hashlib.sha1(pr.module_text(s.name).encode()).hexdigest()
                P.same[s.name] = (base.get(s.name, {}).get('sha') == h)
        only = [s.name for s in pr.specs if not s.trusted]
        P.obls, P.smoke = [], []
        P.why_err = {}
        obls, smk, errs = prove.prove_all2(pr, work, deadline=deadline, smoke=True, thorough=thorough)
        P.obls, P.smoke = obls, smk
        for k, v in errs.items(): P.mism.setdefault(k, []).append(v)
        P.status = 'done'
    except Unsupported as e:
        P.status, P.err = 'unsupported', str(e)
    except Exception as e:
        P.status, P.err = 'error', traceback.format_exc()
    return P

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv: tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    thorough = tier == 'thorough'
    spec = importlib.import_module(pid)
    evid = os.path.join(env.VERIF, 'evidence'); os.makedirs(evid, exist_ok=True)
    replay = os.path.join(evid, f'replay-{pid}.txt')
    if os.path.exists(replay): os.remove(replay)
    scratch = tempfile.mkdtemp(prefix=f'vp-{pid}-')
    rc = 2
    try:
        rc = decide(pid, spec, tier, seed, thorough, evid, replay, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)

def decide(pid, spec, tier, seed, thorough, evid, replay, scratch):
    nb = natbuild.Native(env.REPO, os.path.join(scratch, 'nb'))
    try: nb.configure()
    except natbuild.BuildError as e:
        log('check error: /repo does not configure:', str(e)[-1500:]); return 2
    nat = {}
    def native():
        try: nat['r'] = nb.run_harnesses(spec, seed, thorough)
        except natbuild.BuildError as e: nat['err'] = str(e)
        except Exception: nat['err'] = traceback.format_exc()
    nt = threading.Thread(target=native); nt.start()
    if getattr(spec, 'CBMC', None) is not None:
        import cbmcrun
    P = run_proof(spec, nb.gen, os.path.join(scratch, 'why'), thorough, T0 + (2400 if thorough else 640))
    C = []
    if getattr(spec, 'CBMC', None) is not None:
        C = cbmcrun.run(spec.CBMC, env.REPO, env.flags(nb.gen), os.path.join(scratch, 'cbmc'))
    nt.join()
    fails, evals = [], []
    if 'err' in nat: log('note: executable contract could not be built or run:', nat['err'][-1200:])
    else: fails, evals = nat['r']
    known = [k for k in json.load(open(os.path.join(env.VERIF, 'known_findings.json')))['findings'] if k['property'] == pid and k.get('status') == 'open']
    for k in known:
        if k.get('key') in nb.known: log(f'KNOWN-FINDING: property={pid} {k["what"]}')
    unl = []
    for f in fails:
        k = next((k for k in known if k.get('match') and re.search(k['match'], f['out'])), None)
        if k: log(f'KNOWN-FINDING: property={pid} {k["what"]}')
        else: unl.append(f)
    total = len(P.obls); done = sum(o.status == 'proved' for o in P.obls)
    bad = [o for o in P.obls if o.status != 'proved']
    vac = [o for o in P.smoke if o.status == 'VACUOUS']
    cbad = [c for c in C if c['status'] == 'failed']
    cerr = [c for c in C if c['status'] == 'error']
    resource = [o for o in bad if P.same.get(o.fn, o.fn.startswith('theory'))]
    structural = [o for o in bad if o not in resource and o.fn in P.mism]
    named = [o for o in bad if o not in resource and o not in structural]
    for k, v in P.mism.items(): log(f'note: {k}: {"; ".join(v)[:600]}')
    for n in P.notes: log('note:', n)
    if P.status != 'done': log('note: proof part not decided:', P.err[-1500:])
    log(f'{pid}: obligations {done}/{total} discharged over {len(P.same)} functions; vacuous {len(vac)}; cbmc {sum(c["status"]=="proved" for c in C)}/{len(C)}; executable contract: {sum(e["evaluations"] for e in evals)} cases, {len(fails)} failing; {time.time()-T0:.0f}s')
    viol = None
    if unl:
        f = unl[0]
        viol = (f"failing input found by executing the contract on the real code\n{f['out']}\n", '')
    elif cbad:
        c = cbad[0]
        viol = (f"obligation {c['name']} fails (cbmc counterexample)\n{c['out']}\n", ' no-failing-input-found')
    elif named:
        viol = ('obligations that are discharged on the unchanged tree now fail; no failing input was found by the bounded search\n', ' no-failing-input-found')
    ev = evidence(pid, spec, tier, seed, P, C, evals, fails, nat, done, total, viol, resource, structural)
    json.dump(ev, open(os.path.join(evid, pid + '.json'), 'w'), indent=1)
    if viol:
        with open(replay, 'w') as f:
            f.write(f'property {pid}\n{viol[0]}\n')
            for x in unl: f.write(f"\nharness command (after building with tool/natbuild.py): {x['cmd']}\n{x['out']}\n")
            for o in bad[:20]: f.write(f'failed obligation: {o.name()}   [{o.out}]\n')
            for c in cbad: f.write(f"failed obligation: {c['name']}\n{c['out'][-4000:]}\n")
            for o in named[:3]:
                f.write(f'\n--- goal of {o.name()}\n')
                try:
                    w = o.fz.replace('/z/', '/w/').replace('.smt2', '.why')
                    s = open(w).read(); f.write(s[s.rfind("\ngoal "):][:4000])
                except Exception: pass
        for o in bad[:5]: log('failed obligation:', o.name(), o.out)
        for x in unl[:3]: log(x['out'][:1500])
        log(f'VIOLATION property={pid} replay={replay}{viol[1]}')
        return 1
    if 'err' in nat and (P.status != 'done' or total == 0 or structural):
        log('check error: neither the proof nor the executable contract could be evaluated'); return 2
    return 0

def evidence(pid, spec, tier, seed, P, C, evals, fails, nat, done, total, viol, resource, structural):
    by, st = {}, {}
    for o in P.obls:
        if o.solver: by[o.solver] = by.get(o.solver, 0) + 1
        st[o.fn] = st.get(o.fn, 0) + 1
    assume = list(getattr(spec, 'ASSUME', []))
    for n, t in (P.pr.trs.items() if P.pr else ()):
        for a in sorted(t.assumptions): assume.append(f'{n}: {a}')
        if t.sp.trusted: assume.append(f'{n}: contract assumed, body not verified' + (' (extraction failed on this run)' if getattr(t.sp, 'dropped', False) else ''))
        if not t.allvariants: assume.append(f'{n}: termination not proved')
    assume += ['memory accesses in bounds and types respected (checked only on the executed cases, with AddressSanitizer)',
               'floating-point values are arbitrary in the extracted code']
    cov = {
      'obligations': total + sum(c['obligations'] for c in C), 'discharged': done + sum(c['obligations'] for c in C if c['status'] == 'proved'),
      'checker_cmd': f'python3 tool/check.py {pid}',
      'trusted_base': ['tool/c2why.py extraction (clang 18 AST to WhyML)', 'Why3 1.6.0 VC generation', 'z3 4.8.12, z3 5.x, cvc5 1.1.2', 'tool/prelude.mlw memory model and bit axioms'] + (['CBMC 6.11'] if C else []),
      'functions_under_contract': sorted(P.same), 'obligations_by_function': st, 'discharged_by_backend': by,
      'cbmc': [{k: c[k] for k in ('name', 'status', 'obligations')} for c in C],
      'solver_seconds': round(sum(o.time for o in P.obls), 2),
      'inlined_functions': sorted({f'{n}<-{i}' for n, t in (P.pr.trs.items() if P.pr else ()) for i in t.inlined}),
      'vacuity_checks': len(P.smoke), 'vacuous': sum(o.status == 'VACUOUS' for o in P.smoke),
      'undischarged_resource_limit': [o.name() for o in resource], 'bounded_on_this_run': {k: v for k, v in P.mism.items()},
      'proof_status': P.status, 'proof_note': P.err,
      'bounded_executions': {'evaluations': sum(e['evaluations'] for e in evals), 'distinct_nontrivial': sum(e['nontrivial'] for e in evals),
          'assertions': sum(e['assertions'] for e in evals), 'rule': getattr(spec, 'RULE', 'random and enumerated small inputs; nontrivial as counted by the harness'),
          'samples': [e['sample'] for e in evals], 'error': nat.get('err')},
      'bounded_functions': getattr(spec, 'BOUNDED', []),
    }
    if getattr(spec, 'LEVEL', 'proof') != 'proof':
        cov.update({'evaluations': cov['bounded_executions']['evaluations'], 'distinct_nontrivial': cov['bounded_executions']['distinct_nontrivial'],
                    'rule': cov['bounded_executions']['rule'], 'samples': cov['bounded_executions']['samples']})
    return {'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(spec, 'LEVEL', 'proof'), 'coverage': cov, 'assumptions': assume,
            'wall_s': round(time.time() - T0, 2), 'violations': 1 if viol else 0}

main()
