"""Proof driver: C -> WhyML -> Why3 VCs -> SMT portfolio, per function under contract."""
import os, re, sys, subprocess, hashlib, tempfile, shutil, time, json, concurrent.futures as cf
from cast import *
from c2why import *

HERE = os.path.dirname(os.path.abspath(__file__))
WHY3 = 'why3'
DRV = '/usr/share/why3/drivers/'
DEV_CACHE = os.environ.get('VP_DEV_CACHE')          # development only, never set by registered checks

SOLVERS = {
 'z3-4.8.12': (lambda f, t: ['z3', f'-T:{t}', f], 'z'),
 'z3-new':    (lambda f, t: ['z3-new', f'-T:{t}', f], 'z'),
 'cvc5':      (lambda f, t: ['cvc5', f'--tlimit={t*1000}', f], 'c'),
}

def run_solver(name, f, t):
    t0 = time.time()
    try:
        r = subprocess.run(SOLVERS[name][0](f, t), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t + 5)
        out = r.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired:
        out = 'timeout'
    first = next((l for l in out.splitlines() if l.strip() in ('unsat', 'sat', 'unknown', 'timeout')), out[:200])
    return first.strip(), time.time() - t0, out

STAGES = [('cvc5', 2), ('z3-new', 3), ('cvc5', 6), ('z3-4.8.12', 6), ('z3-new', 20), ('cvc5', 20), ('z3-4.8.12', 40)]

class Obl:
    def __init__(self, fn, idx, expl, fz, fc):
        self.fn, self.idx, self.expl, self.fz, self.fc = fn, idx, expl, fz, fc
        self.status, self.solver, self.time, self.out = 'open', None, 0.0, ''
    def name(self): return f'{self.fn}:{self.idx}:{self.expl}'

def discharge(o, stages, stop=lambda: False):
    h = None
    if DEV_CACHE:
        h = os.path.join(DEV_CACHE, hashlib.sha1(open(o.fz, 'rb').read()).hexdigest())
        if os.path.exists(h):
            o.status, o.solver = 'proved', open(h).read(); return o
    for (s, t) in stages:
        if stop(): break
        f = o.fz if SOLVERS[s][1] == 'z' else o.fc
        if not f or not os.path.exists(f): continue
        st, dt, out = run_solver(s, f, t)
        o.time += dt
        if st != 'unsat' and s != 'z3-4.8.12' and os.path.exists(f[:-5] + '.o.smt2'):      # the text before simplify(): same formula, other terms
            st, dt, out = run_solver(s, f[:-5] + '.o.smt2', t)
            o.time += dt
        if st == 'unsat':
            o.status, o.solver = 'proved', s
            if h: open(h, 'w').write(s)
            return o
        o.out = f'{s}({t}s): {st}'
    o.status = 'unproved'
    return o

class Prover:
    def __init__(self, repo, flags, specs, theories=(), pure=''):
        """specs: list of Fn (all contracts of the property)."""
        self.repo, self.flags, self.specs = repo, flags, specs
        self.contracts = {s.name: s for s in specs}
        self.tus, self.trs = {}, {}
        self.theories = list(theories)     # paths of .mlw files with modules named as capitalised basename
        self.rename = {}

    def tu(self, file):
        if file not in self.tus:
            self.tus[file] = TU(os.path.join(self.repo, 'src', file), self.flags)
        return self.tus[file]

    def writes_of(self):
        return {n: {w: t.mems.get(w, 'int') for w in t.writes} for n, t in self.trs.items()}

    def translate(self, smoke=False):
        """translate until the write sets are stable"""
        prev = None
        for it in range(6):
            for s in self.specs:
                tu = self.tu(s.file)
                tr = Trans(tu, s, self.contracts, writes_of=self.writes_of(), rename=self.rename.get(s.name), smoke=smoke)
                try:
                    if s.trusted: tr.external(s)
                    else: tr.function(s.name)
                except Unsupported as e:
                    e.fn = s.name
                    raise
                if tr.uses_hp: tr.writes.add('hp')
                self.trs[s.name] = tr
            cur = {n: sorted(t.writes) for n, t in self.trs.items()}
            if cur == prev: break
            prev = cur

    def module_text(self, name):
        t = self.trs[name]
        mems, subs = dict(t.mems), set(t.subs)
        callees, todo = [], [n for n in t.calls]
        for n in todo:
            if n not in callees and n != name: callees.append(n)
        raw = t.raw
        for n in callees:
            c = self.trs[n]
            mems.update(c.cmems); subs |= c.subs
            for w in c.writes: mems.setdefault(w, c.mems.get(w, 'map int int'))
        mems.pop('hp', None)
        s = f'module M_{name}\n  use prelude.Prelude\n'
        for th in self.theories:
            b = os.path.basename(th)[:-4]
            if self.contracts[name].uses and b not in self.contracts[name].uses: continue
            s += f'  use {b}.{b.capitalize()}\n'
        s += mem_decls(mems)
        if raw: s += RAW
        for q in sorted(subs):
            s += f'  function {q} (p: int) : int\n'
            s += f'  val {q} (p: int) : int ensures {{ result = {q} p }}\n' if False else ''
        s = re.sub(r'  function ((?:sub|adr)_\w+) \(p: int\) : int\n', r'  val function \1 (p: int) : int\n', s)
        s += t.sp.defs + '\n'
        for n in callees:
            c = self.trs[n]
            w = sorted(c.writes)
            s += f'  val {c.sig}' + contract_text(c.contract[0], c.contract[1], n) + (f'\n  writes {{ {", ".join(w)} }}' if w else '') + '\n'
        rec = 'rec ' if t.isrec else ''
        s += f'\n  let {rec}{t.sig}' + contract_text(t.contract[0], t.contract[1], name)
        if t.var: s += f'\n  variant {{ {t.var} }}'
        elif not t.allvariants: s += '\n  diverges'
        s += '\n = ' + ('' if self.contracts[name].wp else '[@vc:sp] ') + '(' + t.code + ')' + '\nend\n'
        if re.search(r'\b(pow2|shl|shr|shl_s32|shl_u32)\b', s): s = s.replace('  use prelude.Prelude\n', '  use prelude.Prelude\n  use prelude.Pow\n', 1)
        return s

    def generate(self, work, name, tag=''):
        d = os.path.join(work, name + tag)
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, f'm_{name}.mlw')
        open(f, 'w').write(self.module_text(name))
        return f

PAT = re.compile(r'\(contents\s+\(refqtmk\s+')
def simplify(f):
    """(contents (ref'mk x)) is x: patterns written on program variables must match the terms they speak about
    (and z3 4.8.12 rejects the constructor)"""
    s = open(f).read()
    m = PAT.search(s)
    if not m: return
    out, i = [], 0
    while m:
        out.append(s[i:m.start()])
        j, d = m.end(), 0
        while d >= 0:
            d += {'(': 1, ')': -1}.get(s[j], 0); j += 1
        k = j
        while s[k] != ')': k += 1
        i = m.start()
        s = s[:i] + s[m.end():j - 1] + s[k + 1:]
        m = PAT.search(s, i)
    os.rename(f, f[:-5] + '.o.smt2')
    open(f, 'w').write(''.join(out) + s[i:])

def gen_vcs(mlw, loadpaths, outdir, split='split_vc'):
    res = {}
    for k, drv in (('z', 'z3_487.drv'), ('c', 'cvc5.drv'), ('w', 'why3.drv')):
        o = os.path.join(outdir, k)
        shutil.rmtree(o, ignore_errors=True); os.makedirs(o)
        cmd = [WHY3, 'prove', '--no-stdlib' if False else '-L', loadpaths[0]]
        for l in loadpaths[1:]: cmd += ['-L', l]
        cmd += ['-D', DRV + drv, '-a', split, '-o', o, mlw]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode != 0:
            raise Unsupported('why3: ' + r.stderr.decode()[-1500:])
        fs = os.listdir(o)
        def key(x):
            m = re.match(r'^(.*?)(\d*)\.(smt2|why)$', x)
            return (m.group(1), int(m.group(2) or 0)) if m else (x, 0)
        res[k] = [os.path.join(o, x) for x in sorted(fs, key=key)]
        if k != 'w':
            for x in res[k]: simplify(x)
    if not (len(res['z']) == len(res['c']) == len(res['w'])):
        raise Unsupported('why3: driver outputs differ')
    return res

def expl_of(wfile):
    s = open(wfile, errors='replace').read()
    i = s.rfind('\ngoal ')
    g = s[i:] if i >= 0 else s
    m = [x for x in re.findall(r'\[@expl:([^\]]*)\]', g) if not x.startswith('VC for')]
    return ' '.join((m[0] if m else 'goal').split())

RAW = '''
  use int.EuclideanDivision as RE
  val raw_put (d s n: int) : unit writes { m_uchar }
    ensures { forall i. d <= i < d + 4 * n -> m_uchar[i] = ipart m_int[s + RE.div (i - d) 4] (RE.mod (i - d) 4) }
    ensures { forall i. not (d <= i < d + 4 * n) -> m_uchar[i] = (old m_uchar)[i] }
  val raw_get (d s n: int) : unit writes { m_int }
    ensures { forall i. 0 <= i < n -> ipart m_int[d + i] 0 = m_uchar[s + 4 * i] /\\ ipart m_int[d + i] 1 = m_uchar[s + 4 * i + 1] /\\ ipart m_int[d + i] 2 = m_uchar[s + 4 * i + 2] /\\ ipart m_int[d + i] 3 = m_uchar[s + 4 * i + 3] }
    ensures { forall i. not (d <= i < d + n) -> m_int[i] = (old m_int)[i] }
'''

def gen_safe(pr, work, n, loads, tag=''):
    return gen_vcs(pr.generate(work, n, tag), loads, os.path.join(work, n + tag))

def prove_all2(pr, work, jobs=8, stages=STAGES, only=None, smoke=True, deadline=None, thorough=False):
    """returns (obligations, smoke results, {function: generation error})"""
    loads = [HERE] + sorted({os.path.dirname(t) for t in pr.theories})
    obls, smk, errs = [], [], {}
    names = [s.name for s in pr.specs if not s.trusted and (only is None or s.name in only)]
    os.makedirs(work, exist_ok=True)
    with cf.ThreadPoolExecutor(jobs) as ex:
        futs = {n: ex.submit(gen_safe, pr, work, n, loads) for n in names}
        if only is None:
            for th in list(pr.theories) + [os.path.join(HERE, 'prelude.mlw')]:
                b = os.path.basename(th)[:-4]
                futs['theory ' + b] = ex.submit(gen_vcs, th, loads, os.path.join(work, 'th_' + b))
        for n, f in futs.items():
            try: r = f.result()
            except Unsupported as e: errs[n] = str(e); continue
            for i, (z, c, w) in enumerate(zip(r['z'], r['c'], r['w'])):
                obls.append(Obl(n, i, expl_of(w), z, c))
        bad = []
        lock_stages = stages + ([('z3-new', 120), ('cvc5', 120), ('z3-4.8.12', 120)] if thorough else [])
        def stop(): return (len(bad) >= 3 and not DEV_CACHE) or bool(deadline and time.time() > deadline)
        def go(o):
            discharge(o, lock_stages, stop)
            if o.status != 'proved': bad.append(o)
            return o
        list(ex.map(go, obls))
        if smoke:
            pr2 = Prover(pr.repo, pr.flags, pr.specs, pr.theories)
            pr2.tus, pr2.rename = pr.tus, pr.rename
            pr2.translate(smoke=True)
            fs = {n: ex.submit(gen_safe, pr2, work, n, loads, '_smoke') for n in names if n not in errs}
            sm = []
            for n, f in fs.items():
                try: r = f.result()
                except Unsupported as e: continue
                for i, (z, c, w) in enumerate(zip(r['z'], r['c'], r['w'])):
                    e = expl_of(w)
                    if 'smoke' in e: sm.append(Obl(n, i, e, z, c))
            def gs(o):
                st, dt, out = run_solver('cvc5', o.fc, 1)
                o.status = 'VACUOUS' if st == 'unsat' else 'ok'
                return o
            smk = list(ex.map(gs, sm))
    return obls, smk, errs
