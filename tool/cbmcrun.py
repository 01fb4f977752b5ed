"""Enforces CBMC code contracts (goto-instrument --dfcc) on real functions. spec: {'src': file in /verif/cbmc, 'fns': {name: unwind}}.
Loops are unwound completely (unwinding assertions are obligations), so a result is unbounded for the given integer width."""
import os, re, subprocess
import env
from concurrent.futures import ThreadPoolExecutor

def sh(cmd, cwd, timeout):
    try:
        r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return r.returncode, r.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired: return 124, 'timeout'

def run(specs, repo, flags, work):
    return [r for k, s in enumerate(specs) for r in run1(s, repo, flags, os.path.join(work, str(k)))]

def run1(spec, repo, flags, work):
    os.makedirs(work, exist_ok=True)
    src = os.path.join(env.VERIF, 'cbmc', spec['src'])
    goto = os.path.join(work, 'a.goto')
    fl = [f for f in flags if f.startswith(('-I', '-D'))]
    # preprocess with gcc; CBMC's parser loses track after the prototype of usagePrint ("const char (* [])"): that line is dropped
    units, rc, out = [], 0, ''
    for j, x in enumerate([src] + [os.path.join(repo, 'src', 'libscotch', w) for w in spec.get('with', ())]):
        i0, i1 = os.path.join(work, f'a{j}.0.i'), os.path.join(work, f'a{j}.i')
        if rc == 0: rc, out = sh(['gcc', '-E', '-o', i0] + fl + [x], work, 60)
        if rc == 0:
            with open(i1, 'w') as f: f.writelines(l for l in open(i0) if 'usagePrint' not in l)
            units.append(i1)
    if rc == 0: rc, out = sh(['goto-cc', '-o', goto] + units, work, 120)
    if rc: return [{'name': 'cbmc:' + n, 'status': 'error', 'obligations': 0, 'out': out[-2000:]} for n in spec['fns']]
    def one(n):
        u = spec['fns'][n]
        rc, o = sh(['goto-instrument', '--list-goto-functions', goto], work, 60)
        g1 = os.path.join(work, n + '.0.goto')
        sh(['goto-cc', '--function', 'h_' + n, '-o', g1, goto], work, 60)
        m = re.search(r'(\S*\b_?(?:_SCOTCH)?%s)\s*/\*' % n, o)
        real = m.group(1) if m else n
        g2 = os.path.join(work, n + '.goto')
        rc, o = sh(['goto-instrument', '--dfcc', 'h_' + n, '--enforce-contract', real, '--nondet-static', g1, g2], work, 120)
        if rc: return {'name': 'cbmc:' + n, 'status': 'error', 'obligations': 0, 'out': o[-2000:]}
        rc, o = sh(['cbmc', g2, '--unwind', str(u), '--unwinding-assertions', '--signed-overflow-check', '--undefined-shift-check',
                    *([] if spec.get('wraps') else ['--conversion-check']), *(['--' + spec['smt']] if spec.get('smt') else []), '--pointer-check', '--bounds-check', '--div-by-zero-check', '--trace', '--no-standard-checks'], work, 500)
        k = re.search(r'\*\* (\d+) of (\d+) failed', o)
        if rc == 0: return {'name': 'cbmc:' + n, 'status': 'proved', 'obligations': int(k.group(2)) if k else 1, 'out': ''}
        if rc == 10:
            i = o.find('** Results'); fl = [l for l in o.splitlines() if l.endswith('FAILURE')]
            tr = o.find('Trace for')
            return {'name': 'cbmc:' + n, 'status': 'failed', 'obligations': int(k.group(2)) if k else 1, 'failed': fl, 'out': '\n'.join(fl[:10]) + '\n' + o[tr:tr + 3000]}
        return {'name': 'cbmc:' + n, 'status': 'error', 'obligations': 0, 'out': o[-2000:]}
    with ThreadPoolExecutor(8) as ex: return list(ex.map(one, spec['fns']))

if __name__ == '__main__':
    import sys, importlib
    sys.path.insert(0, os.path.join(env.VERIF, 'specs'))
    for r in run(importlib.import_module(sys.argv[1]).CBMC, env.REPO, env.flags('/repo/_build'), '/tmp/cb'): print(r['name'], r['status'], r['obligations'], r['out'][-700:] if r['status'] == 'error' else r['out'][:600])
