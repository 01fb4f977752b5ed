"""Scratch build of the library from /repo's working tree and of the executable contracts."""
import os, subprocess, re, threading
import env

class BuildError(Exception): pass
SAN = '-O1 -g -fno-omit-frame-pointer -fsanitize=address'

def sh(cmd, timeout=600, cwd=None):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=cwd)

class Native:
    def __init__(self, repo, d):
        self.repo, self.d, self.gen, self.known = repo, d, d, set()
    def configure(self):
        os.makedirs(self.d, exist_ok=True)
        r = sh(['cmake', '-S', self.repo, '-B', self.d, '-G', 'Ninja', '-DBUILD_PTSCOTCH=OFF', '-DBUILD_SHARED_LIBS=OFF', '-DENABLE_TESTS=OFF',
                '-DBUILD_FORTRAN=OFF', '-DCMAKE_BUILD_TYPE=None', f'-DCMAKE_C_FLAGS={SAN} -w -U_FORTIFY_SOURCE -DSCOTCH_DEBUG_ALL'])
        if r.returncode: raise BuildError(r.stdout.decode())
        r = sh(['ninja', '-C', self.d, 'scotch_h'])
        if r.returncode: raise BuildError(r.stdout.decode())
    def build(self, targets):
        r = sh(['ninja', '-C', self.d] + targets)
        if r.returncode: raise BuildError(r.stdout.decode()[-3000:])
    def harness(self, h):
        src = os.path.join(env.VERIF, 'native', h['src'])
        exe = os.path.join(self.d, 'h_' + h['src'].replace('.c', '') + ''.join(h.get('cflags', [])).replace('-', '_'))
        if exe in self.__dict__.setdefault('built', set()): return exe
        libs = [os.path.join(self.d, 'lib', f'lib{l}.a') for l in h.get('libs', []) + ['scotch']]
        cmd = ['gcc'] + SAN.split() + ['-w'] + env.flags(self.gen) + ['-I' + os.path.join(env.VERIF, 'native')] + h.get('cflags', []) + \
              [src] + [os.path.join(self.repo, x) for x in h.get('extra', [])] + ['-o', exe] + libs + ['-lm', '-lz', '-lbz2', '-llzma', '-lpthread']
        r = sh(cmd)
        if r.returncode: raise BuildError(r.stdout.decode()[-3000:])
        self.built.add(exe)
        return exe
    def run_harnesses(self, spec, seed, thorough):
        hs = spec.NATIVE
        tg = {'scotch'}
        for h in hs: tg |= {t for t in h.get('libs', [])}
        self.build(sorted(tg))
        fails, evals, errs = [], [], []
        lock, hlock = threading.Lock(), threading.Lock()
        def one(h):
            try:
                with hlock: exe = self.harness(h)
            except BuildError as e:
                with lock: errs.append(str(e))
                return
            b = h.get('budget', 60) * (8 if thorough else 1)
            cmd = [exe, '--seed', str(seed), '--budget', str(b)] + (['--thorough'] if thorough else [])
            wd = os.path.join(self.d, 'run_' + h['src'].replace('.c', '') + str(h.get('threads', 1))); os.makedirs(wd, exist_ok=True)
            e = dict(os.environ, SCOTCH_PTHREAD_NUMBER=str(h.get('threads', 1)))
            try:
                r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=b + 240, cwd=wd, env=e)
                out, rc = r.stdout.decode(errors='replace'), r.returncode
            except subprocess.TimeoutExpired as ex:
                out, rc = (ex.stdout or b'').decode(errors='replace') + '\nFAIL no termination of the harness', 1
            m = re.search(r'DONE evaluations=(\d+) nontrivial=(\d+) assertions=(\d+) seconds=([\d.]+)', out)
            s = re.search(r'SAMPLE (.*)', out)
            with lock:
                self.known |= set(re.findall(r'^KNOWN (\S+)', out, re.M))
                if m:
                    evals.append({'harness': h['src'], 'evaluations': int(m.group(1)), 'nontrivial': int(m.group(2)), 'assertions': int(m.group(3)), 'seconds': float(m.group(4)), 'sample': s.group(1)[:800] if s else ''})
                if rc != 0:
                    i = out.find('FAIL ')
                    j = out.find('==ERROR')
                    mm = re.search(r'FAIL section=(.*?) case=(\d+)', out)
                    c = f'{h["src"]} --seed {seed}' + (f' --section "{mm.group(1)}" --case {mm.group(2)}' if mm else '')
                    fails.append({'cmd': c, 'out': (out[max(0, min(x for x in (i, j) if x >= 0) - 200):] if (i >= 0 or j >= 0) else out[-3000:])[:6000]})
        ts = [threading.Thread(target=one, args=(h,)) for h in hs]
        for t in ts: t.start()
        for t in ts: t.join()
        if errs and not fails and not evals: raise BuildError(errs[0])
        if errs: print('note: harness not built:', errs[0][-800:], flush=True)
        return fails, evals
