import os
from c2why import Fn, L
TH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'theory')
THEORIES = [os.path.join(TH, 'grid.mlw')]
NATIVE = [{'src': 'arch.c', 'budget': 40, 'cflags': ['-DVP_ARCH_MESH']}]
AM, AT = 'libscotch/arch_mesh.c', 'libscotch/arch_torus.c'
C = 'f_ArchMeshX_c[archptr]'
D = lambda p: f'f_ArchMeshXDom_c[{p}]'
DI = 'dims %s %s'
SEP = 'dom0ptr <> dom1ptr /\\ dom0ptr <> domptr /\\ dom1ptr <> domptr'
def H(n):
    a = f'(old {D("domptr")}) {D("dom0ptr")} {D("dom1ptr")} {n}'
    return 'halves ' + a if n > '9' else ' \\/ '.join(f'cut {a} {i}' for i in range(int(n)))
def common(x, n, dp, dn):
    S = f'archMesh{x}Dom'
    d = D(dp)
    num = Fn(S + 'Num', AM, requires=[DI % (C, n)], ensures=[('processor number of the lower corner', f'result = radt {C} {d} 0 {n} 0')])
    term = Fn(S + 'Term', AM, requires=[DI % (C, n), f'{dn} >= 0'],
      ensures=[('valid number iff below processor count', f'result = (if {dn} < prod {C} 0 {n} then 0 else 1)'), ('terminal has that number', f'result = 0 -> radt {C} {d} 0 {n} 0 = {dn}'),
               ('terminal is a single processor', f'result = 0 -> isterm {d} {n} /\\ corner {C} {d} {n}')])
    size = Fn(S + 'Size', AM, requires=[f'{n} >= 1'], ensures=[('size is the number of processors', f'result = vol {d} {n}')])
    dist = Fn(S + 'Dist', AM, requires=[f'{n} >= 1'], ensures=[('distance of processors', f'isterm {D("dom0ptr")} {n} -> isterm {D("dom1ptr")} {n} -> result = manh {D("dom0ptr")} {D("dom1ptr")} {n}')])
    bip = Fn(S + 'Bipart', AM, requires=[SEP, DI % (C, n), f'inbox {C} {D("domptr")} {n}'],
      ensures=[('splits iff several processors', f'result = (if isterm (old {D("domptr")}) {n} then 1 else 0)'),
               ('halves partition the domain', 'result = 0 -> ' + H(n)),
               ('source kept', f'{D("domptr")} = (old {D("domptr")})')])
    incl = Fn(S + 'Incl', AM, requires=[f'{n} >= 1'], ensures=[('inclusion', f'result <> 0 <-> forall k. 0 <= k < {n} -> {D("dom0ptr")}[i2 k 2 0] <= {D("dom1ptr")}[i2 k 2 0] /\\ {D("dom1ptr")}[i2 k 2 1] <= {D("dom0ptr")}[i2 k 2 1]')])
    return num, term, size, dist, bip, incl
m2, m3 = common('2', '2', 'domptr', 'domnum'), common('3', '3', 'domptr', 'domnum')
mx = common('X', 'archptr.dimnnbr', 'domnptr', 'domnnum')
num, term, size, dist, bip, incl = mx
N = 'archptr.dimnnbr'
num.loops = {1: L(inv=[f'-1 <= dimnnum <= {N} - 2', f'domnnum = radt {C} {D("domnptr")} (dimnnum + 1) {N} 0'], var='dimnnum + 1')}
term.loops = {1: L(inv=[f'0 <= dimnnum <= {N}', 'domntmp >= 0', f'radt {C} {D("domnptr")} 0 dimnnum domntmp = domnnum', f'isterm {D("domnptr")} dimnnum', f'corner {C} {D("domnptr")} dimnnum'], var=f'{N} - dimnnum')}

D0, D1 = D('dom0ptr'), D('dom1ptr')
DN = D('domnptr')
term.loops[1].begin = ['assert { %s[dimnnum] >= 1 }' % C, f'let ghost f0_ = {DN}', 'let ghost t0_ = domntmp']
term.loops[1].end = [f'radt_frame {C} f0_ {DN} 0 (dimnnum - 1) t0_', f'assert {{ t0_ = {DN}[i2 (dimnnum - 1) 2 0] + {C}[dimnnum - 1] * domntmp }}', f'radt_step {C} {DN} 0 (dimnnum - 1) domntmp']
term.loops[1].after = [f'radt_lin {C} {DN} 0 {N} domntmp', f'radt_range {C} {DN} 0 {N}', f'prod_pos {C} 0 {N}', f'if domntmp >= 1 then mul_mono 1 domntmp (prod {C} 0 {N})']
size.loops = {1: L(inv=[f'0 <= dimnnum <= {N}', f'domnsiz = vol {D("domnptr")} dimnnum'], var=f'{N} - dimnnum')}
dist.loops = {1: L(inv=[f'0 <= dimnnum <= {N}', f'distval = dsum {D0} {D1} dimnnum'], var=f'{N} - dimnnum', after=[f'dsum_term0 {D0} {D1} {N}'])}
incl.loops = {1: L(inv=[f'0 <= dimnnum <= {N}', f'forall k. 0 <= k < dimnnum -> {D0}[i2 k 2 0] <= {D1}[i2 k 2 0] /\\ {D1}[i2 k 2 1] <= {D0}[i2 k 2 1]'], var=f'{N} - dimnnum')}
DP = D('domptr')
bip.loops = {1: L(inv=[f'-1 <= dimnnum <= {N} - 1', f'{DP} = (old {DP})',
   f'forall k [{D0}[i2 k 2 0]]. dimnnum < k < {N} -> {D0}[i2 k 2 0] = {DP}[i2 k 2 0] /\\ {D0}[i2 k 2 1] = {DP}[i2 k 2 1]',
   f'forall k [{D1}[i2 k 2 0]]. dimnnum < k < {N} -> {D1}[i2 k 2 0] = {DP}[i2 k 2 0] /\\ {D1}[i2 k 2 1] = {DP}[i2 k 2 1]',
   f'domndimflg = 0 -> forall k [{DP}[i2 k 2 0]]. dimnnum < k < {N} -> {DP}[i2 k 2 0] = {DP}[i2 k 2 1]', 'domndimflg <> 0 -> domndimsizmax > 0',
   f'0 <= domndimval < {N}', f'dimnnum = {N} - 1 -> domndimsizmax = -1', f'dimnnum < {N} - 1 -> domndimsizmax = {DP}[i2 domndimval 2 1] - {DP}[i2 domndimval 2 0] /\\ dimnnum < domndimval',
   f'forall k [{DP}[i2 k 2 0]]. dimnnum < k < {N} -> {DP}[i2 k 2 1] - {DP}[i2 k 2 0] <= domndimsizmax'], var='dimnnum + 1')}
bip.rets = {2: [f'assert {{ cuts (old {DP}) {D0} {D1} {N} domndimval }}']}
frst = Fn('archMeshXDomFrst', AM, requires=[DI % (C, N)], ensures=[('whole grid', f'result = 0 /\\ forall k [{DP}[i2 k 2 0]]. 0 <= k < {N} -> {DP}[i2 k 2 0] = 0 /\\ {DP}[i2 k 2 1] = {C}[k] - 1')],
   loops={1: L(inv=[f'0 <= dimnnum <= {N}', f'forall k [{DP}[i2 k 2 0]]. 0 <= k < dimnnum -> {DP}[i2 k 2 0] = 0 /\\ {DP}[i2 k 2 1] = {C}[k] - 1'], var=f'{N} - dimnnum')})
def tor(x, n): return Fn(f'archTorus{x}DomDist', AT, requires=[f'{n} >= 1'], ensures=[('distance of processors', f'isterm {D0} {n} -> isterm {D1} {n} -> result = ring {C} {D0} {D1} {n}')])
t2, t3, tx = tor('2', '2'), tor('3', '3'), tor('X', N)
tx.loops = {1: L(inv=[f'0 <= dimnnum <= {N}', f'distval = rsum {C} {D0} {D1} dimnnum'], var=f'{N} - dimnnum', after=[f'rsum_term0 {C} {D0} {D1} {N}'])}
m3[1].rets = {1: [f'gdiv_gdiv domnum ({C}[0]) ({C}[1])', f'assert {{ radt {C} {DP} 2 3 0 = {DP}[i2 2 2 0] }}', f'assert {{ radt {C} {DP} 1 3 0 = {DP}[i2 1 2 0] + {C}[1] * {DP}[i2 2 2 0] }}']}
FNS = list(m2) + list(m3) + list(mx) + [frst, t2, t3, tx]
NOTE = 'Proved for all inputs: domain functions of mesh and torus targets, any dimension count. File round trips and construction bounded.'
BOUNDED = ['load/save of architectures and domains (stdio)', 'construction wrappers']
