import os
from c2why import Fn, L
TH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'theory')
CBMC = [{'src': 'rand.c', 'wraps': True, 'fns': {n: 4 for n in 'intRandVal3 intRandVal2 intRandProc intRandReset intRandSeed intRandSpawn intRandInit intRandVal'.split()}},
        {'src': 'values.c', 'with': ['common_values.c'], 'fns': {n: 30 for n in 'vp_options'.split()}}]
THEORIES = [os.path.join(TH, 'perm.mlw'), os.path.join(TH, 'gcdz.mlw')]
CI = 'libscotch/common_integer.c'
OM = '(old m_int)'
FNS = [
 Fn('intAscn', CI, ensures=[('ascending values', 'forall i [m_int[ix permtab i]]. 0 <= i < permnbr -> m_int[ix permtab i] = baseval + i'), ('nothing else written', f'forall a [m_int[a]]. not (permtab <= a < permtab + permnbr) -> m_int[a] = {OM}[a]')],
   loops={1: L(['permnnd = baseval + permnbr', 'permtax = permtab - baseval', 'baseval <= permnum', 'permnum <= permnnd \\/ permnbr < 0', 'forall i [m_int[ix permtab i]]. 0 <= i < permnum - baseval -> m_int[ix permtab i] = baseval + i', f'forall a [m_int[a]]. not (permtab <= a < permtab + permnbr) -> m_int[a] = {OM}[a]'], 'permnnd - permnum')}),
 # enforced with CBMC on the real function (cbmc/rand.c)
 Fn('intRandVal', CI, trusted=True, pnames=['contptr', 'randmax'], ensures=['randmax > 0 -> 0 <= result < randmax']),
 Fn('intPerm', CI, requires=['permnbr >= 0'], ensures=[('a rearrangement of the given entries', 'rearranged (old m_int) m_int permtab permnbr'), ('nothing else written', f'forall a [m_int[a]]. not (permtab <= a < permtab + permnbr) -> m_int[a] = {OM}[a]')],
   begin=['let ghost m0 = m_int', 'same m_int permtab permnbr'],
   loops={1: L(['0 <= permrmn <= permnbr', 'permptr = permtab + (permnbr - permrmn)', 'rearranged m0 m_int permtab permnbr', f'forall a [m_int[a]]. not (permtab <= a < permtab + permnbr) -> m_int[a] = {OM}[a]'], 'permrmn',
      begin=['let ghost mi = m_int', 'let ghost k0 = permnbr - permrmn'],
      end=[])}),
]
FNS += [
 Fn('intGcd', CI, requires=['u >= 0', 'v >= 0'], ensures=[('greatest common divisor', 'result = gcdz (old u) (old v)'), ('nothing is written', f'm_int = {OM}')],
   begin=['let ghost u0 = u', 'let ghost v0 = v'],
   loops={1: L(['u >= 0', 'v >= 0', 'gcdz u v = gcdz u0 v0'], 'v', begin=['let ghost ul = u', 'let ghost vl = v'], end=['assert { u = vl /\\ v = ul - vl * qgdiv ul vl }', 'assert { gcdz vl (ul - vl * qgdiv ul vl) = gcdz ul vl }'])}),
]
NATIVE = [{'src': 'rand.c', 'budget': 60}]
BOUNDED = ['intSort1asc1, intSort2asc1, intSort2asc2, intSort3asc1, intSort3asc2, intPsort2asc1 (byte pointers, not translated)', 'intRandSave, intRandLoad', 'contextRandomClone, contextInit, SCOTCH_contextOptionParse']
ASSUME = ['intRandVal in the proof of intPerm: its contract, enforced on the real function by CBMC', 'CBMC checks of one call from any state: the state machine of the generator is deterministic because each function writes a function of its arguments and the state only']
NOTE = 'intAscn, intPerm, intGcd proved with Why3; the random generator and the option tables enforced with CBMC on the real functions, for every state; sorts, saving, cloning and parsing are executed on bounded cases.'
