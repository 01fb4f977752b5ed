import os
from c2why import Fn, L
TH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'theory')
THEORIES = [os.path.join(TH, 'sums.mlw')]
NATIVE = [{'src': 'arch.c', 'budget': 40, 'cflags': ['-DVP_ARCH_CMPLT']}]
CM, CW, VC = 'libscotch/arch_cmplt.c', 'libscotch/arch_cmpltw.c', 'libscotch/arch_vcmplt.c'
SEP = 'dom0ptr <> dom1ptr /\\ dom0ptr <> domnptr /\\ dom1ptr <> domnptr'
W = 'psum f_ArchCmpltwLoad_veloval archptr.velotab'
FNS = [
 Fn('archCmpltDomNum', CM, mode='checked', ensures=[('label is first terminal', 'result = domnptr.termmin')]),
 Fn('archCmpltDomTerm', CM, mode='checked', requires=['domnnum >= 0'],
    ensures=[('valid label iff below terminal count', 'result = (if domnnum < archptr.termnbr then 0 else 1)'),
             ('terminal domain', 'result = 0 -> domnptr.termmin = domnnum /\\ domnptr.termnbr = 1')]),
 Fn('archCmpltDomSize', CM, mode='checked', ensures=[('size', 'result = domnptr.termnbr')]),
 Fn('archCmpltDomDist', CM, mode='checked', ensures=[('distance', 'result = (if dom0ptr.termmin = dom1ptr.termmin /\\ dom0ptr.termnbr = dom1ptr.termnbr then 0 else 1)')]),
 Fn('archCmpltDomFrst', CM, mode='checked', ensures=[('whole', 'result = 0 /\\ domnptr.termmin = 0 /\\ domnptr.termnbr = archptr.termnbr')]),
 Fn('archCmpltDomBipart', CM, mode='checked', requires=[SEP, '0 <= domnptr.termmin /\\ domnptr.termmin + domnptr.termnbr <= 2147483647', 'domnptr.termnbr >= 1'],
    ensures=[('splits iff more than one terminal', 'result = (if domnptr.termnbr > 1 then 0 else 1)'),
             ('halves partition the domain', 'result = 0 -> dom0ptr.termmin = domnptr.termmin /\\ dom1ptr.termmin = dom0ptr.termmin + dom0ptr.termnbr /\\ dom0ptr.termnbr + dom1ptr.termnbr = domnptr.termnbr'),
             ('halves not empty', 'result = 0 -> dom0ptr.termnbr >= 1 /\\ dom1ptr.termnbr >= 1'),
             ('halves balanced', 'result = 0 -> dom1ptr.termnbr - 1 <= dom0ptr.termnbr <= dom1ptr.termnbr'),
             ('source kept', 'domnptr.termmin = (old domnptr.termmin) /\\ domnptr.termnbr = (old domnptr.termnbr)')]),
 Fn('archCmpltDomIncl', CM, mode='checked',
    requires=['dom0ptr.termmin >= 0 /\\ dom0ptr.termmin + dom0ptr.termnbr <= 2147483647 /\\ dom0ptr.termnbr >= 1', 'dom1ptr.termmin >= 0 /\\ dom1ptr.termmin + dom1ptr.termnbr <= 2147483647 /\\ dom1ptr.termnbr >= 1'],
    ensures=[('inclusion of terminal sets', 'result <> 0 <-> (forall t. dom1ptr.termmin <= t < dom1ptr.termmin + dom1ptr.termnbr -> dom0ptr.termmin <= t < dom0ptr.termmin + dom0ptr.termnbr)')]),
 Fn('archCmpltMatchMate', CM, requires=['matcptr.vertnbr >= 0', 'matcptr.passnum = 0'],
    ensures=[('end of matching', '(result < 0) <-> (old matcptr.vertnbr) <= 1'),
             ('coarse count', '(old matcptr.vertnbr) > 1 -> 2 * result = (old matcptr.vertnbr) + emod (old matcptr.vertnbr) 2 /\\ matcptr.vertnbr = result'),
             ('every fine vertex in exactly one multinode', '''(old matcptr.vertnbr) > 1 -> forall c. 0 <= c < result ->
    let d = (if emod (old matcptr.vertnbr) 2 = 1 /\\ (old matcptr.passnum) = 1 then 1 else 0) in
    f_ArchCoarsenMulti_vertnum[ix matcptr.multtab c][0] = (if c = 0 then 0 else 2 * c - d) /\\
    f_ArchCoarsenMulti_vertnum[ix matcptr.multtab c][1] = (if c = 0 then 1 - d else if 2 * c - d + 1 < (old matcptr.vertnbr) then 2 * c - d + 1 else 2 * c - d)'''),
             ('result array', '(old matcptr.vertnbr) > 1 -> m_p_ArchCoarsenMulti[multptr] = matcptr.multtab'),
             ('pass flag', 'matcptr.passnum = 0')],
    loops={1: L(inv=['0 <= coarvertnum <= coarvertmax', 'coarvertmax = half finevertnbr', 'coarmulttab = matcptr.multtab',
                     'finevertnum = 2 * coarvertnum - (if emod finevertnbr 2 = 1 /\\ passnum = 1 then 1 else 0)',
                     'emod finevertnbr 2 = 1 /\\ passnum = 1 -> coarvertnum >= 1',
                     '''forall c. 0 <= c < coarvertnum ->
    let d = (if emod finevertnbr 2 = 1 /\\ passnum = 1 then 1 else 0) in
    f_ArchCoarsenMulti_vertnum[ix coarmulttab c][0] = (if c = 0 then 0 else 2 * c - d) /\\
    f_ArchCoarsenMulti_vertnum[ix coarmulttab c][1] = (if c = 0 then 1 - d else 2 * c - d + 1)'''], var='coarvertmax - coarvertnum', after=['assert { half (finevertnbr + 1) = coarvertmax + emod finevertnbr 2 }', 'assert { finevertnbr = 2 * coarvertmax + emod finevertnbr 2 }'])}),
 # weighted complete graph: the weight of a domain is the sum of the weights of its vertices
 Fn('archCmpltwDomNum', CW, ensures=[('label', 'result = f_ArchCmpltwLoad_vertnum[ix archptr.velotab domnptr.vertmin]')]),
 Fn('archCmpltwDomTerm', CW, requires=['domnnum >= 0', 'forall v [has f_ArchCmpltwLoad_vertnum archptr.velotab archptr.vertnbr v]. 0 <= v < archptr.vertnbr -> has f_ArchCmpltwLoad_vertnum archptr.velotab archptr.vertnbr v'],
    ensures=[('valid label iff below terminal count', 'result = (if domnnum < archptr.vertnbr then 0 else 1)'),
             ('terminal domain', 'result = 0 -> 0 <= domnptr.vertmin < archptr.vertnbr /\\ f_ArchCmpltwLoad_vertnum[ix archptr.velotab domnptr.vertmin] = domnnum /\\ domnptr.vertnbr = 1'),
             ('terminal weight', 'result = 0 -> domnptr.veloval = f_ArchCmpltwLoad_veloval[ix archptr.velotab domnptr.vertmin]')],
    begin=['assert { domnnum < archptr.vertnbr -> has f_ArchCmpltwLoad_vertnum archptr.velotab archptr.vertnbr domnnum }'],
    loops={1: L(inv=['0 <= vertnum <= archptr.vertnbr', 'forall i. 0 <= i < vertnum -> f_ArchCmpltwLoad_vertnum[ix archptr.velotab i] <> domnnum'], var='archptr.vertnbr - vertnum')}),
 Fn('archCmpltwDomSize', CW, ensures=[('size', 'result = domnptr.vertnbr')]),
 Fn('archCmpltwDomWght', CW, ensures=[('weight', 'result = domnptr.veloval')]),
 Fn('archCmpltwDomDist', CW, ensures=[('distance', 'result = (if dom0ptr.vertmin = dom1ptr.vertmin /\\ dom0ptr.vertnbr = dom1ptr.vertnbr then 0 else 1)')]),
 Fn('archCmpltwDomFrst', CW, requires=[f'archptr.velosum = {W} 0 archptr.vertnbr'],
    ensures=[('whole', 'result = 0 /\\ domnptr.vertmin = 0 /\\ domnptr.vertnbr = archptr.vertnbr'), ('weight of the whole', f'domnptr.veloval = {W} 0 archptr.vertnbr')]),
 Fn('archCmpltwDomBipart', CW, requires=[SEP, 'domnptr.vertmin >= 0', f'domnptr.veloval = {W} domnptr.vertmin (domnptr.vertmin + domnptr.vertnbr)'],
    ensures=[('splits iff more than one vertex', 'result = (if domnptr.vertnbr > 1 then 0 else 1)'),
             ('parts partition the domain', 'result = 0 -> dom0ptr.vertmin = domnptr.vertmin /\\ dom1ptr.vertmin = dom0ptr.vertmin + dom0ptr.vertnbr /\\ dom0ptr.vertnbr + dom1ptr.vertnbr = domnptr.vertnbr'),
             ('parts not empty', 'result = 0 -> dom0ptr.vertnbr >= 1 /\\ dom1ptr.vertnbr >= 1'),
             ('weight of part 0', f'result = 0 -> dom0ptr.veloval = {W} dom0ptr.vertmin (dom0ptr.vertmin + dom0ptr.vertnbr)'),
             ('weight of part 1', f'result = 0 -> dom1ptr.veloval = {W} dom1ptr.vertmin (dom1ptr.vertmin + dom1ptr.vertnbr)'),
             ('source kept', 'domnptr.vertmin = (old domnptr.vertmin) /\\ domnptr.vertnbr = (old domnptr.vertnbr) /\\ domnptr.veloval = (old domnptr.veloval)')],
    loops={1: L(inv=['domnptr.vertmin <= vertnum <= domnptr.vertmin + domnptr.vertnbr - 2', f'velosum1 = {W} (vertnum + 1) (domnptr.vertmin + domnptr.vertnbr)'], var='vertnum')}),
 Fn('archCmpltwDomIncl', CW, requires=['dom0ptr.vertnbr >= 1', 'dom1ptr.vertnbr >= 1'],
    ensures=[('inclusion of vertex sets', 'result <> 0 <-> (forall t. dom1ptr.vertmin <= t < dom1ptr.vertmin + dom1ptr.vertnbr -> dom0ptr.vertmin <= t < dom0ptr.vertmin + dom0ptr.vertnbr)')]),
 # variable-sized complete graph: heap-numbered binary tree
 Fn('archVcmpltDomNum', VC, ensures=[('label', 'result = domptr.termnum')]),
 Fn('archVcmpltDomTerm', VC, requires=['domnum >= 1'],
    ensures=[('status', 'result = 0'), ('terminal', 'result = 0 -> domptr.termnum = domnum'),
             ('level', 'result = 0 -> domptr.termlvl >= 0 /\\ pow2 domptr.termlvl <= domptr.termnum < 2 * pow2 domptr.termlvl')],
    loops={1: L(inv=['termlvl >= 0', 'termnum >= 1', 'termnum * pow2 termlvl <= domnum < (termnum + 1) * pow2 termlvl'], var='termnum', begin=['assert { pow2 (termlvl + 1) = 2 * pow2 termlvl }', 'mul_mono (2 * half termnum) termnum (pow2 termlvl)', 'mul_mono (termnum + 1) (2 * half termnum + 2) (pow2 termlvl)', 'assert { half termnum * pow2 (termlvl + 1) = (2 * half termnum) * pow2 termlvl }', 'assert { (half termnum + 1) * pow2 (termlvl + 1) = (2 * half termnum + 2) * pow2 termlvl }'])}),
 Fn('archVcmpltDomSize', VC, ensures=[('size', 'result = 1')]),
 Fn('archVcmpltDomDist', VC, ensures=[('distance', 'result = (if dom0ptr.termnum = dom1ptr.termnum then 0 else 1)')]),
 Fn('archVcmpltDomFrst', VC, ensures=[('whole', 'result = 0 /\\ domptr.termlvl = 0 /\\ domptr.termnum = 1')]),
 Fn('archVcmpltDomBipart', VC, mode='checked', requires=['dom0ptr <> dom1ptr /\\ dom0ptr <> domptr /\\ dom1ptr <> domptr', '1 <= domptr.termnum <= 1073741822', '0 <= domptr.termlvl <= 31', 'pow2 domptr.termlvl <= domptr.termnum < 2 * pow2 domptr.termlvl'],
    begin=['assert { pow2 (domptr.termlvl + 1) = 2 * pow2 domptr.termlvl }'],
    ensures=[('splits', 'result = 0'), ('children', 'dom0ptr.termnum = 2 * domptr.termnum /\\ dom1ptr.termnum = 2 * domptr.termnum + 1'),
             ('child level', 'dom0ptr.termlvl = domptr.termlvl + 1 /\\ dom1ptr.termlvl = domptr.termlvl + 1'),
             ('children well formed', 'pow2 dom0ptr.termlvl <= dom0ptr.termnum /\\ dom1ptr.termnum < 2 * pow2 dom1ptr.termlvl')]),
 Fn('archVcmpltDomIncl', VC, ensures=[('ancestor', 'result <> 0 <-> (dom1ptr.termlvl >= dom0ptr.termlvl /\\ gdiv dom1ptr.termnum (pow2 (dom1ptr.termlvl - dom0ptr.termlvl)) = dom0ptr.termnum)')]),
]
BOUNDED = ['archCmpltwArchBuild and its recursive reordering', 'load/save of architectures and domains (stdio)', 'archCmpltMatchInit']
NOTE = 'Proved for all inputs: domain functions of the complete targets.'
