import os
from c2why import Fn, L
TH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'theory')
THEORIES = [os.path.join(TH, 'tleaf.mlw')]
NATIVE = [{'src': 'arch.c', 'budget': 40, 'cflags': ['-DVP_ARCH_TLEAF']}]
AT = 'libscotch/arch_tleaf.c'
S, K, N = 'm_int archptr.sizetab', 'm_int archptr.linktab', 'archptr.levlnbr'
A = [f'sizes {S} {N}', f'{N} >= 1']
SEP = 'dom0ptr <> dom1ptr /\\ dom0ptr <> domnptr /\\ dom1ptr <> domnptr'
def wf(d): return f'0 <= {d}.levlnum <= {N} /\\ {d}.indxmin >= 0 /\\ {d}.indxnbr >= 1'
P = lambda d: f'tprod {S} {d}.levlnum {N}'
prodloop = lambda: L(inv=['domnptr.levlnum <= levlnum <= ' + N, f'sizeval = tprod {S} domnptr.levlnum levlnum'], var=f'{N} - levlnum')
LMIN = '(if dom0ptr.levlnum <= dom1ptr.levlnum then dom0ptr.levlnum else dom1ptr.levlnum)'
LMAX = '(if dom0ptr.levlnum <= dom1ptr.levlnum then dom1ptr.levlnum else dom0ptr.levlnum)'
def up(x): return f'let p{x} = anc {S} dom{x}ptr.indxmin dom{x}ptr.levlnum {LMIN} in let n{x} = (if dom{x}ptr.levlnum = {LMIN} then dom{x}ptr.indxnbr else 1) in '
NEST = '((p0 <= p1 /\\ p0 + n0 >= p1 + n1) \\/ (p1 <= p0 /\\ p0 + n0 <= p1 + n1))'
WF2 = [f'{d}.indxmin + {d}.indxnbr <= tprod {S} 0 {d}.levlnum' for d in ('dom0ptr', 'dom1ptr')]
def climbloop(x, o, dist=True):
    return L(inv=[f'0 <= lev{o}num < lev{x}num <= dom{x}ptr.levlnum', f'0 <= idx{x}min < tprod {S} 0 lev{x}num',
        f'anc {S} idx{x}min lev{x}num lev{o}num = anc {S} dom{x}ptr.indxmin dom{x}ptr.levlnum lev{o}num'] + ([f'distval = links {K} lev{x}num dom{x}ptr.levlnum'] if dist else []),
      begin=[f'divlt idx{x}min (tprod {S} 0 (lev{x}num - 1)) m_int[ix archptr.sizetab (lev{x}num - 1)]'], var=f'lev{x}num')
ENDS = [f'anc_block {S} dom0ptr.indxmin dom0ptr.levlnum 0 {N}', f'anc_block {S} dom1ptr.indxmin dom1ptr.levlnum 0 {N}']
FNS = [
 Fn('archTleafDomNum', AT, requires=A + [wf('domnptr')], ensures=[('number of the first leaf below', f'result = domnptr.indxmin * {P("domnptr")}')], loops={1: prodloop()}),
 Fn('archTleafDomTerm', AT, requires=['domnnum >= 0'], ensures=[('valid number iff below leaf count', 'result = (if domnnum < archptr.termnbr then 0 else 1)'),
   ('terminal is that leaf', f'result = 0 -> domnptr.levlnum = {N} /\\ domnptr.indxmin = domnnum /\\ domnptr.indxnbr = 1')]),
 Fn('archTleafDomSize', AT, requires=A + [wf('domnptr')], ensures=[('number of leaves below', f'result = domnptr.indxnbr * {P("domnptr")}')], loops={1: prodloop()}),
 Fn('archTleafDomDist', AT, requires=A + WF2 + [wf('dom0ptr'), wf('dom1ptr'), f'forall i. 0 <= i < {N} -> m_int[ix archptr.linktab i] >= 0'],
   ensures=[('nested domains', f'{up(0)}{up(1)}{NEST} -> result = qdiv (links {K} {LMIN} {LMAX}) 2'),
            ('disjoint domains: cost up to the lowest common ancestor', f'{up(0)}{up(1)}not {NEST} -> result = links {K} {LMIN} {LMAX} + climb {S} {K} p0 p1 {LMIN}')],
   loops={1: climbloop(0, 1), 2: climbloop(1, 0), 3: L(inv=[f'0 <= lev0num <= {LMIN}', 'idx0min <> idx1min', f'0 <= idx0min < tprod {S} 0 lev0num', f'0 <= idx1min < tprod {S} 0 lev0num',
      f'distval + climb {S} {K} idx0min idx1min lev0num = links {K} {LMIN} {LMAX} + climb {S} {K} (anc {S} dom0ptr.indxmin dom0ptr.levlnum {LMIN}) (anc {S} dom1ptr.indxmin dom1ptr.levlnum {LMIN}) {LMIN}'],
      begin=[f'if lev0num > 0 then (divlt idx0min (tprod {S} 0 (lev0num - 1)) m_int[ix archptr.sizetab (lev0num - 1)]; divlt idx1min (tprod {S} 0 (lev0num - 1)) m_int[ix archptr.sizetab (lev0num - 1)])'], var='lev0num')}),
 Fn('archTleafDomFrst', AT, ensures=[('whole tree', 'result = 0 /\\ domnptr.levlnum = 0 /\\ domnptr.indxmin = 0 /\\ domnptr.indxnbr = 1')]),
 Fn('archTleafDomBipart', AT, requires=A + [SEP, wf('domnptr'), f'forall i [m_int[ix archptr.sizetab i]]. 0 <= i < {N} -> m_int[ix archptr.sizetab i] >= 2'],
   ensures=[('splits iff several leaves', f'result = (if domnptr.indxnbr <= 1 /\\ domnptr.levlnum >= {N} then 1 else 0)'),
            ('halves not empty', 'result = 0 -> dom0ptr.indxnbr >= 1 /\\ dom1ptr.indxnbr >= 1'),
            ('halves balanced', 'result = 0 -> dom1ptr.indxnbr <= dom0ptr.indxnbr <= dom1ptr.indxnbr + 1'),
            ('valid halves', f'result = 0 -> dom0ptr.levlnum = dom1ptr.levlnum /\\ ({wf("dom0ptr")}) /\\ ({wf("dom1ptr")})'),
            ('first half starts at the start', f'result = 0 -> dom0ptr.indxmin * {P("dom0ptr")} = domnptr.indxmin * {P("domnptr")}'),
            ('second half follows the first', f'result = 0 -> dom0ptr.indxmin + dom0ptr.indxnbr = dom1ptr.indxmin'),
            ('second half ends at the end', f'result = 0 -> (dom1ptr.indxmin + dom1ptr.indxnbr) * {P("dom1ptr")} = (domnptr.indxmin + domnptr.indxnbr) * {P("domnptr")}'),
            ('source kept', 'domnptr.levlnum = (old domnptr.levlnum) /\\ domnptr.indxmin = (old domnptr.indxmin) /\\ domnptr.indxnbr = (old domnptr.indxnbr)')],
   begin=[f'if domnptr.levlnum < {N} then (tprod_left {S} domnptr.levlnum {N}; below domnptr.indxmin m_int[ix archptr.sizetab domnptr.levlnum] (tprod {S} (domnptr.levlnum + 1) {N}) (tprod {S} domnptr.levlnum {N}))'],
   rets={2: ['assert { domnptr.indxnbr > 1 -> dom0ptr.indxmin = domnptr.indxmin /\\ dom1ptr.indxmin + dom1ptr.indxnbr = domnptr.indxmin + domnptr.indxnbr }',
             'let ghost zs = m_int[ix archptr.sizetab domnptr.levlnum]', 'assert { domnptr.indxnbr <= 1 -> dom0ptr.indxmin = domnptr.indxmin * zs /\\ dom1ptr.indxmin + dom1ptr.indxnbr = domnptr.indxmin * zs + zs /\\ dom0ptr.levlnum = domnptr.levlnum + 1 /\\ dom1ptr.levlnum = domnptr.levlnum + 1 /\\ domnptr.indxnbr = 1 }', f'let ghost zq = {P("dom1ptr")}', f'assert {{ domnptr.indxnbr <= 1 -> (domnptr.indxmin * zs + zs) * zq = (domnptr.indxmin + 1) * {P("domnptr")} }}', f'assert {{ domnptr.indxnbr > 1 -> zq = {P("domnptr")} }}',
      'let ghost ze = dom1ptr.indxmin + dom1ptr.indxnbr', f'let ghost zf = domnptr.indxmin + domnptr.indxnbr', f'let ghost zp = {P("domnptr")}',
      'if domnptr.indxnbr > 1 then eqmul ze zf zq zp else (assert { zf = domnptr.indxmin + 1 }; eqmul ze (domnptr.indxmin * zs + zs) zq zq)', 'assert { ze * zq = zf * zp }']}),
 Fn('archTleafDomIncl', AT, requires=A + WF2 + [wf('dom0ptr'), wf('dom1ptr')],
   ensures=[('inclusion', f'result <> 0 <-> (dom0ptr.levlnum <= dom1ptr.levlnum /\\ (let q = anc {S} dom1ptr.indxmin dom1ptr.levlnum dom0ptr.levlnum in let n = (if dom1ptr.levlnum = dom0ptr.levlnum then dom1ptr.indxnbr else 1) in dom0ptr.indxmin <= q /\\ q + n <= dom0ptr.indxmin + dom0ptr.indxnbr))')],
   loops={1: climbloop(1, 0, False)}),
 Fn('archLtleafDomNum', AT, requires=A + [wf('domnptr'), 'archptr.permnbr >= 1'], ensures=[('permuted label of the first leaf below', f'let l = domnptr.indxmin * {P("domnptr")} in result = l - gmod l archptr.permnbr + m_int[ix archptr.permtab (gmod l archptr.permnbr)]')], begin=[f'tprod_pos {S} domnptr.levlnum {N} {N}', f'mul_mono 0 domnptr.indxmin (tprod {S} domnptr.levlnum {N})'], loops={1: prodloop()}),
 Fn('archLtleafDomTerm', AT, requires=['domnnum >= 0', 'archptr.permnbr >= 1'], ensures=[('valid label iff below leaf count', 'result = (if domnnum < archptr.termnbr then 0 else 1)'),
   ('terminal is the leaf of that label', f'result = 0 -> domnptr.levlnum = {N} /\\ domnptr.indxnbr = 1 /\\ domnptr.indxmin = domnnum - gmod domnnum archptr.permnbr + m_int[ix archptr.peritab (gmod domnnum archptr.permnbr)]')]),
]
NOTE = 'Proved for all inputs: domain functions of tree-leaf targets. File round trips and construction bounded.'
BOUNDED = ['load/save of architectures and domains (stdio)', 'construction wrappers']
