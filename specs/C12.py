import os
from c2why import Fn, L
TH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'theory')
THEORIES = [os.path.join(TH, 'sums.mlw'), os.path.join(TH, 'vgraph.mlw'), os.path.join(TH, 'stat.mlw')]
NATIVE = [{'src': 'gdata.c', 'budget': 40}]
F = 'libscotch/library_graph.c'
G = '(if band m_uint[grafptr] 16384 <> 0 then f_ContextContainer_dataptr[grafptr] else grafptr)'
g = lambda x, m='': f'{m}f_Graph_{x}[{G}]'
OM = '(old m_int)'
B = 'baseval'; N = '(baseval + vertnbr)'
VT, VD, ET = '(verttab - baseval)', '(if vendtab = 0 || vendtab = verttab then verttab - baseval + 1 else vendtab - baseval)', '(edgetab - baseval)'
OPT = lambda a, b: f'(if {a} = 0 || {a} = {b} then 0 else {a} - baseval)'
VL, LB, EL = OPT('velotab', 'verttab'), OPT('vlbltab', 'verttab'), OPT('edlotab', 'edgetab')
S = 'srcgrafptr'
SVT, SVD, SVL, SEL, SB, SN = (f'{S}.{x}' for x in ('verttax', 'vendtax', 'velotax', 'edlotax', 'baseval', 'vertnnd'))
DEG = lambda v, vt, vd: f'(m_int[ix {vd} {v}] - m_int[ix {vt} {v}])'
def DMAX(d, hi, vt=SVT, vd=SVD, lo=SB): return [f'forall v [m_int[ix {vd} v]]. {lo} <= v < {hi} -> {DEG("v", vt, vd)} <= {d}', f'{d} = 0 \\/ dreach m_int {vt} {vd} {lo} {hi} {d}', f'{d} >= 0']
FIELDS = [f'{SB} = baseval', f'{S}.vertnbr = vertnbr', f'{SN} = {N}']
# array minima and maxima over a range, sums
OUT = [f'{p} <> 0' for p in ()]
O = ['velominptr', 'velomaxptr', 'velosumptr', 'degrminptr', 'degrmaxptr', 'edlominptr', 'edlomaxptr', 'edlosumptr']
def DIFF(ps): return [f'{p} <> {q} \\/ {p} = 0' for i, p in enumerate(ps) for q in ps[i+1:]]
gB, gN, gVT, gVD, gVL, gEL = (g(x) for x in ('baseval', 'vertnnd', 'verttax', 'vendtax', 'velotax', 'edlotax'))
APART = [f'forall v [m_int[ix {gVT} v]]. {gB} <= v < {gN} -> ' + ' /\\ '.join(f'ix {a} v <> {p}' for a in (gVT, gVD) for p in O),
  f'forall v [m_int[ix {gVL} v]]. {gB} <= v < {gN} -> ' + ' /\\ '.join(f'ix {gVL} v <> {p}' for p in O),
  f'forall v e [m_int[ix {gVT} v], m_int[ix {gEL} e]]. {gB} <= v < {gN} -> m_int[ix {gVT} v] <= e < m_int[ix {gVD} v] -> ' + ' /\\ '.join(f'ix {gEL} e <> {p}' for p in O)]
P = lambda p, v: f'({p} <> 0 -> m_int[{p}] = {v})'
H = '(old m_int)'
ITER = lambda lo, hi: [f'{lo} <= vertnum <= {hi}']
FRM = [f'forall a [m_int[a]]. ' + ' -> '.join(f'a <> {p}' for p in O) + f' -> m_int[a] = {OM}[a]']
GM = 2147483647
def MM(mn, mx, get, rng, reach): return [f'forall {rng} -> {mn} <= {get} <= {mx}', f'{mn} = {GM} \\/ {reach(mn)}', f'{mx} = 0 \\/ {reach(mx)}']
def VMM(hi, m='m_int', t=SVL, lo=SB, mn='velomin', mx='velomax'): return MM(mn, mx, f'{m}[ix {t} v]', f'v [{m}[ix {t} v]]. {lo} <= v < {hi}', lambda d: f'vreach {m} {t} {lo} {hi} {d}')
def DMM(hi, m='m_int', vt=SVT, vd=SVD, lo=SB, mn='degrmin', mx='degrmax'): return MM(mn, mx, f'({m}[ix {vd} v] - {m}[ix {vt} v])', f'v [{m}[ix {vd} v]]. {lo} <= v < {hi}', lambda d: f'dreach {m} {vt} {vd} {lo} {hi} {d}')
def EMM(hi, z, m='m_int', vt=SVT, vd=SVD, lt=SEL, lo=SB, mn='edlomin', mx='edlomax'):
    return MM(mn, mx, f'{m}[ix {lt} e]', f'v e [{m}[ix {vt} v], {m}[ix {lt} e]]. {lo} <= v <= {hi} -> {m}[ix {vt} v] <= e < (if v = {hi} then {z} else {m}[ix {vd} v])', lambda d: f'ereach {m} {vt} {vd} {lt} {lo} {hi} {z} {d}')
LIM = [f'forall v [m_int[ix {gVL} v]]. {gB} <= v < {gN} -> 0 <= m_int[ix {gVL} v] <= {GM}', f'forall v [m_int[ix {gVD} v]]. {gB} <= v < {gN} -> 0 <= m_int[ix {gVD} v] - m_int[ix {gVT} v] <= {GM}',
  f'forall v e [m_int[ix {gVT} v], m_int[ix {gEL} e]]. {gB} <= v < {gN} -> m_int[ix {gVT} v] <= e < m_int[ix {gVD} v] -> 0 <= m_int[ix {gEL} e] <= {GM}']
both = lambda c, f: f'velominptr'
def TWO(tag, l): return [(f'{tag} bounds', l[0]), (f'smallest {tag} reached', l[1].split(' \\/ ', 1)[1]), (f'largest {tag} reached', l[2].split(' \\/ ', 1)[1])]
def POST(tag, cond, p, q, mk):
    l = mk(f'm_int[{p}]', f'm_int[{q}]')
    return [(n, f'{p} <> 0 -> {q} <> 0 -> {cond} -> {e}') for n, e in TWO(tag, l)]
STAT = POST('vertex load', f'{gB} < {gN} -> {gVL} <> 0', 'velominptr', 'velomaxptr', lambda a, b: VMM(gN, OM, gVL, gB, a, b))
STAT += [('unit vertex loads', f'{p} <> 0 -> {gVL} = 0 -> m_int[{p}] = (if {gB} < {gN} then 1 else 0)') for p in O[:2]] + [('vertex load sum', P('velosumptr', g('velosum')))]
STAT += POST('degree', f'{gB} < {gN}', 'degrminptr', 'degrmaxptr', lambda a, b: DMM(gN, OM, gVT, gVD, gB, a, b))
STAT += [('edge load bounds', f'edlominptr <> 0 -> edlomaxptr <> 0 -> {g("edgenbr")} > 0 -> {gEL} <> 0 -> ' + EMM(gN, f'{OM}[ix {gVT} {gN}]', OM, gVT, gVD, gEL, gB, 'm_int[edlominptr]', 'm_int[edlomaxptr]')[0].replace(f'<= v <= {gN}', f'<= v < {gN}')),
  ('unit edge loads', ' /\\ '.join(f'({p} <> 0 -> {gEL} = 0 -> m_int[{p}] = (if {g("edgenbr")} > 0 then 1 else 0))' for p in O[5:7])),
  ('edge load sum', f'edlosumptr <> 0 -> {g("edgenbr")} > 0 -> {gEL} <> 0 -> m_int[edlosumptr] = arcs {OM} {gVT} {gVD} {gEL} {gB} {gN}')]
STAT += [('smallest edge load reached', f'edlominptr <> 0 -> {g("edgenbr")} > 0 -> {gEL} <> 0 -> ereach {OM} {gVT} {gVD} {gEL} {gB} {gN} {OM}[ix {gVT} {gN}] m_int[edlominptr] \\/ m_int[edlominptr] = {GM}'),
  ('largest edge load reached', f'edlomaxptr <> 0 -> {g("edgenbr")} > 0 -> {gEL} <> 0 -> ereach {OM} {gVT} {gVD} {gEL} {gB} {gN} {OM}[ix {gVT} {gN}] m_int[edlomaxptr] \\/ m_int[edlomaxptr] = 0')]
RDV = [f'assert {{ m_int[ix {SVT} vertnum] = {OM}[ix {SVT} vertnum] /\\ m_int[ix {SVD} vertnum] = {OM}[ix {SVD} vertnum] }}']
WIT = lambda n, w: [f'assert {{ {SB} < {SN} -> {n}min <= {w} <= {n}max /\\ 0 <= {w} <= {GM} }}', f'assert {{ {SB} < {SN} -> ({n}min = {GM} -> {n}min = {w}) /\\ ({n}max = 0 -> {n}max = {w}) }}']
FNS = [
 Fn('SCOTCH_graphBuild', F, mode='ideal', requires=['vertnbr >= 0'],
  ensures=[('returns zero', 'result = 0'), ('numbers', f'{g("baseval")} = baseval /\\ {g("vertnbr")} = vertnbr /\\ {g("vertnnd")} = {N} /\\ {g("edgenbr")} = edgenbr'),
   ('arrays', f'{g("verttax")} = {VT} /\\ {g("vendtax")} = {VD} /\\ {g("edgetax")} = {ET}'), ('optional arrays', f'{g("velotax")} = {VL} /\\ {g("vlbltax")} = {LB} /\\ {g("edlotax")} = {EL} /\\ {g("vnumtax")} = 0'),
   ('vertex load sum', f'{g("velosum")} = (if {VL} = 0 then vertnbr else psum m_int {VL} baseval {N})'),
   ('edge load sum', f'{g("edlosum")} = (if {EL} = 0 then edgenbr else arcs m_int {VT} {VD} {EL} baseval {N})')]
   + list(zip(['degrees below the maximum', 'maximum degree reached', 'maximum degree not negative'], DMAX(g('degrmax'), N, VT, VD, 'baseval')))
   + [('user arrays unchanged', 'm_int = (old m_int)')],
  loops={1: L(inv=ITER(SB, SN) + [f'velosum = psum m_int {SVL} {SB} vertnum'], var=f'{SN} - vertnum'),
   2: L(inv=ITER(SB, SN) + DMAX('degrmax', 'vertnum'), var=f'{SN} - vertnum', end=[]),
   3: L(inv=ITER(SB, SN) + DMAX('degrmax', 'vertnum') + [f'edlosum = arcs m_int {SVT} {SVD} {SEL} {SB} vertnum'], var=f'{SN} - vertnum'),
   4: L(inv=[f'edlosum = arcs m_int {SVT} {SVD} {SEL} {SB} vertnum + psum m_int {SEL} m_int[ix {SVT} vertnum] edgenum', f'm_int[ix {SVT} vertnum] <= edgenum', f'edgenum <= m_int[ix {SVD} vertnum] \\/ edgenum = m_int[ix {SVT} vertnum]'], var=f'm_int[ix {SVD} vertnum] - edgenum')}),
 Fn('SCOTCH_graphSize', F, requires=['vertnbr <> edgenbr'], ensures=[('vertices', f'vertnbr <> 0 -> m_int[vertnbr] = {g("vertnbr")}'), ('arcs', f'edgenbr <> 0 -> m_int[edgenbr] = {g("edgenbr")}')]),
 Fn('SCOTCH_graphData', F, requires=DIFF(['baseptr', 'vertptr', 'edgeptr']) + DIFF(['verttab', 'vendtab', 'velotab', 'vlbltab', 'edgetab', 'edlotab']),
  ensures=[(n, f'{p} <> 0 -> {m}[{p}] = {v}') for n, p, m, v in (('base', 'baseptr', 'm_int', g('baseval')), ('vertices', 'vertptr', 'm_int', g('vertnbr')), ('arcs', 'edgeptr', 'm_int', g('edgenbr')),
   ('vertex array', 'verttab', 'm_p_int', f'{g("verttax")} + {g("baseval")}'), ('vertex end array', 'vendtab', 'm_p_int', f'{g("vendtax")} + {g("baseval")}'), ('edge array', 'edgetab', 'm_p_int', f'{g("edgetax")} + {g("baseval")}'))] +
   [(n, f'{p} <> 0 -> m_p_int[{p}] = (if {g(f)} <> 0 then {g(f)} + {g("baseval")} else 0)') for n, p, f in (('vertex loads', 'velotab', 'velotax'), ('labels', 'vlbltab', 'vlbltax'), ('edge loads', 'edlotab', 'edlotax'))]),

 Fn('SCOTCH_graphStat', F, mode='ideal', requires=[f'{gB} <= {gN}', f'{g("edgenbr")} >= 0'] + LIM + DIFF(O) + APART,
  ensures=[(n, e) for n, e in STAT] + [('graph unchanged', FRM[0])],
  loops={1: L(inv=ITER(SB, SN) + VMM('vertnum', OM) + FRM, var=f'{SN} - vertnum', begin=[f'assert {{ m_int[ix {SVL} vertnum] = {OM}[ix {SVL} vertnum] }}'], after=WIT('velo', f'{OM}[ix {SVL} {SB}]')),
   2: L(inv=ITER(SB, SN) + DMM('vertnum', OM) + FRM, var=f'{SN} - vertnum', begin=RDV, after=WIT('degr', f'({OM}[ix {SVD} {SB}] - {OM}[ix {SVT} {SB}])')),
   3: L(inv=ITER(SB, SN) + EMM('vertnum', f'{OM}[ix {SVT} vertnum]', OM) + [f'edlosum = arcs {OM} {SVT} {SVD} {SEL} {SB} vertnum'], var=f'{SN} - vertnum', begin=RDV),
   4: L(inv=[f'm_int[ix {SVT} vertnum] <= edgenum', f'edgenum <= m_int[ix {SVD} vertnum] \\/ edgenum = m_int[ix {SVT} vertnum]'] + EMM('vertnum', 'edgenum', OM) + [f'edlosum = arcs {OM} {SVT} {SVD} {SEL} {SB} vertnum + psum {OM} {SEL} {OM}[ix {SVT} vertnum] edgenum'], var=f'm_int[ix {SVD} vertnum] - edgenum', begin=[f'assert {{ m_int[ix {SEL} edgenum] = {OM}[ix {SEL} edgenum] }}']),
   5: L(inv=[], var=f'{SN} - vertnum'), 6: L(inv=[], var=f'm_int[ix {SVD} vertnum] - edgenum')}),
]
BOUNDED = ['averages and deviations (floating point)', 'graphDiamPV and its Fibonacci heap']
NOTE = 'Proved for all inputs: SCOTCH_graphBuild, SCOTCH_graphSize, SCOTCH_graphData and the integer results of SCOTCH_graphStat. Averages, deviations and the pseudo-diameter are executed on bounded cases against an independent oracle.'
