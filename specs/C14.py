import os
from c2why import Fn, L
TH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'theory')
THEORIES = [os.path.join(TH, 'sums.mlw'), os.path.join(TH, 'bimesh.mlw'), os.path.join(TH, 'stat.mlw')]
OM = '(old m_int)'
M = lambda x: f'meshptr.{x}'
VT, VD, ET, B = M('verttax'), M('vendtax'), M('edgetax'), M('baseval')
NN = f'({M("velmnbr")} + {M("vnodnbr")} + {B})'
EB, EN, NB, ND = M('velmbas'), M('velmnnd'), M('vnodbas'), M('vnodnnd')
OKV = lambda lo, hi, v: f'mvertok m_int {VT} {VD} {ET} {B} {NN} {lo} {hi} {v}'
OKA = lambda lo, hi, v, e: f'marcok m_int {VT} {VD} {ET} {B} {NN} {lo} {hi} {v} {e}'
REV = lambda u, v, f: f'mrev m_int {VT} {VD} {ET} {u} {v} {f}'
RNG = f'{EB} <= {EN} /\\ {NB} <= {ND} /\\ {EN} = {EB} + {M("velmnbr")} /\\ {ND} = {NB} + {M("vnodnbr")} /\\ ({EN} = {NB} \\/ {ND} = {EB})'
DEGS = lambda lo, hi, d: f'(forall v [m_int[ix {VD} v]]. {lo} <= v < {hi} -> m_int[ix {VD} v] - m_int[ix {VT} v] <= {d})'
ALL = lambda lo, hi, z: f'(forall v [{OKV(lo, hi, "v")}]. {lo} <= v < {z} -> {OKV(lo, hi, "v")})'
POS = lambda t, lo, hi: f'(forall v [m_int[ix {t} v]]. {lo} <= v < {hi} -> m_int[ix {t} v] >= 1)'
LD = lambda t, lo, hi, s: f'(if {t} = 0 then {s} = {hi} - {lo} else {POS(t, lo, hi)} /\\ {s} = psum m_int {t} {lo} {hi})'
WF = f'''{RNG} /\\ {ALL(EB, EN, EN)} /\\ {ALL(NB, ND, ND)} /\\ {M("veisnbr")} = iso m_int {VT} {VD} {EB} {EN} /\\ 0 <= {M("degrmax")} /\\ {DEGS(EB, EN, M("degrmax"))} /\\ {DEGS(NB, ND, M("degrmax"))} /\\
  {LD(M("velotax"), EB, EN, M("velosum"))} /\\ {LD(M("vnlotax"), NB, ND, M("vnlosum"))}'''
OUT0 = [RNG, 'degrmax >= 0', f'degrmax = 0 \\/ (exists v. ({EB} <= v < {EN} \\/ {NB} <= v < {ND}) /\\ m_int[ix {VD} v] - m_int[ix {VT} v] = degrmax)']
def KIND(lo, hi, isnode):
    done = [ALL(EB, EN, EN), f'veisnbr = {M("veisnbr")} /\\ veisnbr = iso m_int {VT} {VD} {EB} {EN}', DEGS(EB, EN, 'degrmax')] if isnode else []
    cnt = lambda z: [] if isnode else [f'veisnbr = iso m_int {VT} {VD} {EB} {z}']
    o = OUT0 + done
    return [L(inv=o + [f'{lo} <= vertnum <= {hi}', ALL(lo, hi, 'vertnum'), DEGS(lo, 'vertnum', 'degrmax')] + cnt('vertnum'), var=f'{hi} - vertnum', begin=[f'assert {{ {ALL(lo, hi, hi)} -> {OKV(lo, hi, "vertnum")} }}']),
     L(inv=o + [f'{lo} <= vertnum < {hi}', ALL(lo, hi, 'vertnum'), DEGS(lo, '(vertnum + 1)', 'degrmax')] + cnt('(vertnum + 1)') + [f'{B} <= m_int[ix {VT} vertnum] <= edgenum <= m_int[ix {VD} vertnum]',
       f'forall e [{OKA(lo, hi, "vertnum", "e")}]. m_int[ix {VT} vertnum] <= e < edgenum -> {OKA(lo, hi, "vertnum", "e")}'], var=f'm_int[ix {VD} vertnum] - edgenum', begin=[f'assert {{ {OKV(lo, hi, "vertnum")} -> {OKA(lo, hi, "vertnum", "edgenum")} }}']),
     L(inv=[f'm_int[ix {VT} vertend] <= edgeend', f'forall g [m_int[ix {ET} g]]. m_int[ix {VT} vertend] <= g < edgeend -> m_int[ix {ET} g] <> vertnum'], var=f'm_int[ix {VD} vertend] - edgeend', after=[f'assert {{ edgeend >= m_int[ix {VD} vertend] -> not ({OKA(lo, hi, "vertnum", "edgenum")}) }}']),
     L(inv=['f0 < edgeend', f'forall g [m_int[ix {ET} g]]. f0 < g < edgeend -> m_int[ix {ET} g] <> vertnum'], var=f'm_int[ix {VD} vertend] - edgeend',
      before=['let ghost f0 = edgeend - 1', f'assert {{ m_int[ix {ET} f0] = vertnum }}', f'assert {{ forall f. {REV("vertend", "vertnum", "f")} -> f = f0 }}'],
      after=[f'assert {{ edgeend >= m_int[ix {VD} vertend] -> {REV("vertend", "vertnum", "f0")} }}', f'assert {{ edgeend < m_int[ix {VD} vertend] -> not ({OKA(lo, hi, "vertnum", "edgenum")}) }}'])]
DONE = [f'{ALL(EB, EN, EN)}', ALL(NB, ND, ND), f'{M("veisnbr")} = iso m_int {VT} {VD} {EB} {EN}', DEGS(EB, EN, 'degrmax'), DEGS(NB, ND, 'degrmax')] + OUT0
KL = KIND(EB, EN, False) + KIND(NB, ND, True)
FNS = [
 Fn('meshCheck', 'libscotch/mesh_check.c', mode='ideal',
  ensures=[('accepts only well-formed meshes', f'result = 0 -> {WF}'), ('accepts every well-formed mesh', f'({WF}) -> result = 0'), ('mesh unchanged', f'm_int = {OM}')],
  loops={**{i + 1: l for i, l in enumerate(KL)},
   9: L(inv=DONE + [f'{EB} <= vertnum <= {EN}', POS(M('velotax'), EB, 'vertnum'), f'velosum = psum m_int {M("velotax")} {EB} vertnum'], var=f'{EN} - vertnum'),
   10: L(inv=DONE + [LD(M("velotax"), EB, EN, M("velosum")), f'{NB} <= vertnum <= {ND}', POS(M('vnlotax'), NB, 'vertnum'), f'vnlosum = psum m_int {M("vnlotax")} {NB} vertnum'], var=f'{ND} - vertnum')}),
]
LM = 'libscotch/library_mesh.c'
g = lambda x: f'f_Mesh_{x}[meshptr]'
DIFF = lambda ps: [f'{p} <> {q} \\/ {p} = 0' for i, p in enumerate(ps) for q in ps[i+1:]]
b0 = '(if velmbas <= vnodbas then velmbas else vnodbas)'
BVT = f'(verttab - {b0})'
BVD = f'(if vendtab = 0 \\/ vendtab = verttab then verttab - {b0} + 1 else vendtab - {b0})'
OPT = lambda a, o: f'(if {a} = 0 \\/ {a} = verttab then 0 else {a} - {o})'
S = 'srcmeshptr'
SR = lambda x: f'{S}.{x}'
SVT, SVD = SR('verttax'), SR('vendtax')
SEB, SEN, SNB, SND = SR('velmbas'), SR('velmnnd'), SR('vnodbas'), SR('vnodnnd')
DG = lambda v, vt=SVT, vd=SVD, m='m_int': f'({m}[ix {vd} {v}] - {m}[ix {vt} {v}])'
def DLE(lo, hi, d='degrmax', vt=SVT, vd=SVD): return f'forall v [m_int[ix {vd} v]]. {lo} <= v < {hi} -> {DG("v", vt, vd)} <= {d}'
def DHIT(r1, r2, d='degrmax', vt=SVT, vd=SVD): return f'{d} = 0 \\/ dreach m_int {vt} {vd} {r1[0]} {r1[1]} {d}' + (f' \\/ dreach m_int {vt} {vd} {r2[0]} {r2[1]} {d}' if r2 else '')
VE, VN = 'velmbas + velmnbr', 'vnodbas + vnodnbr'
OKB = 'velmbas >= 0 /\\ vnodbas >= 0 /\\ (velmbas <= 1 \\/ vnodbas <= 1) /\\ (velmbas + velmnbr = vnodbas \\/ vnodbas + vnodnbr = velmbas)'
bd = lambda v: f'(m_int[ix {BVD} {v}] - m_int[ix {BVT} {v}])'
FNS += [
 Fn('SCOTCH_meshBuild', LM, mode='ideal', requires=['velmnbr >= 0', 'vnodnbr >= 0'],
  ensures=[('valid ranges only', f'result = 0 -> {OKB}'),
   ('numbers', f'result = 0 -> {g("baseval")} = {b0} /\\ {g("velmnbr")} = velmnbr /\\ {g("velmbas")} = velmbas /\\ {g("velmnnd")} = {VE} /\\ {g("vnodnbr")} = vnodnbr /\\ {g("vnodbas")} = vnodbas /\\ {g("vnodnnd")} = {VN} /\\ {g("edgenbr")} = edgenbr'),
   ('arrays', f'result = 0 -> {g("verttax")} = {BVT} /\\ {g("vendtax")} = {BVD} /\\ {g("edgetax")} = edgetab - {b0}'),
   ('optional arrays', f'result = 0 -> {g("velotax")} = {OPT("velotab", "velmbas")} /\\ {g("vnlotax")} = {OPT("vnlotab", "vnodbas")} /\\ {g("vlbltax")} = {OPT("vlbltab", b0)}'),
   ('element load sum', f'result = 0 -> {g("velosum")} = (if {g("velotax")} = 0 then velmnbr else psum m_int {g("velotax")} velmbas ({VE}))'),
   ('node load sum', f'result = 0 -> {g("vnlosum")} = (if {g("vnlotax")} = 0 then vnodnbr else psum m_int {g("vnlotax")} vnodbas ({VN}))'),
   ('isolated elements', f'result = 0 -> {g("veisnbr")} = iso m_int {g("verttax")} {g("vendtax")} velmbas ({VE})'),
   ('degrees below the maximum', f'result = 0 -> (forall v [m_int[ix {g("vendtax")} v]]. velmbas <= v < {VE} \\/ vnodbas <= v < {VN} -> {DG("v", g("verttax"), g("vendtax"))} <= {g("degrmax")})'),
   ('maximum degree reached', f'result = 0 -> {DHIT(("velmbas", "(" + VE + ")"), ("vnodbas", "(" + VN + ")"), g("degrmax"), g("verttax"), g("vendtax"))}'),
   ('user arrays unchanged', f'm_int = {OM}')],
  loops={1: L(inv=[f'{SEB} <= vertnum <= {SEN}', f'velosum = psum m_int {SR("velotax")} {SEB} vertnum'], var=f'{SEN} - vertnum'),
   2: L(inv=[f'{SNB} <= vertnum <= {SND}', f'vnlosum = psum m_int {SR("vnlotax")} {SNB} vertnum'], var=f'{SND} - vertnum'),
   3: L(inv=[f'{SEB} <= vertnum <= {SEN}', 'degrmax >= 0', DLE(SEB, 'vertnum'), DHIT((SEB, 'vertnum'), None), f'veisnbr = iso m_int {SVT} {SVD} {SEB} vertnum'], var=f'{SEN} - vertnum'),
   4: L(inv=[f'{SNB} <= vertnum <= {SND}', 'degrmax >= 0', DLE(SEB, SEN), DLE(SNB, 'vertnum'), DHIT((SEB, SEN), (SNB, 'vertnum')), f'veisnbr = iso m_int {SVT} {SVD} {SEB} {SEN}'], var=f'{SND} - vertnum')}),
 Fn('SCOTCH_meshSize', LM, requires=DIFF(['velmnbr', 'vnodnbr', 'edgenbr']), ensures=[(n, f'{p} <> 0 -> m_int[{p}] = {g(p)}') for n, p in (('elements', 'velmnbr'), ('nodes', 'vnodnbr'), ('arcs', 'edgenbr'))]),
 Fn('SCOTCH_meshData', LM, requires=DIFF(['velmbas', 'vnodbas', 'velmnbr', 'vnodnbr', 'edgenbr', 'degrnbr']) + DIFF(['verttab', 'vendtab', 'velotab', 'vnlotab', 'vlbltab', 'edgetab']),
  ensures=[(n, f'{p} <> 0 -> m_int[{p}] = {g(f)}') for n, p, f in (('elements from', 'velmbas', 'velmbas'), ('nodes from', 'vnodbas', 'vnodbas'), ('elements', 'velmnbr', 'velmnbr'), ('nodes', 'vnodnbr', 'vnodnbr'), ('arcs', 'edgenbr', 'edgenbr'), ('maximum degree', 'degrnbr', 'degrmax'))] +
   [(n, f'{p} <> 0 -> m_p_int[{p}] = {g(f)} + {g("baseval")}') for n, p, f in (('vertex array', 'verttab', 'verttax'), ('vertex end array', 'vendtab', 'vendtax'), ('edge array', 'edgetab', 'edgetax'))] +
   [(n, f'{p} <> 0 -> m_p_int[{p}] = (if {g(f)} <> 0 then {g(f)} + {g(o)} else 0)') for n, p, f, o in (('element loads', 'velotab', 'velotax', 'velmbas'), ('node loads', 'vnlotab', 'vnlotax', 'vnodbas'), ('labels', 'vlbltab', 'vlbltax', 'baseval'))]),
]
NATIVE = [{'src': 'mesh.c', 'budget': 60}]
# meshBase: the contract of graphBase (C02), over the joint range of elements and nodes
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import C02 as _c02
def _m(s): return s.replace('grafptr.vertnnd', '(meshptr.velmnbr + meshptr.vnodnbr + meshptr.baseval)').replace('grafptr', 'meshptr')
_gb = [f for f in _c02.FNS if f.name == 'graphBase'][0]
OB, AB = '(old meshptr.baseval)', 'baseval - (old meshptr.baseval)'
FNS.append(Fn('meshBase', 'libscotch/mesh.c', defs=_gb.defs,
  requires=[_m(r) for r in _gb.requires] + ['meshptr.velmnbr >= 0', 'meshptr.vnodnbr >= 0'],
  ensures=[(n, _m(e)) for n, e in _gb.ensures if n not in ('new base', 'optional')] +
   [('new base', f'meshptr.baseval = baseval /\\ ' + ' /\\ '.join(f'meshptr.{x} = (old meshptr.{x}) + {AB}' for x in ('velmbas', 'velmnnd', 'vnodbas', 'vnodnnd')) + ' /\\ meshptr.velmnbr = (old meshptr.velmnbr) /\\ meshptr.vnodnbr = (old meshptr.vnodnbr)')] +
   [(f'access to {x}', f'meshptr.{x} = (if (old meshptr.{x}) = 0 then 0 else (old meshptr.{x}) - ({AB}))') for x in ('velotax', 'vnlotax', 'vnumtax', 'vlbltax')],
  begin=[_m(x) for x in _gb.begin], end=[_m(x) for x in _gb.end],
  loops={k: L(inv=[_m(i) for i in l.inv], var=_m(l.var)) for k, l in _gb.loops.items()}))
# SCOTCH_meshStat: the same description as for graphs (C12)
import C12 as _c12
OUTS = ['vnlominptr', 'vnlomaxptr', 'vnlosumptr', 'edegminptr', 'edegmaxptr', 'ndegminptr', 'ndegmaxptr']
gEB, gEN, gNB, gND, gVT, gVD, gNL = (g(x) for x in ('velmbas', 'velmnnd', 'vnodbas', 'vnodnnd', 'verttax', 'vendtax', 'vnlotax'))
GM = _c12.GM
RG = {'E': (gEB, gEN, SEB, SEN, 'velmnum'), 'N': (gNB, gND, SNB, SND, 'vnodnum')}
MFRM = ['forall a [m_int[a]]. ' + ' -> '.join(f'a <> {p}' for p in OUTS) + f' -> m_int[a] = {OM}[a]']
SLIM = [f'forall v [m_int[ix {gVD} v]]. {lo} <= v < {hi} -> 0 <= m_int[ix {gVD} v] - m_int[ix {gVT} v] <= {GM}' for lo, hi, *_ in RG.values()] + [f'forall v [m_int[ix {gNL} v]]. {gNB} <= v < {gND} -> 0 <= m_int[ix {gNL} v] <= {GM}']
SAPART = [f'forall v [m_int[ix {gVT} v]]. {lo} <= v < {hi} -> ' + ' /\\ '.join(f'ix {a} v <> {p}' for a in (gVT, gVD) for p in OUTS) for lo, hi, *_ in RG.values()] + [f'forall v [m_int[ix {gNL} v]]. {gNB} <= v < {gND} -> ' + ' /\\ '.join(f'ix {gNL} v <> {p}' for p in OUTS)]
MST = _c12.POST('node load', f'{gNB} < {gND} -> {gNL} <> 0', 'vnlominptr', 'vnlomaxptr', lambda a, b: _c12.VMM(gND, OM, gNL, gNB, a, b))
MST += [('unit node loads', f'{p} <> 0 -> {gNL} = 0 -> m_int[{p}] = (if {gNB} < {gND} then 1 else 0)') for p in OUTS[:2]] + [('node load sum', f'vnlosumptr <> 0 -> m_int[vnlosumptr] = {g("vnlosum")}')]
for t, p, k in (('element degree', 'edeg', 'E'), ('node degree', 'ndeg', 'N')):
    lo, hi = RG[k][:2]
    MST += _c12.POST(t, f'{lo} < {hi}', p + 'minptr', p + 'maxptr', lambda a, b: _c12.DMM(hi, OM, gVT, gVD, lo, a, b))
    MST += [(f'{t} of an empty set', f'{q} <> 0 -> {lo} >= {hi} -> m_int[{q}] = 0') for q in (p + 'minptr', p + 'maxptr')]
def wit(n, w, lo, hi): return [f'assert {{ {lo} < {hi} -> {n}min <= {w} <= {n}max /\\ 0 <= {w} <= {GM} }}', f'assert {{ {lo} < {hi} -> ({n}min = {GM} -> {n}min = {w}) /\\ ({n}max = 0 -> {n}max = {w}) }}']
def dloop(k):
    lo, hi, slo, shi, c = RG[k]
    return L(inv=[f'{slo} <= {c} <= {shi}'] + _c12.DMM(c, OM, SVT, SVD, slo) + MFRM, var=f'{shi} - {c}', begin=[f'assert {{ m_int[ix {SVT} {c}] = {OM}[ix {SVT} {c}] /\\ m_int[ix {SVD} {c}] = {OM}[ix {SVD} {c}] }}'],
      after=wit('degr', f'({OM}[ix {SVD} {slo}] - {OM}[ix {SVT} {slo}])', slo, shi))
SNL = SR('vnlotax')
FNS.append(Fn('SCOTCH_meshStat', LM, mode='ideal', requires=[f'{g("velmnbr")} >= 0 /\\ {g("vnodnbr")} >= 0 /\\ {gEN} = {gEB} + {g("velmnbr")} /\\ {gND} = {gNB} + {g("vnodnbr")}'] + SLIM + DIFF(OUTS) + SAPART,
  ensures=MST + [('mesh unchanged', MFRM[0])],
  loops={1: L(inv=[f'{SNB} <= vnodnum <= {SND}'] + _c12.VMM('vnodnum', OM, SNL, SNB, 'vnlomin', 'vnlomax') + MFRM, var=f'{SND} - vnodnum', begin=[f'assert {{ m_int[ix {SNL} vnodnum] = {OM}[ix {SNL} vnodnum] }}'], after=wit('vnlo', f'{OM}[ix {SNL} {SNB}]', SNB, SND)),
   2: dloop('E'), 3: dloop('N')}))
BOUNDED = ['meshGraph, meshGraphDual (hash tables)', 'meshSave, meshLoad', 'meshGeomLoadScot, meshGeomSaveScot, meshGeomLoadHabo', 'averages and deviations of SCOTCH_meshStat (floating point)']
ASSUME = ['arrays handed to meshBase, SCOTCH_meshStat and SCOTCH_meshBuild do not overlap each other or the output variables']
NOTE = 'Proved for all inputs: meshCheck (accepts exactly the well-formed meshes), SCOTCH_meshBuild, SCOTCH_meshSize, SCOTCH_meshData, the integer results of SCOTCH_meshStat, and meshBase. The graph conversions, files and geometry are executed on bounded cases against an independent oracle.'
