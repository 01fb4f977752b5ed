from c2why import Fn, L
import os
TH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'theory')
THEORIES = [os.path.join(TH, 'sums.mlw'), os.path.join(TH, 'files.mlw'), os.path.join(TH, 'chars.mlw')]
NATIVE = [{'src': 'files.c', 'budget': 60}]
FG = 'libscotch/graph_io.c'
GA = tuple(f'grafptr.{x}' for x in ('verttax', 'vendtax', 'edgetax', 'edlotax', 'vlbltax', 'velotax', 'baseval', 'vertnnd'))
VT, VD, ET, EL, LB, VL, B, N = GA
P = '((old m_outs)[0] + 5)'
def TP(v, m='m_int', p=P, b=B): return f'(tp {m} {VT} {VD} {LB} {VL} {EL} {b} {p} {v})'
def LAY(n, p=P, t='m_out', m='m_int'): return f'lay {t} {m} {VT} {VD} {ET} {EL} {LB} {VL} {B} {n} {p}'
flags = f'((if {LB} <> 0 then 100 else 0) + (if {EL} <> 0 then 10 else 0) + (if {VL} <> 0 then 1 else 0))'
HEAD = lambda t, q: [f'{t}[{q}] = 0', f'{t}[{q} + 1] = grafptr.vertnbr', f'{t}[{q} + 2] = grafptr.edgenbr', f'{t}[{q} + 3] = {B}', f'{t}[{q} + 4] = {flags}']
H0 = [' /\\ '.join(HEAD('m_out', '(old m_outs)[0]'))]
KEEP = ['forall i [m_out[i]]. i < (old m_outs)[0] -> m_out[i] = (old m_out)[i]']
WF = [f'forall v [m_int[ix {VT} v]]. {B} <= v < {N} -> m_int[ix {VT} v] <= m_int[ix {VD} v]']
Q = TP('vertnum'); W = f'(wv {LB} {VL})'
# item ranks at the start of the vertex
GV = ['let ghost q = m_outs[0] in', 'let ghost t0 = m_out']
FNS = [
 Fn('graphSave', FG, mode='ideal', io=True, begin=['let ghost ps = m_outs[0] + 5'], requires=['m_outs[1] = 1', f'{B} <= {N}'] + WF,
  ensures=[('success or failure', 'result = 0 \\/ result = 1'), ('header of the file', 'result = 0 -> ' + H0[0]), ('every vertex and arc in the file', f'result = 0 -> {LAY(N)}'),
    ('nothing else in the file', f'result = 0 -> m_outs[0] = {TP(N)} /\\ m_outs[1] = 1'), ('what was in the file before is kept', KEEP[0])],
  loops={1: L(H0 + KEEP + [f'{B} <= vertnum <= {N}', 'o = 0 \\/ o = 1', f'o = 0 -> m_outs[1] = 1 /\\ m_outs[0] = {Q}', f'o = 0 -> {LAY("vertnum")}', f'o = 0 -> m_outs[0] >= {P}'], f'{N} - vertnum',
      before=['let ghost ref q = 0', 'let ghost ref t0 = m_out'],
      begin=['q <- m_outs[0]', 't0 <- m_out'],
      end=[]),
    2: L(H0 + KEEP + ['o = 0 \\/ o = 1', 'm_outs[1] = 0', f'm_int[ix {VT} vertnum] <= edgenum <= m_int[ix {VD} vertnum]', f'm_outs[0] = q + {W} + ek {EL} (edgenum - m_int[ix {VT} vertnum])', f'q = {Q} /\\ q >= {P}',
      'forall i [m_out[i]]. i < q -> m_out[i] = t0[i]', f'layhead m_out m_int {VT} {VD} {LB} {VL} q vertnum', f'layarc m_out m_int {ET} {EL} {LB} (q + {W}) m_int[ix {VT} vertnum] edgenum', f'lay t0 m_int {VT} {VD} {ET} {EL} {LB} {VL} {B} vertnum {P}'],
      f'm_int[ix {VD} vertnum] - edgenum',
      after=[f'lay_frame t0 m_out m_int {VT} {VD} {ET} {EL} {LB} {VL} {B} vertnum ps',
             f'if edgenum = m_int[ix {VD} vertnum] then lay_step m_out m_int {VT} {VD} {ET} {EL} {LB} {VL} {B} vertnum ps'])}),
]
OM = '(old m_int)'
E0, E1 = 'm_int[ix verttax baseval]', 'm_int[ix verttax vertnnd]'
EDG = lambda lo, hi: f'forall e [m_int[ix edgetax e]]. {lo} <= e < {hi} -> baseval <= m_int[ix edgetax e] < vertnnd /\\ m_int[ix vlbltax (m_int[ix edgetax e])] = {OM}[ix edgetax e]'
FRAME2 = [f'forall a [m_int[a]]. a < old hp -> (a < ix edgetax ({OM}[ix verttax baseval]) \\/ a >= ix edgetax ({OM}[ix verttax vertnnd])) -> m_int[a] = {OM}[a]']
INDX = lambda hi: [f'forall l [m_int[ix indxtab l]]. 0 <= l <= vlblmax -> m_int[ix indxtab l] = -1 \\/ (baseval <= m_int[ix indxtab l] < {hi} /\\ m_int[ix vlbltax (m_int[ix indxtab l])] = l)', 'indxtab >= old hp', 'indxtab > 0']
DIST = lambda hi: f'forall u v [m_int[ix vlbltax u], m_int[ix vlbltax v]]. baseval <= u < v < {hi} -> m_int[ix vlbltax u] <> m_int[ix vlbltax v]'
DST = lambda hi: [f'baseval >= 0 -> {DIST(hi)}', f'baseval >= 0 -> forall u [m_int[ix vlbltax u]]. baseval <= u < {hi} -> m_int[ix indxtab (m_int[ix vlbltax u])] = u', f'forall u [m_int[ix vlbltax u]]. baseval <= u < {hi} -> 0 <= m_int[ix vlbltax u]']
SAME = lambda t, lo, hi, tr='': [f'forall v [m_int[ix {t} v]]. {lo} <= v {hi} -> m_int[ix {t} v] = {OM}[ix {t} v]']
ROV = SAME('verttax', 'baseval', '<= vertnnd') + SAME('vlbltax', 'baseval', '< vertnnd')
MON = f'forall u v [m_int[ix verttax u], m_int[ix verttax v]]. baseval <= u <= v <= vertnnd -> m_int[ix verttax u] <= m_int[ix verttax v]'
OE0, OE1 = f'{OM}[ix verttax baseval]', f'{OM}[ix verttax vertnnd]'
REST = lambda cur: [EDG(OE0, cur), f'forall e [m_int[ix edgetax e]]. {cur} <= e < {OE1} -> m_int[ix edgetax e] = {OM}[ix edgetax e]']
FNS += [
 Fn('graphLoad2', FG, mode='ideal', requires=['baseval <= vertnnd', 'vendtax = verttax + 1', MON, 'vlblmax >= -1', 'forall v [m_int[ix vlbltax v]]. baseval <= v < vertnnd -> m_int[ix vlbltax v] <= vlblmax',
   'hp > 0', 'ix verttax vertnnd < hp', 'ix vlbltax (vertnnd - 1) < hp', f'ix edgetax ({E1} - 1) < hp',
   f'ix edgetax ({E1} - 1) < ix verttax baseval \\/ ix verttax vertnnd < ix edgetax {E0}', f'ix edgetax ({E1} - 1) < ix vlbltax baseval \\/ ix vlbltax (vertnnd - 1) < ix edgetax {E0}'],
  ensures=[('success or failure', 'result = 0 \\/ result = 1'), ('arc ends become the vertices bearing their labels', f'result = 0 -> {EDG(OE0, OE1)}'), ('labels are distinct', f'result = 0 -> baseval >= 0 -> {DIST("vertnnd")}'),
    ('nothing else is changed', FRAME2[0]), ('heap', 'hp >= old hp')],
  loops={1: L(INDX('vertnum') + DST('vertnum') + FRAME2 + ROV + ['baseval <= vertnum <= vertnnd', 'hp >= old hp'] + REST(OE0), 'vertnnd - vertnum'),
   2: L(INDX('vertnnd') + [f'baseval >= 0 -> {DIST("vertnnd")}'] + FRAME2 + ROV + ['baseval <= vertnum <= vertnnd', 'hp >= old hp'] + REST(f'{OM}[ix verttax vertnum]'), 'vertnnd - vertnum'),
   3: L(INDX('vertnnd') + [f'baseval >= 0 -> {DIST("vertnnd")}'] + FRAME2 + ROV + ['baseval <= vertnum < vertnnd', 'hp >= old hp', f'{OM}[ix verttax vertnum] <= edgenum <= {OM}[ix verttax (vertnum + 1)]', f'{OM}[ix verttax (vertnum + 1)] <= {OE1}', f'{OE0} <= {OM}[ix verttax vertnum]'] + REST('edgenum'), 'm_int[ix vendtax vertnum] - edgenum',
      end=[])}),
]

TK = '(toks m_chr m_inps[1])'
CH = 'm_chrs[0] = cpos m_chr m_inps[1] m_inps[0] /\\ m_inps[0] >= 0'
FIN = 'm_chrs[0] <= m_chrs[1] /\\ m_chr[m_chrs[1]] = -1'
CP = '(old m_chrs)[0]'
RD = '(forall a [m_inps[a]]. m_inps[a] = if a = 0 then (old m_inps)[0] + result else (old m_inps)[a])'
FNS += [
 Fn('intLoad', 'libscotch/common_integer.c', mode='ideal', io=True, requires=[CH, FIN],
  ensures=[('one number read, or none', 'result = 0 \\/ result = 1'), ('value read', f'result = 1 -> m_int = {OM}[valptr <- {TK}[(old m_inps)[0]]]'), ('nothing stored on failure', f'result = 0 -> m_int = {OM}'),
    ('the stream is left just after the number', f'result = 1 -> {CH}'), ('end of the stream', FIN), ('count of numbers', RD), ('a number is never refused', f'forall q v [number m_chr {CP} q v]. number m_chr {CP} q v -> result = 1')],
  begin=['let ghost p0 = m_chrs[0]', 'let ghost ref dg = 0', 'let ghost ref sg = 0'],
  loops={1: L([FIN, f'm_chrs[0] >= {CP}', f'forall i [m_chr[i]]. {CP} <= i < m_chrs[0] -> isspc m_chr[i]', 'sign = 0'], 'm_chrs[1] - m_chrs[0]',
      after=['dg <- m_chrs[0] - 1', 'sg <- (if dg > p0 && (m_chr[dg - 1] = 45 || m_chr[dg - 1] = 43) then dg - 1 else dg)',
        'assert { isdig car -> m_chr[dg] = car /\\ p0 <= sg /\\ dg >= p0 }', 'assert { isdig car -> (forall i [m_chr[i]]. p0 <= i < sg -> isspc m_chr[i]) /\\ not (isspc m_chr[sg]) /\\ (sign <> 0 <-> m_chr[sg] = 45) }',
        'assert { not (isdig car) -> exists x. p0 <= x /\\ (forall i [m_chr[i]]. p0 <= i < x -> isspc m_chr[i]) /\\ (m_chr[x] = 45 \\/ m_chr[x] = 43) /\\ not (isdig m_chr[x + 1]) }',
        'assert { not (isdig car) -> forall s d q v. numat m_chr p0 s d q v -> (s = d \\/ isdig m_chr[s + 1]) /\\ (forall x. (forall i [m_chr[i]]. p0 <= i < x -> isspc m_chr[i]) -> x <= s) }']),
    2: L([FIN, 'm_chrs[0] > dg', 'forall i [m_chr[i]]. dg <= i < m_chrs[0] -> isdig m_chr[i]', 'val = dval m_chr dg m_chrs[0]', 'isdig m_chr[dg]'], 'm_chrs[1] - m_chrs[0]')},
  rets={1: ['assert { forall s d q v. numat m_chr p0 s d q v -> false by s = m_chrs[0] - 1 \\/ s = m_chrs[0] }'], 2: ['assert { forall s d q v. numat m_chr p0 s d q v -> false }'],
    3: ['assert { numat m_chr p0 sg dg m_chrs[0] m_int[valptr] }', 'assert { number m_chr p0 m_chrs[0] m_int[valptr] }', 'step 1']}),
]

K0 = '(old m_inps)[0]'
T = '(toks m_chr (old m_inps)[1])'
T4 = f'{T}[{K0} + 4]'
FL, FE, FV = f'(qdiv {T4} 100)', f'(qmod (qdiv {T4} 10) 10)', f'(qmod {T4} 10)'
GN, GM_ = 'grafptr.vertnbr', 'grafptr.edgenbr'
PV = lambda v, a: f'(pv {FL} {FV} {FE} {K0} {B} ({v}) ({a}))'
PA = lambda v, e: f'(pv {FL} {FV} {FE} {K0} {B} ({v} + 1) ({e}))'
OPEN = lambda v, a: f'pv_open fl fv fe k0 {B} {v} {a}'
ADJ = f'(if {FL} <> 0 \\/ baseval = -1 then 0 else baseval - {T}[{K0} + 3])'
OFS = lambda x: f'(if {x} <> 0 then 1 else 0)'
m = lambda a, i: f'm_int[ix {a} ({i})]'
def HEADS(hi, nx):   # heads of the vertices b .. hi-1; nx: end of the arcs of v
    g = f'{B} <= v < {hi}'
    return [('labels', f'{LB} <> 0 -> forall v [{m(LB, "v")}]. {g} -> {T}[{PV("v", m(VT, "v"))}] = {m(LB, "v")}'),
      ('vertex loads', f'{VL} <> 0 -> forall v [{m(VL, "v")}]. {g} -> {T}[{PV("v", m(VT, "v"))} + {OFS(FL)}] = {m(VL, "v")}'),
      ('degrees', f'forall v [{m(VT, "v")}]. {g} -> {T}[{PV("v", m(VT, "v"))} + wv {FL} {FV} - 1] = {nx} - {m(VT, "v")}')]
def ARCS(hi, nx, lab):
    g = f'{hi} -> {m(VT, "v")} <= e < {nx}'
    end = f'{m(ET, "e")} - {ADJ}' if not lab else f'(if {LB} <> 0 then {m(LB, m(ET, "e"))} else {m(ET, "e")} - {ADJ})'
    return [('edge loads', f'{EL} <> 0 -> forall v e [{m(VT, "v")}, {m(EL, "e")}]. {g} -> {T}[{PA("v", "e")}] = {m(EL, "e")}'),
      ('arc ends', f'forall v e [{m(VT, "v")}, {m(ET, "e")}]. {g} -> {T}[{PA("v", "e")} + {OFS(FE)}] = {end}')]
KEEPV = f'(band flagval 1 = 0)'
OPTS = [('which arrays are kept', f'({LB} <> 0 -> {FL} <> 0) /\\ ({FL} <> 0 -> {GN} > 0 -> {LB} <> 0) /\\ ({VL} <> 0 -> {FV} <> 0 /\\ band flagval 1 = 0) /\\ ({FV} <> 0 -> band flagval 1 = 0 -> {GN} > 0 -> {VL} <> 0) /\\ ({EL} <> 0 -> {FE} <> 0 /\\ band flagval 2 = 0) /\\ ({FE} <> 0 -> band flagval 2 = 0 -> {GM_} > 0 -> {EL} <> 0)')]
NUMS = [('numbers of the header', f'{T}[{K0}] = 0 /\\ {GN} = {T}[{K0} + 1] /\\ {GM_} = {T}[{K0} + 2] /\\ {B} = (if baseval = -1 then {T}[{K0} + 3] else baseval) /\\ {N} = {B} + {GN} /\\ {GN} >= 0 /\\ {GM_} >= 0 /\\ 0 <= {T4} <= 111')]
STREAM = [CH, FIN, 'm_inps[1] = (old m_inps)[1]', f'm_inps[0] >= {K0}']
NXF = m(VT, 'v + 1')
SUMS = lambda v, e: [('sum of the vertex loads', f'%s = (if {VL} <> 0 then psum m_int {VL} {B} {v} else {GN})'), ('sum of the edge loads', f'%s = (if {EL} <> 0 then psum m_int {EL} {B} {e} else {GM_})')]
sn = lambda l: [x for _, x in l]
A = lambda f: f'adr_Graph_{f} grafptr'
NXL = f'(if v + 1 = vertnum then edgenum else {NXF})'
NXA = f'(if v + 1 = vertnum then edgenum else if v = vertnum then edgenum else {NXF})'
CTX = [('k', f'{GN} = {T}[{K0} + 1] /\\ {GM_} = {T}[{K0} + 2]')]
ENDV = [f'forall v [{m(VT, "v")}]. {B} <= v < vertnum -> {B} <= {m(VT, "v")} <= {NXL}']
MONO = lambda hi: [f'forall u v [{m(VT, "u")}, {m(VT, "v")}]. {B} <= u <= v < {hi} -> {m(VT, "u")} <= {m(VT, "v")}', f'forall v [{m(VT, "v")}]. {B} <= v < {hi} -> {B} <= {m(VT, "v")} <= edgenum', f'{B} < vertnum -> {m(VT, B)} = {B}']
LAYO = ['hp0 > 0', f'{A("vertnbr")} < hp0 /\\ {A("edgenbr")} < hp0', f'0 < {A("vertnbr")} /\\ 0 < {A("edgenbr")}', f'{VT} + {B} >= hp0', f'{VL} <> 0 -> {VL} + {B} > {VT} + {N}', f'{LB} <> 0 -> {LB} + {B} > {VT} + {N}', f'{VL} <> 0 -> {LB} <> 0 -> {LB} + {B} >= {VL} + {N}',
  f'{ET} + {B} > {VT} + {N}', f'{VL} <> 0 -> {ET} + {B} >= {VL} + {N}', f'{LB} <> 0 -> {ET} + {B} >= {LB} + {N}', f'{EL} <> 0 -> {EL} + {B} >= {ET} + edgennd', f'{EL} <> 0 -> {EL} + {edg} <= hp'.replace('{edg}', 'edgennd') if 0 else f'{ET} + edgennd <= hp', f'{EL} <> 0 -> {EL} + edgennd <= hp', f'{VD} = {VT} + 1']
LOAD1 = STREAM + sn(NUMS) + [f'{B} <= vertnum <= {N}', f'{B} <= edgenum <= edgennd', f'edgennd = {B} + {GM_}', f'm_inps[0] = {PV("vertnum", "edgenum")}', f'vlblmax >= {N} - 1', f'vertnum = {B} -> edgenum = {B}', f'{LB} <> 0 -> forall v [{m(LB, "v")}]. {B} <= v < vertnum -> {m(LB, "v")} <= vlblmax']
BADJ = [f'baseadj = {ADJ}']
PROP = [f'proptab[0] = {FL} /\\ proptab[1] = {FE} /\\ proptab[2] = {FV}']
DEGM = lambda nx, hi: f'forall v [{m(VT, "v")}]. {B} <= v < {hi} -> {nx} - {m(VT, "v")} <= degrmax'
FNS += [
 Fn('graphFree', FG, trusted=True, writes=(), pnames=['grafptr']),
 Fn('graphCheck', FG, trusted=True, writes=(), pnames=['grafptr'], ensures=[('m', 'true')]),
]
def gh(x):          # the same formula with the ghost names bound at the start of the function
    for a, b in ((FL, 'fl'), (FE, 'fe'), (FV, 'fv'), (T, 'tt'), (K0, 'k0'), ('(old m_inps)[1]', 'i1')): x = x.replace(a, b)
    return x
G = lambda l: [gh(x) for x in l]
GB = ['let ghost hp0 = hp', 'let ghost i1 = m_inps[1]', 'let ghost k0 = m_inps[0]', 'let ghost tt = pure { toks m_chr m_inps[1] }', 'let ghost fl = pure { qdiv tt[k0 + 4] 100 }', 'let ghost fe = pure { qmod (qdiv tt[k0 + 4] 10) 10 }', 'let ghost fv = pure { qmod tt[k0 + 4] 10 }']
VSUM = lambda v, e: [sn(SUMS(v, e))[0] % 'velosum', sn(SUMS(v, e))[1] % 'edlosum']
RAIS = ['raises result <> 0']
SAT = [f'{LB} <> 0 <-> fl <> 0 /\\ {GN} > 0', f'{VL} <> 0 -> fv <> 0', f'{EL} <> 0 -> fe <> 0']
CUT1 = LAYO + SAT + STREAM + sn(NUMS) + sn(OPTS) + [f'edgennd = {B} + {GM_}', 'm_inps[0] = k0 + 5', f'vlblmax = {N} - 1'] + BADJ + PROP + [f'velosum = (if {VL} <> 0 then 0 else {GN})', f'edlosum = (if {EL} <> 0 then 0 else {GM_})', 'degrmax = 0']
XL, XV, XT = f'ix {LB} vertnum', f'ix {VL} vertnum', f'ix {VT} vertnum'
DG = 'degrval'
CUT2 = STREAM + [f'forall a [m_int[a]]. (a = @baseadj \\/ a >= 0) -> a <> {XT} -> ({LB} <> 0 -> a <> {XL}) -> ({VL} <> 0 -> a <> {XV}) -> m_int[a] = mi[a]', f'm_int[{XT}] = edgenum', f'edgenum <= {DG} <= edgennd',
   'm_inps[0] = j0 + wv fl fv', f'{LB} <> 0 -> tt[j0] = m_int[{XL}]', f'{VL} <> 0 -> tt[j0 + (if fl <> 0 then 1 else 0)] = m_int[{XV}]', f'tt[j0 + wv fl fv - 1] = {DG} - edgenum',
   'vlblmax >= vm', f'{LB} <> 0 -> m_int[{XL}] <= vlblmax', f'velosum = vs + (if {VL} <> 0 then m_int[{XV}] else 0)', f'{DG} - edgenum <= degrmax', 'degrmax >= dm']
YE, YL = f'ix {ET} edgenum', f'ix {EL} edgenum'
BCUT2 = STREAM + [f'forall a [m_int[a]]. (a = @baseadj \\/ a = @degrval \\/ a >= 0) -> a <> {YE} -> ({EL} <> 0 -> a <> {YL}) -> m_int[a] = mj[a]', 'm_inps[0] = j1 + (if fe <> 0 then 2 else 1)', f'{EL} <> 0 -> tt[j1] = m_int[{YL}]', f'tt[j1 + (if fe <> 0 then 1 else 0)] = m_int[{YE}] - baseadj', f'edlosum = es + (if {EL} <> 0 then m_int[{YL}] else 0)']
END2 = [OPEN('(vertnum + 1)', 'edgenum'), OPEN('(vertnum + 1)', '(edgenum - 1)'), f'assert {{ forall v [{m(VT, "v")}]. {B} <= v <= vertnum -> {m(VT, "v")} = mj[ix {VT} v] }}', f'assert {{ {VL} <> 0 -> forall v [{m(VL, "v")}]. {B} <= v <= vertnum -> {m(VL, "v")} = mj[ix {VL} v] }}', f'assert {{ {LB} <> 0 -> forall v [{m(LB, "v")}]. {B} <= v <= vertnum -> {m(LB, "v")} = mj[ix {LB} v] }}',
  f'assert {{ forall e [{m(ET, "e")}]. {B} <= e < edgenum - 1 -> {m(ET, "e")} = mj[ix {ET} e] }}', f'assert {{ {EL} <> 0 -> forall e [{m(EL, "e")}]. {B} <= e < edgenum - 1 -> {m(EL, "e")} = mj[ix {EL} e] }}',
  gh(f'assert {{ {T}[{PA("vertnum", "(edgenum - 1)")} + {OFS(FE)}] = {m(ET, "edgenum - 1")} - {ADJ} }}'), gh(f'assert {{ {EL} <> 0 -> {T}[{PA("vertnum", "(edgenum - 1)")}] = {m(EL, "edgenum - 1")} }}')]
LAST = [f'assert {{ forall a [m_int[a]]. 0 <= a < hz -> (a < {ET} + {B} \\/ a >= {ET} + edgennd) -> a <> {VT} + {N} -> m_int[a] = mz[a] }}', f'assert {{ {m(VT, N)} = edgennd }}', f'assert {{ forall v [{m(VT, "v")}]. {B} <= v <= {N} -> {B} <= {m(VT, "v")} <= edgennd }}'] + [f'assert {{ {gh(x)} }}' for _, x in HEADS(N, NXF)]
LAST += [f'assert {{ forall e [{m(ET, "e")}]. {B} <= e < edgennd -> if {LB} <> 0 then {m(LB, m(ET, "e"))} = mz[ix {ET} e] else {m(ET, "e")} = mz[ix {ET} e] }}',
  gh(f'assert {{ forall v e [{m(VT, "v")}, {m(ET, "e")}]. {B} <= v < {N} -> {m(VT, "v")} <= e < {NXF} -> {T}[{PA("v", "e")} + {OFS(FE)}] = mz[ix {ET} e] - {ADJ} }}')] + [f'assert {{ {gh(x)} }}' for _, x in ARCS(f'{B} <= v < {N}', NXF, True)]
FNS += [
 Fn('graphLoad', FG, mode='ideal', io=True, begin=GB + ['let ghost ref mz = m_int', 'let ghost ref hz = hp'], rets={16: LAST}, addr=('Graph.vertnbr', 'Graph.edgenbr'), requires=[CH, FIN, 'sp <= 0', 'hp > 0', 'hp > baseval', 'baseval >= -1', f'baseval = -1 -> {T}[{K0} + 3] >= 0'.replace('(old m_inps)', 'm_inps'), f'hp > {T}[{K0} + 3]'.replace('(old m_inps)', 'm_inps'), f'0 < {A("vertnbr")} < hp', f'0 < {A("edgenbr")} < hp', f'{A("vertnbr")} <> {A("edgenbr")}'],
  ensures=[(n, f'result = 0 -> {x}') for n, x in NUMS + OPTS + HEADS(N, NXF) + ARCS(f'{B} <= v < {N}', NXF, True)]
   + [('compact vertex array', f'result = 0 -> {VD} = {VT} + 1 /\\ {m(VT, B)} = {B} /\\ {m(VT, N)} = {B} + {GM_}'), ('sum of the vertex loads', f'result = 0 -> ' + sn(SUMS(N, f'({B} + {GM_})'))[0] % 'grafptr.velosum'), ('sum of the edge loads', f'result = 0 -> ' + sn(SUMS(N, f'({B} + {GM_})'))[1] % 'grafptr.edlosum'),
     ('maximum degree', f'result = 0 -> forall v [{m(VT, "v")}]. {B} <= v < {N} -> {NXF} - {m(VT, "v")} <= grafptr.degrmax'), ('ends of labelled arcs are vertices', f'result = 0 -> {LB} <> 0 -> forall e [{m(ET, "e")}]. {B} <= e < {B} + {GM_} -> {B} <= {m(ET, "e")} < {N}')],
  loops={1: L(G(LAYO + SAT + LOAD1 + BADJ + PROP + sn(HEADS('vertnum', NXL)) + sn(ARCS(f'{B} <= v < vertnum', NXL, False)) + MONO('vertnum') + VSUM('vertnum', 'edgenum') + [DEGM(NXL, 'vertnum'), 'degrmax >= 0']), f'{N} - vertnum', cut=G(CUT1) + RAIS, before=[OPEN(B, B)],
      after=['mz <- m_int', 'hz <- hp'], begin=['let ghost mi = m_int', 'let ghost j0 = m_inps[0]', 'let ghost vm = vlblmax', 'let ghost vs = velosum', 'let ghost dm = degrmax']),
   2: L(G(LAYO + SAT + STREAM + sn(NUMS) + [f'{B} <= vertnum < {N}', f'{B} <= edgenum', f'{m(VT, "vertnum")} <= edgenum <= degrval', 'degrval <= edgennd', f'edgennd = {B} + {GM_}', f'm_inps[0] = {PA("vertnum", "edgenum")}', f'vlblmax >= {N} - 1', f'{LB} <> 0 -> forall v [{m(LB, "v")}]. {B} <= v <= vertnum -> {m(LB, "v")} <= vlblmax']
      + BADJ + PROP + sn(HEADS('vertnum + 1', f'(if v = vertnum then degrval else {NXF})')) + sn(ARCS(f'{B} <= v <= vertnum', f'(if v = vertnum then edgenum else {NXF})', False)) + MONO('vertnum + 1')[:2] + [f'{m(VT, B)} = {B}'] + VSUM('(vertnum + 1)', 'edgenum') + [DEGM(f'(if v = vertnum then degrval else {NXF})', 'vertnum + 1'), 'degrmax >= 0']), 'degrval - edgenum', cut=G(CUT2) + RAIS, before=[OPEN('vertnum', 'edgenum'), OPEN('(vertnum + 1)', 'edgenum')],
      begin=['let ghost mj = m_int', 'let ghost j1 = m_inps[0]', 'let ghost es = edlosum'], bodycut=G(BCUT2) + RAIS, end=END2)}),
]

# ---- mappings and orderings
TABG = '(if band m_uint[libgrafptr] 16384 <> 0 then f_ContextContainer_dataptr[libgrafptr] else libgrafptr)'
K_ = '(old m_outs)[0]'
def PAIRS(hi, b, first, second):
    r = f'(row {K_} {b} v)'
    return [f'forall v [row {K_} {b} v]. {b} <= v < {hi} -> m_out[{r}] = {first}', f'forall v [row {K_} {b} v]. {b} <= v < {hi} -> m_out[{r} + 1] = {second}']
def saver(name, file, n, b, nnd, first, second, ctr='vertnum', base=None, req=(), begin=(), **kw):
    P1, P2 = PAIRS(nnd, b, first, second)
    q = [f'm_out[{K_}] = {n}']
    return Fn(name, file, mode='ideal', io=True, requires=['m_outs[1] = 1', f'{n} >= 0'] + list(req), begin=list(begin),
      ensures=[('success or failure', 'result = 0 \\/ result = 1'), ('number of lines', f'result = 0 -> {q[0]}'), ('vertices', f'result = 0 -> {P1}'), ('values', f'result = 0 -> {P2}'), ('nothing else in the file', f'result = 0 -> m_outs[0] = {K_} + 1 + 2 * {n} /\\ m_outs[1] = 1'), ('what was in the file before is kept', KEEP[0])],
      loops={1: L(q + KEEP + [f'{b} <= {ctr} <= {nnd}', 'm_outs[1] = 1', f'm_outs[0] = {K_} + 1 + 2 * ({ctr} - {b})'] + PAIRS(ctr, b, first, second), f'{nnd} - {ctr}')}, **kw)
TB = f'f_Graph_baseval[{TABG}]'
MG = 'mappptr.grafptr'
FNS += [
 saver('SCOTCH_graphTabSave', 'libscotch/library_graph_map_io.c', f'f_Graph_vertnbr[{TABG}]', TB, f'f_Graph_vertnnd[{TABG}]', f'(if f_Graph_vlbltax[{TABG}] <> 0 then m_int[ix f_Graph_vlbltax[{TABG}] v] else v)', f'm_int[ix parttab (v - {TB})]', req=[f'f_Graph_vertnnd[{TABG}] = {TB} + f_Graph_vertnbr[{TABG}]']),
 Fn('archDomNum', 'libscotch/mapping_io.c', trusted=True, pnames=['archptr', 'domnptr'], ensures=['result = dnum archptr f_ArchDom_cell[domnptr]']),
 saver('mapSave', 'libscotch/mapping_io.c', f'{MG}.vertnbr', f'{MG}.baseval', f'({MG}.baseval + {MG}.vertnbr)', f'(if {MG}.vlbltax <> 0 then m_int[ix {MG}.vlbltax v] else v)', f'(if mappptr.parttax <> 0 then dnum mappptr.archptr f_ArchDom_cell[ix mappptr.domntab m_int[ix mappptr.parttax v]] else -1)'),
]
THEORIES.append(os.path.join(TH, 'place.mlw'))
PM, PM0 = (lambda i: f'm_int[ix permtab {i}]'), (lambda i: f'{OM}[ix permtab {i}]')
PI = lambda j: f'{OM}[ix ordeptr.peritab {j}]'
OB, ON = 'ordeptr.baseval', 'ordeptr.vnodnbr'
LAB = lambda v: f'(if vlbltax <> 0 then {OM}[ix vlbltax ({v})] else {v})'
OKEEP = f'forall a [m_int[a]]. a < old hp -> m_int[a] = {OM}[a]'
def OROW(hi): return [f'forall v [row {K_} {OB} v]. {OB} <= v < {OB} + {hi} -> m_out[row {K_} {OB} v] = {LAB("v")} /\\ m_out[row {K_} {OB} v + 1] = {LAB(f"m_int[ix permtab (v - {OB})]").replace(OM, "m_int")}']
OL = L([f'm_out[{K_}] = {ON}'] + KEEP + [f'0 <= vertnum <= {ON}', 'm_outs[1] = 1', f'm_outs[0] = {K_} + 1 + 2 * vertnum', OKEEP] + OROW('vertnum'), f'{ON} - vertnum')
FNS += [
 Fn('orderPeri', 'libscotch/order.c',
  requires=['forall i. 0 <= i < permnbr -> permbas <= m_int[ix permtab i] < permbas + permnbr', 'forall i j. 0 <= i < permnbr -> 0 <= j < permnbr -> m_int[ix permtab i] = m_int[ix permtab j] -> i = j', 'permtab + permnbr <= peritab \\/ peritab + permnbr <= permtab'],
  ensures=[('inverse permutation', f'forall i [{PM("i")}]. 0 <= i < permnbr -> m_int[ix peritab ({PM("i")} - permbas)] = i + peribas'), ('given permutation and all other data unchanged', f'forall a. not (peritab <= a < peritab + permnbr) -> m_int[a] = {OM}[a]')],
  loops={1: L(inv=['0 <= permnum', 'permnum <= permnbr \\/ permnbr < 0', f'forall i [{PM("i")}]. 0 <= i < permnum -> m_int[ix peritab ({PM("i")} - permbas)] = i + peribas', f'forall a. not (peritab <= a < peritab + permnbr) -> m_int[a] = {OM}[a]', f'forall i [{PM("i")}]. 0 <= i < permnbr -> {PM("i")} = {PM0("i")}'], var='permnbr - permnum')}),
 Fn('orderSave', 'libscotch/order_io.c', mode='ideal', io=True, requires=['m_outs[1] = 1', f'{ON} >= 0', 'hp > 0', f'ordeptr.peritab + {ON} <= hp', f'vlbltax <> 0 -> vlbltax + {OB} + {ON} <= hp',
    f'forall i. 0 <= i < {ON} -> {OB} <= m_int[ix ordeptr.peritab i] < {OB} + {ON}', f'forall i j. 0 <= i < {ON} -> 0 <= j < {ON} -> m_int[ix ordeptr.peritab i] = m_int[ix ordeptr.peritab j] -> i = j'],
  ensures=[('success or failure', 'result = 0 \\/ result = 1'), ('number of lines', f'result = 0 -> m_out[{K_}] = {ON}'), ('vertices', f'result = 0 -> forall v [row {K_} {OB} v]. {OB} <= v < {OB} + {ON} -> m_out[row {K_} {OB} v] = {LAB("v")}'),
    ('rank of each vertex', f'result = 0 -> forall j [{PI("j")}]. 0 <= j < {ON} -> m_out[row {K_} {OB} {PI("j")} + 1] = {LAB(f"(j + {OB})")}'), ('nothing else in the file', f'result = 0 -> m_outs[0] = {K_} + 1 + 2 * {ON} /\\ m_outs[1] = 1'), ('what was in the file before is kept', KEEP[0]), ('nothing else is changed', OKEEP)],
  loops={1: OL, 2: OL}),
]

BOUNDED = ['SCOTCH_graphTabLoad, SCOTCH_graphMapLoad, orderLoad, orderSaveMap, orderSaveTree', 'Chaco, Matrix Market and Scotch geometry files', 'refusal of arbitrary damaged files (the proofs cover the values stored on success)']
ASSUME = ['stream model: what fprintf writes with %d is, at the place where it stands, a number that intLoad decodes to the same value; one stream per function', 'graphFree and graphCheck, called by graphLoad on its failing paths, write nothing that its contract mentions', 'base value of the file nonnegative and smaller than any heap address', 'archDomNum: an uninterpreted function of the domain']
NOTE = 'Proved for all inputs: graphSave writes the layout of the format (theory/files.mlw), graphLoad with graphLoad2 and intLoad reads any text of that layout into arrays that hold the same values, down to the characters of the numbers; lemma same_rank gives the round trip. Also SCOTCH_graphTabSave, mapSave, orderSave. The readers of mappings and orderings and the other formats are executed on bounded cases.'
