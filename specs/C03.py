import os
from c2why import Fn, L
TH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'theory')
THEORIES = [os.path.join(TH, 'induce.mlw'), os.path.join(TH, 'inducesum.mlw')]
NATIVE = [{'src': 'induce.c', 'budget': 40}]
F = 'libscotch/graph_induce.c'
G, D = 'orggrafptr', 'indgrafptr'
OM = '(old m_int)'
b, nd = f'{G}.baseval', f'{G}.vertnnd'
vt, vd, et, lt, wt, gn = (f'{G}.{x}' for x in ('verttax', 'vendtax', 'edgetax', 'edlotax', 'velotax', 'vnumtax'))
it, vn = f'(old {D}.edlotax)', f'(old {D}.vnumtax)'
P = f'((old {D}.verttax) + {b})'
n = 'indvertnbr'
def GRAPH(P, m='m_int'):       # the original graph lies below address P
    r = [f'forall v [ix {a} v]. {c}{b} <= v < {nd} -> 0 < ix {a} v < {P}' for a, c in ((vt, ''), (vd, ''), (wt, f'{wt} <> 0 -> '), (gn, f'{gn} <> 0 -> '))]
    return r + [f'forall v [{m}[ix {vt} v]]. {b} <= v < {nd} -> {m}[ix {vt} v] <= {m}[ix {vd} v]',
        f'forall v e [{m}[ix {vt} v], {m}[ix {et} e]|{m}[ix {vt} v], {m}[ix {lt} e]]. {b} <= v < {nd} -> {m}[ix {vt} v] <= e < {m}[ix {vd} v] -> 0 < ix {et} e < {P} /\\ {b} <= {m}[ix {et} e] < {nd} /\\ ({lt} <> 0 -> 0 < ix {lt} e < {P})']
TA = lambda m, vt=vt, vd=vd, et=et, it=it, vn=vn: f'{m} {vt} {vd} {et} {it} {vn} {b}'
def SEL(m, it, vn):            # vn lists the selected vertices, it is its inverse
    return [f'forall i [{m}[ix {vn} i]]. {b} <= i < {b} + {n} -> {b} <= {m}[ix {vn} i] < {nd} /\\ {m}[ix {it} {m}[ix {vn} i]] = i',
            f'forall v [{m}[ix {it} v]]. {b} <= v < {nd} -> {m}[ix {it} v] <> -1 -> {b} <= {m}[ix {it} v] < {b} + {n} /\\ {m}[ix {vn} {m}[ix {it} v]] = v']
dv, dn, dw, de, dl = (f'{D}.{x}' for x in ('verttax', 'vnumtax', 'velotax', 'edgetax', 'edlotax'))
LAY = ['hp > 0', f'{G} <> {D}', f'{n} >= 0', f'{nd} = {b} + {G}.vertnbr', f'{G}.vertnbr >= 0', f'{D}.baseval = {b}', f'{D}.vertnbr = {n}', f'{D}.vertnnd = {b} + {n}',
  f'({dw} <> 0) <-> ({wt} <> 0)', f'0 < {dv} /\\ 0 <= {b}', f'{dn} >= {dv} + {n} + 1', f'{dw} <> 0 -> {dw} >= {dn} + {n}', f'{de} >= {dn} + {n}', f'{dw} <> 0 -> {de} >= {dw} + {n}',
  f'{dl} + {b} + {G}.vertnbr <= hp', f'{de} <> 0 /\\ {dv} <> 0 /\\ {dn} <> 0 /\\ {dl} <> 0', f'indedgenbr >= 0', f'{dl} >= {de} + indedgenbr', f'{lt} <> 0 -> {dl} >= {de} + 2 * indedgenbr',
  f'indedgenbr = dsum m_int {vt} {vd} {dn} {b} ({b} + {n})']
# with arc loads, the second array may start one cell later: there must then be room for it
PAR = f'{lt} <> 0 -> indedgenbr = 2 * gdiv indedgenbr 2 \\/ tot m_int {vt} {vd} {et} {dl} {dn} {b} ({b} + {n}) < indedgenbr'
ARCV = lambda k, e, vt=vt, vd=vd, vn=vn: f'{OM}[ix {vt} {OM}[ix {vn} {k}]] <= {e} < {OM}[ix {vd} {OM}[ix {vn} {k}]]'
T = lambda n, w=(): Fn(n, F, trusted=True, writes=list(w))
L_ = dict(vt='orgverttax', vd='orgvendtax', et='orgedgetax', it='orgindxtax', vn='indvnumtax')
TL = TA(OM, **L_)
TOT = lambda z: f'tot {TL} ({z})'
SLOT = lambda k, e: f'slot {TL} ({k}) ({e})'
KEPT = lambda e: f'kept {OM} orgedgetax orgindxtax {OM}[ix orgverttax orgvertnum] ({e})'
ALV = lambda k, e: ARCV(k, e, 'orgverttax', 'orgvendtax', 'indvnumtax')
PL = 'indverttax + indgrafptr.baseval'
OUT = [f'forall a [m_int[a]]. a < {PL} -> m_int[a] = {OM}[a]', f'forall v [m_int[ix orgindxtax v]]. {b} <= v < {nd} -> m_int[ix orgindxtax v] = {OM}[ix orgindxtax v]']
VNK = f'forall k [m_int[ix indvnumtax k]]. {b} <= k < {b} + {n} -> m_int[ix indvnumtax k] = {OM}[ix indvnumtax k]'
def DONE(z):
    return [f'forall k [m_int[ix indverttax k]]. {b} <= k < {z} -> m_int[ix indverttax k] = {b} + {TOT("k")}',
      f'indvelotax <> 0 -> forall k [m_int[ix indvelotax k]]. {b} <= k < {z} -> m_int[ix indvelotax k] = {OM}[ix orgvelotax {OM}[ix indvnumtax k]]',
      f'forall k e [{SLOT("k", "e")}]. {b} <= k < {z} -> {ALV("k", "e")} -> keep {OM} orgedgetax orgindxtax e -> m_int[ix indedgetax ({SLOT("k", "e")})] = {OM}[ix orgindxtax {OM}[ix orgedgetax e]]',
      f'indedlotax <> 0 -> forall k e [{SLOT("k", "e")}]. {b} <= k < {z} -> {ALV("k", "e")} -> keep {OM} orgedgetax orgindxtax e -> m_int[ix indedlotax ({SLOT("k", "e")})] = {OM}[ix orgedlotax e]']
BND = [f'indvelotax <> 0 -> indvelosum = vsum {OM} orgvelotax indvnumtax {b} indvertnum', f'indvelotax = 0 -> indvelosum = {n}']
TS = lambda z: f'tsum {OM} orgverttax orgvendtax orgedgetax orgindxtax orgedlotax indvnumtax {b} ({z})'
KS = lambda e: f'ksum {OM} orgedgetax orgindxtax orgedlotax {OM}[ix orgverttax orgvertnum] ({e})'
INNER = [f'{OM}[ix orgverttax orgvertnum] <= orgedgenum <= {OM}[ix orgvendtax orgvertnum]', f'indedgenum = {b} + {TOT("indvertnum")} + {KEPT("orgedgenum")}'] + OUT + [VNK] + DONE('indvertnum') + [
   f'm_int[ix indverttax indvertnum] = {b} + {TOT("indvertnum")}', f'indvelotax <> 0 -> m_int[ix indvelotax indvertnum] = {OM}[ix orgvelotax orgvertnum]',
   f'forall e [{SLOT("indvertnum", "e")}]. {OM}[ix orgverttax orgvertnum] <= e < orgedgenum -> keep {OM} orgedgetax orgindxtax e -> m_int[ix indedgetax ({SLOT("indvertnum", "e")})] = {OM}[ix orgindxtax {OM}[ix orgedgetax e]]']
INW = INNER + [f'forall e [{SLOT("indvertnum", "e")}]. {OM}[ix orgverttax orgvertnum] <= e < orgedgenum -> keep {OM} orgedgetax orgindxtax e -> m_int[ix indedlotax ({SLOT("indvertnum", "e")})] = {OM}[ix orgedlotax e]',
   f'indedlosum = {TS("indvertnum")} + {KS("orgedgenum")}']
STEP = [f'assert {{ forall v [ix orgindxtax v]. {b} <= v < {nd} -> ix orgindxtax v <> ix indedgetax indedgenum }}' if 0 else f'assert {{ ix indedgetax indedgenum < ix indedlotax {b} \\/ indedlotax = 0 \\/ indedgenum >= {b} + {TOT(f"{b} + {n}")} }}', f'assert {{ {b} <= orgvertnum < {nd} }}', f'assert {{ m_int[ix orgedgetax orgedgenum] = {OM}[ix orgedgetax orgedgenum] }}', f'assert {{ m_int[ix orgindxtax m_int[ix orgedgetax orgedgenum]] = {OM}[ix orgindxtax {OM}[ix orgedgetax orgedgenum]] }}', f'assert {{ {OM}[ix orgverttax orgvertnum] <= orgedgenum < {OM}[ix orgvendtax orgvertnum] }}', f'assert {{ {SLOT("indvertnum", "orgedgenum")} = indedgenum }}',
   f'assert {{ keep {OM} orgedgetax orgindxtax orgedgenum -> {b} <= indedgenum < {b} + {TOT(f"{b} + {n}")} }}',
   f'assert {{ {KEPT("orgedgenum + 1")} = {KEPT("orgedgenum")} + (if {OM}[ix orgindxtax {OM}[ix orgedgetax orgedgenum]] <> -1 then 1 else 0) }}',
   f'assert {{ forall e [{SLOT("indvertnum", "e")}]. {OM}[ix orgverttax orgvertnum] <= e < orgedgenum -> keep {OM} orgedgetax orgindxtax e -> {SLOT("indvertnum", "e")} < indedgenum }}']
LAST = [f'assert {{ {x} }}' for x in DONE('iv')] + [f'assert {{ {OM}[ix indvnumtax iv] = orgvertnum }}', f'assert {{ m_int[ix indverttax iv] = {b} + {TOT("iv")} }}'] + [f'assert {{ {x.replace(f"{b} <= k < iv", "k = iv")} }}' for x in DONE('iv')] + [f'assert {{ forall k. {b} <= k < indvertnum -> {b} <= k < iv \\/ k = iv }}']
TO = TA(OM)
KEEP1 = f'forall a [m_int[a]]. a < (old hp) -> not (ix indvnumtax {b} <= a < ix indvnumtax ({b} + {n})) -> a <> ix indverttax ({b} + {n}) -> m_int[a] = m1[a]'
def POST(c, pre, TO, it, vn):
    r0 = 'result = 0 -> '
    tot = lambda z: f'tot {TO} ({z})'
    slot = f'slot {TO} k e'
    ARC = lambda k, e: ARCV(k, e, vn=vn)
    return [('numbering', r0 + f'{D}.baseval = {b} /\\ {D}.vertnbr = {n} /\\ {D}.vertnnd = {b} + {n} /\\ {D}.vendtax = {dv} + 1 /\\ {D}.edgenbr = {tot(f"{b} + {n}")} /\\ {D}.degrmax = {G}.degrmax'),
     ('arc ranges count the kept arcs', r0 + f'forall k [m_int[ix {dv} k]]. {b} <= k <= {b} + {n} -> m_int[ix {dv} k] = {b} + {tot("k")}'),
     ('kept arcs lead to the renumbered neighbours', r0 + f'forall k e [{slot}]. {b} <= k < {b} + {n} -> {ARC("k", "e")} -> keep {OM} {et} {it} e -> m_int[ix {de} ({slot})] = {OM}[ix {it} {OM}[ix {et} e]]'),
     ('kept arcs keep their loads', r0 + f'(({dl} <> 0) <-> ({lt} <> 0)) /\\ ({lt} <> 0 -> forall k e [{slot}]. {b} <= k < {b} + {n} -> {ARC("k", "e")} -> keep {OM} {et} {it} e -> m_int[ix {dl} ({slot})] = {OM}[ix {lt} e])'),
     ('every induced arc is a kept arc', r0 + f'forall k j [m_int[ix {dv} k], m_int[ix {de} j]]. {b} <= k < {b} + {n} -> m_int[ix {dv} k] <= j < m_int[ix {dv} (k + 1)] -> kidx {OM} {et} {it} {OM}[ix {vt} {OM}[ix {vn} k]] {OM}[ix {vd} {OM}[ix {vn} k]] (j - m_int[ix {dv} k])'),
     ('vertex loads', r0 + f'(({dw} <> 0) <-> ({wt} <> 0)) /\\ ({wt} <> 0 -> {D}.velosum = vsum {OM} {wt} {vn} {b} ({b} + {n}) /\\ forall k [m_int[ix {dw} k]]. {b} <= k < {b} + {n} -> m_int[ix {dw} k] = {OM}[ix {wt} {OM}[ix {vn} k]]) /\\ ({wt} = 0 -> {D}.velosum = {n})'),
     ('arc load sum', r0 + f'{D}.edlosum = if {lt} <> 0 then tsum {OM} {vt} {vd} {et} {it} {lt} {vn} {b} ({b} + {n}) else {tot(f"{b} + {n}")}'),
     ('original vertex numbers', r0 + f'forall k [m_int[ix {dn} k]]. {b} <= k < {b} + {n} -> m_int[ix {dn} k] = if {gn} <> 0 then {OM}[ix {gn} {OM}[ix {vn} k]] else {OM}[ix {vn} k]')]
LAYR = f'{dv} + {b} >= (old hp) /\\ {dv} > 0 /\\ {dn} >= {dv} + indvertnbr + 1 /\\ (({dw} <> 0) <-> ({wt} <> 0)) /\\ ({dw} <> 0 -> {dw} >= {dn} + indvertnbr /\\ {de} >= {dw} + indvertnbr) /\\ {de} >= {dn} + indvertnbr /\\ {dl} >= {de} /\\ {dl} + {b} + {G}.vertnbr <= hp'
GF = ('baseval', 'vertnbr', 'vertnnd', 'verttax', 'vendtax', 'velotax', 'velosum', 'vnumtax', 'edgenbr', 'edgetax', 'edlotax', 'edlosum', 'degrmax')
SAMEG = ('original graph structure unchanged', ' /\\ '.join(f'{G}.{x} = (old {G}.{x})' for x in GF))
WELL = ['hp > 0', f'{G} <> {D}', f'0 <= {b} < hp', f'{nd} = {b} + {G}.vertnbr', f'{G}.vertnbr >= 0', f'{G}.degrmax >= 0', f'{G}.edgenbr = degs m_int {vt} {vd} {b} {nd}',
  f'forall v [m_int[ix {vt} v]]. {b} <= v < {nd} -> m_int[ix {vd} v] - m_int[ix {vt} v] <= {G}.degrmax', f'symc m_int {vt} {vd} {et} {b} {nd}'] + GRAPH('hp')
POST3 = POST('', '', TO, it, vn) + [SAMEG, ('original graph unchanged', f'forall a. a < {P} -> m_int[a] = {OM}[a]')]
def GPOST(n_):
    global n
    sn, n = n, n_
    r = POST('', '', TA('gmem', it='gidx', vn='gsel'), 'gidx', 'gsel')
    r = [(a, t.replace(OM, 'gmem')) for a, t in r]
    r += [SAMEG, ('selection is numbered', 'result = 0 -> ' + ' /\\ '.join(f'({x})' for x in SEL('gmem', 'gidx', 'gsel'))),
          ('numbering keeps the input data', f'result = 0 -> forall a [gmem[a]]. a < (old hp) -> gmem[a] = {OM}[a]'), ('input data unchanged', f'forall a [m_int[a]]. a < (old hp) -> m_int[a] = {OM}[a]')]
    n = sn
    return r
GHOSTCALL = ['gmem <- m_int', 'gidx <- orgindxtax', 'gsel <- indvnumtax',
  f'degs_frame m0 m_int orgverttax orgvendtax {b} {nd}', f'dsum_msum m_int orgverttax orgvendtax orgindxtax indvnumtax {b} indvnumnbr {nd} ({b} + indvnumnbr)',
  f'msum_le m_int orgverttax orgvendtax orgindxtax ({b} + indvnumnbr) {b} {nd}', f'dsum_degr m_int orgverttax orgvendtax indvnumtax {b} ({b} + indvnumnbr) {G}.degrmax',
  f'assert {{ forall v e [m_int[ix orgverttax v], m_int[ix {et} e]]. {b} <= v < {nd} -> m_int[ix orgverttax v] <= e < m_int[ix orgvendtax v] -> m_int[ix {et} e] = m0[ix {et} e] }}',
  f'assert {{ forall v e [m_int[ix orgverttax v], m_int[ix {et} e]|m_int[ix orgverttax v], m_int[ix {lt} e]]. {b} <= v < {nd} -> m_int[ix orgverttax v] <= e < m_int[ix orgvendtax v] -> 0 < ix {et} e < (old hp) /\\ {b} <= m_int[ix {et} e] < {nd} /\\ ({lt} <> 0 -> 0 < ix {lt} e < (old hp)) }}',
  f'assert {{ (old hp) <= {D}.verttax + {b} }}',
  *[f'assert {{ {x.replace("+ indvertnbr", "+ indvnumnbr")} }}' for x in SEL('m_int', 'orgindxtax', 'indvnumtax')], f'assert {{ numbered m_int orgverttax orgvendtax {et} orgindxtax indvnumtax {b} indvnumnbr {nd} }}',
  f'symc_frame m0 m_int orgverttax orgvendtax {et} {b} {nd}', f'let ghost ee = tot_even m_int orgverttax orgvendtax {et} orgindxtax indvnumtax {b} indvnumnbr {nd}',
  f'tot_pos m_int orgverttax orgvendtax {et} orgindxtax indvnumtax {b} ({b} + indvnumnbr)']
GRET = [f'assert {{ {x.replace("+ indvertnbr", "+ indvnumnbr")} }}' for x in SEL('gmem', 'gidx', 'gsel')]
PC = lambda z: f'pcnt m_uchar orgparttax indpartval {b} ({z})'
FNS = [T('graphCheck'), Fn('graphExit', F, pnames=['grafptr'], trusted=True, writes=['f_Graph_' + x for x in GF], ensures=[('other graphs unchanged', ' /\\ '.join(f'(forall p. p <> grafptr -> f_Graph_{x}[p] = (old f_Graph_{x})[p])' for x in GF))]),
 Fn('graphInduce3', F, uses=['induce'], requires=LAY + [PAR] + GRAPH(f'{dv} + {b}') + SEL('m_int', dl, dn),
  ensures=POST3,
  begin=['let ghost ref m1 = m_int', f'slot_lt {TA("m_int", it=dl, vn=dn)} ({b} + {n})', f'tot_pos {TA("m_int", it=dl, vn=dn)} ({b} + {n})'],
  rets={2: [f'assert {{ {KEEP1} }}', f'assert {{ m_int[ix indverttax ({b} + {n})] = {b} + {TOT(f"{b} + {n}")} }}', f'assert {{ forall k [ix indverttax k]. {b} <= k < {b} + {n} -> m_int[ix indverttax k] = {b} + {TOT("k")} }}',
    f'assert {{ forall k [ix indverttax k]. k = {b} + {n} -> m_int[ix indverttax k] = {b} + {TOT("k")} }}',
    f'assert {{ indedgetax = (old indgrafptr.edgetax) }}',
    f'assert {{ orgedlotax = 0 -> forall j [ix indgrafptr.edgetax j]. {b} <= j < {b} + {TOT(f"{b} + {n}")} -> m_int[ix indgrafptr.edgetax j] = m_int[ix indedgetax j] }}',
    f'assert {{ orgedlotax <> 0 -> forall j [ix indgrafptr.edgetax j]. {b} <= j < {b} + {TOT(f"{b} + {n}")} -> m_int[ix indgrafptr.edgetax j] = m_int[ix indedgetax j] }}',
    f'assert {{ orgedlotax <> 0 -> indgrafptr.edlotax = indgrafptr.edgetax + (indedlotax - indedgetax) /\\ indedlotax >= indedgetax }}', f'assert {{ orgedlotax <> 0 -> forall j [ix indedlotax j]. {b} <= j < {b} + {TOT(f"{b} + {n}")} -> ix indedlotax j < (old hp) }}',
    f'assert {{ orgedlotax <> 0 -> forall j [ix indgrafptr.edlotax j]. {b} <= j < {b} + {TOT(f"{b} + {n}")} -> m_int[ix indgrafptr.edlotax j] = m_int[ix indedlotax j] }}'] + [f'assert {{ {x} }}' for x in DONE(f'({b} + {n})')] + [f'assert {{ orgvnumtax <> 0 -> forall k [ix indvnumtax k]. {b} <= k < {b} + {n} -> m_int[ix indvnumtax k] = {OM}[ix orgvnumtax {OM}[ix indvnumtax k]] }}', f'assert {{ orgvnumtax = 0 -> forall k [ix indvnumtax k]. {b} <= k < {b} + {n} -> m_int[ix indvnumtax k] = {OM}[ix indvnumtax k] }}']},
  loops={
   1: L(before=[f'assert {{ indedlotax <> 0 -> indedlotax >= indedgetax + indedgenbr }}', f'assert {{ indedlotax <> 0 -> indedlotax + {TOT(f"{b} + {n}")} <= orgindxtax }}', f'assert {{ indedgetax + {TOT(f"{b} + {n}")} <= orgindxtax /\\ {TOT(f"{b} + {n}")} <= indedgenbr }}'],
      inv=[f'{b} <= indvertnum <= {b} + {n}', f'indedgenum = {b} + {TOT("indvertnum")}'] + OUT + [VNK] + DONE('indvertnum') + BND + [f'indedlotax <> 0 -> indedlosum = {TS("indvertnum")}'], var='indgrafptr.vertnnd - indvertnum',
      begin=['let ghost iv = indvertnum'], end=[f'assert {{ {TOT("indvertnum")} = {TOT("iv")} + kept {OM} orgedgetax orgindxtax {OM}[ix orgverttax orgvertnum] {OM}[ix orgvendtax orgvertnum] }}'] + LAST, after=['m1 <- m_int']),
   2: L(inv=INW, var=f'{OM}[ix orgvendtax orgvertnum] - orgedgenum', begin=STEP),
   3: L(inv=INNER, var=f'{OM}[ix orgvendtax orgvertnum] - orgedgenum', begin=STEP),
   4: L(inv=[f'{b} <= indvertnum <= {b} + {n}', KEEP1] + OUT + DONE(f'{b} + {n}') + [f'm_int[ix indverttax ({b} + {n})] = {b} + {TOT(f"{b} + {n}")}',
        f'forall k [m_int[ix indvnumtax k]]. indvertnum <= k < {b} + {n} -> m_int[ix indvnumtax k] = {OM}[ix indvnumtax k]', f'forall k [m_int[ix indvnumtax k]]. {b} <= k < indvertnum -> m_int[ix indvnumtax k] = {OM}[ix orgvnumtax {OM}[ix indvnumtax k]]'], var='indgrafptr.vertnnd - indvertnum'),
  }),

 Fn('graphInduce2', F, requires=['hp > 0', f'{G} <> {D}', '0 <= indvertnbr', f'0 <= {b} < hp', f'{G}.vertnbr >= 0', f'{G}.edgenbr >= 0', f'{G}.degrmax >= 0'],
  ensures=[('numbering', f'result = 0 -> {D}.baseval = {b} /\\ {D}.vertnbr = indvertnbr /\\ {D}.vertnnd = {b} + indvertnbr'),
   ('arrays', f'result = 0 -> {LAYR}'),
   ('room for the arcs', f'result = 0 -> forall x. x <= {G}.edgenbr -> x <= indvertnbr * {G}.degrmax -> {dl} >= {de} + (if {lt} <> 0 then 2 * x else x)'), SAMEG]),

 Fn('graphInduceList', F, wp=True, pnames=['orggrafptr', 'indvnumnbr', 'indvnumtab', 'indgrafptr'],
  requires=WELL + [f'0 <= indvnumnbr', f'0 < indvnumtab /\\ indvnumtab + indvnumnbr <= hp', f'forall i [m_int[ix indvnumtab i]]. 0 <= i < indvnumnbr -> {b} <= m_int[ix indvnumtab i] < {nd}',
    f'forall i j [m_int[ix indvnumtab i], m_int[ix indvnumtab j]]. 0 <= i < indvnumnbr -> 0 <= j < indvnumnbr -> m_int[ix indvnumtab i] = m_int[ix indvnumtab j] -> i = j'],
  ensures=GPOST('indvnumnbr') + [('vertices are the listed ones', f'result = 0 -> listed gmem gsel {OM} indvnumtab {b} indvnumnbr')],
  begin=['let ghost m0 = m_int', f'let ghost gb = {b}', f'msum_le m_int {vt} {vd} 0 0 {b} {nd}'],
  loops={1: L(inv=[f'{b} <= indvertnum <= indvertnnd', f'indedgenbr = dsum m_int orgverttax orgvendtax indvnumtax {b} indvertnum',
     f'forall a [m_int[a]]. a < (old hp) -> m_int[a] = {OM}[a]', f'forall i [m_int[ix indvnumtax i]]. {b} <= i < {b} + indvnumnbr -> m_int[ix indvnumtax i] = {OM}[ix indvnumtab (i - {b})]',
     f'forall v [m_int[ix orgindxtax v]]. {b} <= v < {nd} -> m_int[ix orgindxtax v] <> -1 -> {b} <= m_int[ix orgindxtax v] < indvertnum /\\ m_int[ix indvnumtax m_int[ix orgindxtax v]] = v',
     f'forall i [m_int[ix indvnumtax i]]. {b} <= i < indvertnum -> m_int[ix orgindxtax m_int[ix indvnumtax i]] = i'], var='indvertnnd - indvertnum',
     before=[f'assert {{ forall v [{OM}[ix orgverttax v]]. {b} <= v < {nd} -> m_int[ix orgverttax v] = {OM}[ix orgverttax v] /\\ m_int[ix orgvendtax v] = {OM}[ix orgvendtax v] }}', f'assert {{ ix indvnumtax {b} >= (old hp) /\\ orgindxtax >= indvnumtax + indvnumnbr }}'],
     begin=['let ghost m1 = m_int', 'let ghost ov = pure { m1[ix indvnumtax indvertnum] }', f'assert {{ {b} <= ov < {nd} }}'],
     end=[f'assert {{ m_int = m1[ix orgindxtax ov <- indvertnum - 1] }}', f'assert {{ forall i [m_int[ix indvnumtax i]|m1[ix indvnumtax i]]. {b} <= i < {b} + indvnumnbr -> m_int[ix indvnumtax i] = m1[ix indvnumtax i] }}',
      f'assert {{ forall v [ix orgverttax v]. {b} <= v < {nd} -> m_int[ix orgverttax v] = {OM}[ix orgverttax v] /\\ m_int[ix orgvendtax v] = {OM}[ix orgvendtax v] /\\ m1[ix orgverttax v] = {OM}[ix orgverttax v] /\\ m1[ix orgvendtax v] = {OM}[ix orgvendtax v] }}',
      f'assert {{ forall v [m_int[ix orgindxtax v]]. v <> ov -> m_int[ix orgindxtax v] = m1[ix orgindxtax v] }}',
      f'assert {{ m1[ix orgindxtax ov] = -1 }}',
      f'dsum_frame m1 m_int orgverttax orgvendtax indvnumtax {b} (indvertnum - 1)'],
     after=[f'assert {{ {b} = gb }}', 'assert { forall k [m_int[ix indvnumtax k]]. gb <= k < gb + indvnumnbr -> m_int[ix indvnumtax k] = m0[ix indvnumtab (k - gb)] }']+ ['assert { listed m_int indvnumtax m0 indvnumtab gb indvnumnbr }'] + GHOSTCALL)}, rets={2: GRET + [f'assert {{ {b} = gb }}']}),
 Fn('graphInducePart', F, wp=True, pnames=['orggrafptr', 'orgparttax', 'indvnumnbr', 'indpartval', 'indgrafptr'],
  requires=WELL + [f'indvnumnbr = {PC(nd)}'],
  ensures=GPOST('indvnumnbr') + [('exactly the vertices of the part', f'result = 0 -> forall v [gmem[ix gidx v]]. {b} <= v < {nd} -> (gmem[ix gidx v] <> -1 <-> m_uchar[ix orgparttax v] = indpartval)'),
     ('vertices in increasing order', f'result = 0 -> forall v [gmem[ix gidx v]]. {b} <= v < {nd} -> gmem[ix gidx v] <> -1 -> gmem[ix gidx v] = {b} + {PC("v")}')],
  begin=['let ghost m0 = m_int', f'msum_le m_int {vt} {vd} 0 0 {b} {nd}', f'pcnt_mono m_uchar orgparttax indpartval {b} {nd} {nd}'],
  loops={1: L(inv=[f'{b} <= orgvertnum <= {nd}', f'indvertnum = {b} + {PC("orgvertnum")}', f'indedgenbr = dsum m_int orgverttax orgvendtax indvnumtax {b} indvertnum',
     f'forall a [m_int[a]]. a < (old hp) -> m_int[a] = {OM}[a]',
     f'forall v [m_int[ix orgindxtax v]]. {b} <= v < orgvertnum -> (m_int[ix orgindxtax v] = -1 /\\ m_uchar[ix orgparttax v] <> indpartval) \\/ (m_uchar[ix orgparttax v] = indpartval /\\ m_int[ix orgindxtax v] = {b} + {PC("v")} /\\ {b} <= m_int[ix orgindxtax v] < indvertnum /\\ m_int[ix indvnumtax m_int[ix orgindxtax v]] = v)',
     f'forall i [m_int[ix indvnumtax i]]. {b} <= i < indvertnum -> {b} <= m_int[ix indvnumtax i] < orgvertnum /\\ m_int[ix orgindxtax m_int[ix indvnumtax i]] = i'], var=f'{nd} - orgvertnum',
     before=[f'assert {{ forall v [{OM}[ix orgverttax v]]. {b} <= v < {nd} -> m_int[ix orgverttax v] = {OM}[ix orgverttax v] /\\ m_int[ix orgvendtax v] = {OM}[ix orgvendtax v] }}', f'assert {{ ix indvnumtax {b} >= (old hp) /\\ orgindxtax >= indvnumtax + indvnumnbr }}'],
     begin=['let ghost m1 = m_int', 'let ghost ov = orgvertnum', 'let ghost iv = indvertnum', f'pcnt_mono m_uchar orgparttax indpartval {b} orgvertnum {nd}', f'pcnt_mono m_uchar orgparttax indpartval {b} (orgvertnum + 1) {nd}'],
     end=[f'assert {{ indvertnum <> iv -> m_int = m1[ix orgindxtax ov <- iv][ix indvnumtax iv <- ov] /\\ indvertnum = iv + 1 }}', f'assert {{ indvertnum = iv -> m_int = m1[ix orgindxtax ov <- -1] }}',
      f'assert {{ forall v [ix orgverttax v]. {b} <= v < {nd} -> m_int[ix orgverttax v] = {OM}[ix orgverttax v] /\\ m_int[ix orgvendtax v] = {OM}[ix orgvendtax v] /\\ m1[ix orgverttax v] = {OM}[ix orgverttax v] /\\ m1[ix orgvendtax v] = {OM}[ix orgvendtax v] }}',
      f'assert {{ forall v [m_int[ix orgindxtax v]|m1[ix orgindxtax v]]. {b} <= v < ov -> m_int[ix orgindxtax v] = m1[ix orgindxtax v] }}',
      f'assert {{ forall i [m_int[ix indvnumtax i]|m1[ix indvnumtax i]]. {b} <= i < iv -> m_int[ix indvnumtax i] = m1[ix indvnumtax i] }}',
      f'dsum_frame m1 m_int orgverttax orgvendtax indvnumtax {b} iv'],
     after=GHOSTCALL)}, rets={2: GRET, 3: GRET}),
]
NOTE = 'Proved for all inputs: graphInduceList, graphInducePart and the functions they call. graphCheck and graphExit used through assumed frames; sums below overflow assumed.'
BOUNDED = ['SCOTCH_graphInduce* wrappers']
