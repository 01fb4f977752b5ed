import os
from c2why import Fn, L
TH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'theory')
THEORIES = [os.path.join(TH, 'colour.mlw')]
NATIVE = [{'src': 'color.c', 'budget': 40}]
F = 'libscotch/library_graph_color.c'
T = lambda n: Fn(n, F, trusted=True, writes=[])
G = '(if band m_uint[libgrafptr] 16384 <> 0 then f_ContextContainer_dataptr[libgrafptr] else libgrafptr)'
VT, VD, ET, GB, GN = (f'f_Graph_{x}[{G}]' for x in ('verttax', 'vendtax', 'edgetax', 'baseval', 'vertnbr'))
IN = lambda v, b='baseval', n='vertnnd': f'{b} <= {v} < {n}'
OM = '(old m_int)'
NOTC = lambda a: f'0 < {a} < hp /\\ not (colotab <= {a} < colotab + {GN})'
GRAPH = [f'forall v [m_int[ix {VT} v]]. {IN("v", GB, f"{GB} + {GN}")} -> {NOTC(f"ix {VT} v")}', f'forall v [m_int[ix {VD} v]]. {IN("v", GB, f"{GB} + {GN}")} -> {NOTC(f"ix {VD} v")}',
  f'forall v e [m_int[ix {VT} v], m_int[ix {ET} e]]. {IN("v", GB, f"{GB} + {GN}")} -> m_int[ix {VT} v] <= e < m_int[ix {VD} v] -> ({NOTC(f"ix {ET} e")}) /\\ {IN(f"m_int[ix {ET} e]", GB, f"{GB} + {GN}")} /\\ m_int[ix {ET} e] <> v',
  ]
SYM = f'forall v e [{OM}[ix {VT} v], {OM}[ix {ET} e]]. {IN("v", GB, f"{GB} + {GN}")} -> {OM}[ix {VT} v] <= e < {OM}[ix {VD} v] -> exists f. {OM}[ix {VT} {OM}[ix {ET} e]] <= f < {OM}[ix {VD} {OM}[ix {ET} e]] /\\ {OM}[ix {ET} f] = v'
C = lambda v, ct='colotax': f'm_int[ix {ct} {v}]'
CT = f'(colotab - {GB})'
ID = '(queunnd = vertnnd)'
LAY = ['queutax + baseval >= hp0', 'randtax + baseval >= queutax + baseval + vertnbr', 'hp0 > 0', 'hp0 >= colotab + vertnbr']
FRAME = [f'forall a [m_int[a]|{OM}[a]]. a < hp0 -> not (colotab <= a < colotab + vertnbr) -> m_int[a] = {OM}[a]']
ARCOK = lambda lim: f'forall v e [{C("v")}, m_int[ix edgetax e]]. {IN("v")} -> {C("v")} >= 0 -> m_int[ix verttax v] <= e < m_int[ix vendtax v] -> aok m_int edgetax colotax randtax v e'
COL = lambda hi: f'forall v [{C("v")}]. {IN("v")} -> -1 <= {C("v")} < {hi}'
USED = f'forall c [usedc m_int colotax baseval vertnnd c]. 0 <= c < colonum -> usedc m_int colotax baseval vertnnd c'
FNS = [T('contextInit'), T('contextOptionsInit'), T('contextCommit'), T('contextExit'), T('intRandVal'),
 Fn('SCOTCH_graphColor', F,
  requires=['hp > 0', f'colotab > 0 /\\ colotab + {GN} <= hp', f'not (colotab <= coloptr < colotab + {GN})', f'{GN} >= 0', f'{GB} >= 0'] + GRAPH,
  ensures=[('every colour lies in the range', f'result = 0 -> forall v. {IN("v", GB, f"{GB} + {GN}")} -> 0 <= {C("v", CT)} < m_int[coloptr]'),
           ('every colour of the range is used', f'result = 0 -> forall c. 0 <= c < m_int[coloptr] -> usedc m_int {CT} {GB} ({GB} + {GN}) c'),
           ('neighbours have different colours', f'result = 0 -> ({SYM}) -> forall v e. {IN("v", GB, f"{GB} + {GN}")} -> {OM}[ix {VT} v] <= e < {OM}[ix {VD} v] -> {C("v", CT)} <> {C(f"{OM}[ix {ET} e]", CT)}'),
           ('graph unchanged', f'forall a. 0 < a < (old hp) -> a <> coloptr -> not (colotab <= a < colotab + {GN}) -> m_int[a] = {OM}[a]')],
  begin=['let ghost hp0 = hp'],
  rets={2: [f'assert {{ o = 0 -> colotax = {CT} }}', f'assert {{ o = 0 -> m_int[coloptr] = colonum }}', f'assert {{ o = 0 -> forall v [ix colotax v]. {IN("v")} -> 0 <= {C("v")} < colonum }}']},
  loops={
   1: L(inv=[f'baseval <= vertnum <= vertnnd'] + LAY + FRAME + [f'forall v [{C("v")}]. {IN("v")} -> {C("v")} = -1'], var='vertnnd - vertnum'),
   2: L(inv=['baseval <= queunnd <= vertnnd', 'colonum >= 0'] + LAY + FRAME + [COL('colonum'), ARCOK(0), USED,
      f'forall i [qv m_int queutax {ID} i]. baseval <= i < queunnd -> {IN(f"(qv m_int queutax {ID} i)")} /\\ {C(f"(qv m_int queutax {ID} i)")} = -1 /\\ pos[qv m_int queutax {ID} i] = i',
      f'forall v [{C("v")}]. {IN("v")} -> {C("v")} = -1 -> baseval <= pos[v] < queunnd /\\ qv m_int queutax {ID} pos[v] = v'], var='queunnd - baseval', before=['let ghost ref pos = idm ()'],
      after=[f'assert {{ colotax = {CT} }}', f'assert {{ verttax = {VT} /\\ vendtax = {VD} /\\ edgetax = {ET} }}', f'assert {{ forall v [ix colotax v]. {IN("v")} -> 0 <= {C("v")} < colonum }}',
        f'assert {{ forall v e f. {IN("v")} -> m_int[ix verttax v] <= e < m_int[ix vendtax v] -> m_int[ix verttax m_int[ix edgetax e]] <= f < m_int[ix vendtax m_int[ix edgetax e]] -> m_int[ix edgetax f] = v -> {C("v")} <> {C("m_int[ix edgetax e]")} }}'],
      begin=['let ghost m1 = m_int', f'let ghost im = qmax m_int randtax queutax {ID} baseval queunnd', f'let ghost vm = pure {{ qv m1 queutax {ID} im }}'],
      ),
   3: L(inv=['baseval <= queunew <= queuold <= queunnd'] + LAY + FRAME + [COL('colonum + 1'), ARCOK(0), f'forall v [{C("v")}]. {IN("v")} -> m1[ix colotax v] >= 0 -> {C("v")} = m1[ix colotax v]',
      f'forall i [m_int[ix queutax i]]. queuold <= i < queunnd -> m_int[ix queutax i] = m1[ix queutax i]',
      f'forall v [m_int[ix randtax v]]. {IN("v")} -> m_int[ix randtax v] = m1[ix randtax v]',
      f'forall i [m_int[ix queutax i]]. baseval <= i < queunew -> {IN("m_int[ix queutax i]")} /\\ {C("m_int[ix queutax i]")} = -1 /\\ pos[m_int[ix queutax i]] = i',
      f'forall i [qv m1 queutax {ID} i]. queuold <= i < queunnd -> {C(f"(qv m1 queutax {ID} i)")} = -1 /\\ pos[qv m1 queutax {ID} i] = i',
      f'forall v [{C("v")}]. {IN("v")} -> {C("v")} = -1 -> (baseval <= pos[v] < queunew /\\ m_int[ix queutax pos[v]] = v) \\/ (queuold <= pos[v] < queunnd /\\ qv m1 queutax {ID} pos[v] = v)',
      f'forall v [{C("v")}]. {IN("v")} -> {C("v")} = -1 \\/ {C("v")} = colonum -> m1[ix colotax v] = -1',
      f'queuold > im -> {C("vm")} = colonum /\\ queunew < queuold'], var='queunnd - queuold',
      begin=[f'pos <- (let v0 = if {ID} then queuold else m_int[ix queutax queuold] in pos[v0 <- queunew])'],
      after=[f'assert {{ {C("vm")} = colonum }}', f'assert {{ usedc m_int colotax baseval vertnnd colonum }}', 'assert { forall c [usedc m_int colotax baseval vertnnd c]. 0 <= c -> usedc m1 colotax baseval vertnnd c -> usedc m_int colotax baseval vertnnd c }']),
   4: L(inv=['m_int[ix verttax vertnum] <= edgenum', 'edgenum <= edgennd \\/ edgennd < m_int[ix verttax vertnum]',
      f'forall e [m_int[ix edgetax e]]. m_int[ix verttax vertnum] <= e < edgenum -> 0 <= {C("m_int[ix edgetax e]")} < colonum \\/ klt m_int randtax m_int[ix edgetax e] vertnum'], var='edgennd - edgenum',
      before=[f'assert {{ vertnum = qv m1 queutax {ID} queuold }}', f'assert {{ {IN("vertnum")} }}'],
      begin=[f'assert {{ {IN("m_int[ix edgetax edgenum]")} }}'],
      after=['assert { queuold = im -> edgenum >= edgennd }'])}),
]
NOTE = 'Proved for all inputs and any random generator: SCOTCH_graphColor. Context and random generator calls assumed to write nothing of the graph.'
