import os
from c2why import Fn, L
TH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'theory')
THEORIES = [os.path.join(TH, 'sums.mlw'), os.path.join(TH, 'vgraph.mlw')]
NATIVE = [{'src': 'gcheck.c', 'budget': 40}]
VT, VD, ET, LT, WT = ('grafptr.' + x for x in ('verttax', 'vendtax', 'edgetax', 'edlotax', 'velotax'))
B, N = 'grafptr.baseval', 'grafptr.vertnnd'
OKV = lambda v: f'vertok m_int {VT} {VD} {ET} {LT} {WT} {B} {N} {v}'
OKA = lambda v, e: f'arcok m_int {VT} {VD} {ET} {LT} {B} {N} {v} {e}'
REV = lambda u, v, e, f: f'rev m_int {VT} {VD} {ET} {LT} {u} {v} {e} {f}'
VS = lambda z: f'(if {WT} = 0 then grafptr.vertnbr else psum m_int {WT} {B} {z})'
ES = lambda z: f'(if {LT} = 0 then grafptr.edgenbr else arcs m_int {VT} {VD} {LT} {B} {z})'
WF = f'''grafptr.vertnbr >= 0 /\\ grafptr.vertnbr = {N} - {B} /\\ grafptr.edgenbr >= 0 /\\ emod grafptr.edgenbr 2 = 0 /\\
  (forall v [{OKV('v')}]. {B} <= v < {N} -> {OKV('v')}) /\\ (forall v. {B} <= v < {N} -> m_int[ix {VD} v] - m_int[ix {VT} v] <= grafptr.degrmax) /\\ 0 <= grafptr.degrmax /\\
  degs m_int {VT} {VD} {B} {N} = grafptr.edgenbr /\\ {VS(N)} = grafptr.velosum /\\ {ES(N)} = grafptr.edlosum'''
O = ['grafptr.vertnbr >= 0 /\\ grafptr.vertnbr = vertnnd_ - baseval', 'grafptr.edgenbr >= 0 /\\ emod grafptr.edgenbr 2 = 0',
     f'{B} <= vertnum <= {N}']
O = [o.replace('vertnnd_', N) for o in O]
OUT = [f'forall v [{OKV("v")}]. {B} <= v < vertnum -> {OKV("v")}', f'forall v. {B} <= v < vertnum -> m_int[ix {VD} v] - m_int[ix {VT} v] <= degrmax', f'degrmax >= 0',
   f'degrmax = 0 \\/ (exists v. {B} <= v < {N} /\\ m_int[ix {VD} v] - m_int[ix {VT} v] = degrmax)', f'velosum = {VS("vertnum")}']
FNS = [
 Fn('graphCheck', 'libscotch/graph_check.c',
  ensures=[('accepts only well-formed graphs', f'result = 0 -> {WF}'), ('accepts every well-formed graph', f'({WF}) -> result = 0'), ('graph unchanged', 'm_int = (old m_int)')],
  loops={
   1: L(inv=O + OUT + [f'edgenbr = degs m_int {VT} {VD} {B} vertnum', f'edlosum = {ES("vertnum")}'], var=f'{N} - vertnum',
        begin=[f'assert {{ (forall v [{OKV("v")}]. {B} <= v < {N} -> {OKV("v")}) -> {OKV("vertnum")} }}']),
   2: L(inv=O + OUT + [f'vertnum < {N}', f'{B} <= m_int[ix {VT} vertnum] <= edgenum <= m_int[ix {VD} vertnum]', f'edgenbr = degs m_int {VT} {VD} {B} (vertnum + 1)', f'm_int[ix {VD} vertnum] - m_int[ix {VT} vertnum] <= degrmax',
      f'edlosum = (if {LT} = 0 then grafptr.edgenbr else arcs m_int {VT} {VD} {LT} {B} vertnum + psum m_int {LT} m_int[ix {VT} vertnum] edgenum)',
      f'forall e [{OKA("vertnum", "e")}]. m_int[ix {VT} vertnum] <= e < edgenum -> {OKA("vertnum", "e")}'], var=f'm_int[ix {VD} vertnum] - edgenum',
      begin=[f'assert {{ {OKV("vertnum")} -> {OKA("vertnum", "edgenum")} }}']),
   3: L(inv=[f'm_int[ix {VT} vertend] <= edgeend', f'forall g [m_int[ix {ET} g]]. m_int[ix {VT} vertend] <= g < edgeend -> m_int[ix {ET} g] <> vertnum'], var=f'm_int[ix {VD} vertend] - edgeend', after=[f'assert {{ edgeend >= m_int[ix {VD} vertend] -> not ({OKA("vertnum", "edgenum")}) }}']),
   4: L(inv=['f0 < edgeend', f'forall g [m_int[ix {ET} g]]. f0 < g < edgeend -> m_int[ix {ET} g] <> vertnum'], var=f'm_int[ix {VD} vertend] - edgeend',
      before=['let ghost f0 = edgeend - 1', f'assert {{ m_int[ix {ET} f0] = vertnum }}', f'assert {{ forall f. {REV("vertend", "vertnum", "edgenum", "f")} -> f = f0 }}'],
      after=[f'assert {{ edgeend >= m_int[ix {VD} vertend] -> {REV("vertend", "vertnum", "edgenum", "f0")} }}', f'assert {{ edgeend < m_int[ix {VD} vertend] -> not ({OKA("vertnum", "edgenum")}) }}']),
  }),
]
NOTE = 'Proved for all inputs: graphCheck accepts exactly the well-formed graphs (full contract, no trusted callee). Memory bounds assumed; checked on executed cases only.'
