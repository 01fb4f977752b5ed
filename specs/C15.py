import os
from c2why import Fn, L
TH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'theory')
THEORIES = [os.path.join(TH, 'matching.mlw')]
OM = '(old m_int)'
G = 'coarptr.finegrafptr'
B, N, VT, VD, ET = (f'{G}.{x}' for x in ('baseval', 'vertnnd', 'verttax', 'vendtax', 'edgetax'))
FM, FQ, DL, QN = 'coarptr.finematetax', 'thrdptr.finequeutab', 'finequeudlt', 'thrdptr.finequeunbr'
IN = lambda v: f'{B} <= {v} < {N}'
FR = f'(forall a [m_int[a]]. not (ix {FM} {B} <= a < ix {FM} {N}) -> m_int[a] = {OM}[a])'
KEEP = f'(forall v [m_int[ix {FM} v]]. {IN("v")} -> {OM}[ix {FM} v] >= 0 -> m_int[ix {FM} v] = {OM}[ix {FM} v])'
QP = lambda d, q: f'({d} = 1 \\/ oddn {q})'
MT = lambda q: f'm_int[ix {FM} {OM}[ix {FQ} {q}]] >= 0'
NOM = '(band coarptr.flagval 16384)'
D, NB = '(old thrdptr.finequeudlt)', '(old thrdptr.finequeunbr)'
def pre(s): return s.replace('(old ', '(').replace('(m_int)', 'm_int')
def Q1(d, n): return f'(if {d} = 1 then {n} else 1 + 2 * {n})'
def Q0(d): return f'(if {d} = 1 then 0 else 1)'
PF, PO, EL = 'coarptr.finepfixtax', 'coarptr.fineparotax', f'{G}.edlotax'
OUTM = lambda a: f'not (ix {FM} {B} <= {a} < ix {FM} {N})'
SAME = lambda v, w: f'({PF} = 0 \\/ {OM}[ix {PF} {w}] = {OM}[ix {PF} {v}]) /\\ ({PO} = 0 \\/ {OM}[ix {PO} {w}] = {OM}[ix {PO} {v}])'
MOK = lambda v, w: f'mateok {OM} {VT} {VD} {ET} {NOM} {v} {w}'
def match(name, fx, el):
    mate = lambda v: f'm_int[ix {FM} {v}]'
    NEW = f'(forall v [m_int[ix {FM} v]]. {IN("v")} -> {OM}[ix {FM} v] < 0 -> {mate("v")} >= 0 -> {MOK("v", mate("v"))}' + (f' /\\ {SAME("v", mate("v"))})' if fx else ')')
    CNT = f'reps m_int {FM} {B} {N} - coarvertnbr = reps {OM} {FM} {B} {N} - (old thrdptr.coarvertnbr)'
    st = [('mate array only', FR), ('valid matching', f'pm m_int {FM} {B} {N}'), ('mates kept', KEEP), ('new mates allowed', NEW), ('count', CNT)]
    S = [x for _, x in st]
    tail = f'forall q [{OM}[ix {FQ} q]]. finequeunnd <= q < q1 -> {QP(D, "q")} -> {MT("q")}'
    head = lambda z: f'forall q [{OM}[ix {FQ} q]]. q0 <= q < {z} -> {QP(D, "q")} -> {MT("q")}'
    pos = [f'q0 <= finequeunum /\\ finequeunum <= finequeunnd + {D} /\\ finequeunnd <= q1', f'{D} = 1 \\/ (oddn finequeunum /\\ oddn finequeunnd)']
    here = ['finequeunum < q1', f'finevertnum = {OM}[ix {FQ} finequeunum]', IN('finevertnum'), f'{mate("finevertnum")} < 0']
    inner = S + pos + [head('finequeunum'), tail] + here
    good = lambda w: f'({IN(w)} /\\ {mate(w)} < 0 /\\ {MOK("finevertnum", w)}' + (f' /\\ {SAME("finevertnum", w)})' if fx else ')')
    ini = ['let ghost q0 = finequeunum', 'let ghost q1 = finequeunnd', f'assert {{ q0 = {Q0(D)} /\\ q1 = {Q1(D, NB)} }}']
    req = [f'0 <= {B} <= {N}', pre(f'pm m_int {FM} {B} {N}'), f'forall v [m_int[ix {VT} v]]. {IN("v")} -> m_int[ix {VT} v] <= m_int[ix {VD} v]',
      f'forall v e [m_int[ix {VT} v], m_int[ix {ET} e]]. {IN("v")} -> m_int[ix {VT} v] <= e < m_int[ix {VD} v] -> {IN(f"m_int[ix {ET} e]")} /\\ {OUTM(f"(ix {ET} e)")}' + (f' /\\ m_int[ix {EL} e] >= 0 /\\ {OUTM(f"(ix {EL} e)")}' if el else ''),
      f'forall v [ix {VT} v]. {IN("v")} -> {OUTM(f"(ix {VT} v)")}', f'forall v [ix {VD} v]. {IN("v")} -> {OUTM(f"(ix {VD} v)")}',
      '(thrdptr.finequeudlt = 1 \\/ thrdptr.finequeudlt = 2) /\\ thrdptr.finequeunbr >= 0',
      f'forall q [m_int[ix {FQ} q]]. {Q0("thrdptr.finequeudlt")} <= q < {Q1("thrdptr.finequeudlt", QN)} -> {QP("thrdptr.finequeudlt", "q")} -> {IN(f"m_int[ix {FQ} q]")} /\\ {OUTM(f"(ix {FQ} q)")}']
    if fx: req += [f'forall v [ix {PF} v]. {IN("v")} -> {OUTM(f"(ix {PF} v)")}', f'forall v [ix {PO} v]. {IN("v")} -> {OUTM(f"(ix {PO} v)")}']
    rd = lambda q: [f'assert {{ m_int[ix {FQ} ({q})] = {OM}[ix {FQ} ({q})] }}']
    fin = [f'let ghost fv = pure {{ {OM}[ix {FQ} fq] }}', f'let ghost fw = pure {{ m_int[ix {FM} fv] }}',
      f'if pure {{ mh[ix {FM} fv] < 0 }} then begin assert {{ {IN("fw")} }}; assert {{ m_int[ix {FM} fw] = fv }}; assert {{ mh[ix {FM} fw] < 0 }}; assert {{ {MOK("fv", "fw")} }}; assert {{ forall v [m_int[ix {FM} v]]. {IN("v")} -> v <> fv -> v <> fw -> m_int[ix {FM} v] = mh[ix {FM} v] }}; pm_pair mh m_int {FM} {B} {N} fv fw; reps_pair mh m_int {FM} {B} {N} fv fw end',
      f'assert {{ {D} = 1 \\/ (oddn finequeunum /\\ oddn finequeunnd) }}', f'assert {{ {head("finequeunum")} }}', f'assert {{ forall q [{OM}[ix {FQ} q]]. finequeunnd <= q < q1 -> {QP(D, "q")} -> mh[ix {FM} {OM}[ix {FQ} q]] >= 0 \\/ {OM}[ix {FQ} q] = fw }}', f'assert {{ {tail} }}']
    return Fn(name, 'libscotch/graph_match.c', mode='ideal', requires=req,
      ensures=[(n, x.replace('- coarvertnbr =', '- thrdptr.coarvertnbr =') if n == 'count' else x) for n, x in st] +
        [('every queued vertex mated', f'forall q [{OM}[ix {FQ} q]]. {Q0(D)} <= q < {Q1(D, NB)} -> {QP(D, "q")} -> {MT("q")}'), ('queue emptied', 'thrdptr.finequeunbr = 0 /\\ thrdptr.finequeudlt = 1')],
      loops={1: L(inv=S + pos + [head('finequeunum'), tail, 'finequeunew = 0'], var='q1 - finequeunum', before=ini, begin=['let ghost mh = m_int', 'let ghost fq = finequeunum'] + rd('finequeunum'), end=fin),
        2: L(inv=inner + [f'isol {OM} {VT} {VD} finevertnum', f'{NOM} = 0'], var='finequeunnd', begin=rd(f'finequeunnd - {D}')),
        3: L(inv=inner + ['finequeunum <= finequisnnd <= finequeunnd', f'{D} = 1 \\/ oddn finequisnnd', 'finevertbst = finevertnum', f'forall q [{OM}[ix {FQ} q]]. finequisnnd <= q < finequeunnd -> {QP(D, "q")} -> {MT("q")}' if not fx else 'true'], var='finequisnnd', begin=rd(f'finequisnnd - {D}')),
        4: L(inv=inner + [f'{OM}[ix {VT} finevertnum] <= fineedgenum < {OM}[ix {VD} finevertnum]', f'fineedgennd = {OM}[ix {VD} finevertnum]', f'finevertbst = finevertnum \\/ {good("finevertbst")}'], var='fineedgennd - fineedgenum', begin=[f'assert {{ m_int[ix {ET} fineedgenum] = {OM}[ix {ET} fineedgenum] }}'])})
FNS = [match('graphMatchSeqNfNe', False, False), match('graphMatchSeqNfEl', False, True), match('graphMatchSeqFxNe', True, False), match('graphMatchSeqFxEl', True, True)]
