import os
from c2why import Fn, L
TH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'theory')
THEORIES = [os.path.join(TH, 'ordtree.mlw')]
NATIVE = [{'src': 'order.c', 'budget': 60}]
TV, VN, CN, CT = ('f_OrderCblk_' + x for x in ('typeval', 'vnodnbr', 'cblknbr', 'cblktab'))
T4, T3, T2 = f'{TV} {VN} {CN} {CT}', f'{TV} {CN} {CT}', f'{CN} {CT}'
OM = '(old m_int)'
ACY, TOK = f'acyc {T2}', f'tok {T4} cblkptr'
LV = lambda p: f'leaves {T2} {p}'
LS = lambda i: f'lsum {T2} cblkptr ({i})'
KID = lambda i: f'(ix {CT}[cblkptr] ({i}))'
TREE = 'ordeptr.cblktre'
Bo, No = 'ordeptr.baseval', 'ordeptr.vnodnbr'
PT = 'ordeptr.peritab'
PERM = lambda m: f'''(forall i [{m}[ix {PT} i]]. 0 <= i < {No} -> {Bo} <= {m}[ix {PT} i] < {Bo} + {No}) /\\
  (forall i j [{m}[ix {PT} i], {m}[ix {PT} j]]. 0 <= i < {No} -> 0 <= j < {No} -> {m}[ix {PT} i] = {m}[ix {PT} j] -> i = j) /\\
  (forall v [used {m} {PT} {No} v]. {Bo} <= v < {Bo} + {No} -> used {m} {PT} {No} v)'''
CHK = f'''{No} = {VN}[{TREE}] /\\ 0 <= ordeptr.cblknbr <= ordeptr.treenbr /\\ ({PERM(OM)}) /\\ tok {T4} ({TREE}) /\\
  ordeptr.cblknbr = leaves {T2} ({TREE}) /\\ ordeptr.treenbr = nodes {T2} ({TREE})'''
K0, N0 = 'm_int[cblknbr]', 'm_int[treenbr]'
FILE, CFILE = 'libscotch/order.c', 'libscotch/order_check.c'
PM = lambda i: f'm_int[ix permtab ({i})]'
PM0 = lambda i: f'(old m_int)[ix permtab ({i})]'
R0, O0 = '(old m_p_int)[rangppt]', '(old m_int)[ordeppt]'
def RANG(n, ls):          # first ls ranges written
    return [f'm_p_int[rangppt] = {R0} + {ls}', f'm_int[ordeppt] = {O0} + {n}',
            f'forall x [m_int[x]]. {R0} <= x < {R0} + {ls} -> m_int[x] = {O0} + lstart {VN} {T2} cblkptr (x - {R0})',
            f'forall x [m_int[x]]. x <> ordeppt -> not ({R0} <= x < {R0} + {ls}) -> m_int[x] = {OM}[x]',
            'forall x. x <> rangppt -> m_p_int[x] = (old m_p_int)[x]']
Z = f'{OM}[cblaptr]'
B1 = f'({Z} - {LV("cblkptr")} + 1)'
def TREEI(lo):            # leaves from lo on have their fathers
    return [f'forall x [m_int[ix treetax x]]. {lo} <= x <= {Z} -> m_int[ix treetax x] = fath {T3} cblkptr (x - {B1}) {B1} FF',
            f'forall a [m_int[a]]. a <> cblaptr -> not (ix treetax {lo} <= a <= ix treetax {Z}) -> m_int[a] = {OM}[a]']
TL = [s.replace('FF', 'cbf0') for s in TREEI(f'(bb + {LS("cblknum + 1")})')] + [f'-1 <= cblknum < {CN}[cblkptr]', f'm_int[cblaptr] = bb + {LS("cblknum + 1")} - 1', f'lsum_ok cblknum' ]
TL = TL[:-1]
STEP = [f'assert {{ down {CT} cblkptr cblknum }}', f'assert {{ tok {T4} {KID("cblknum")} }}', f'leaves_pos {T4} {KID("cblknum")}', f'faths_at {T4} cblkptr {CN}[cblkptr] cblknum bb cbf0',
        f'lsum_mono {T4} cblkptr {CN}[cblkptr] (cblknum + 1)', f'toks_pre {T4} cblkptr {CN}[cblkptr] cblknum', f'lsum_pos {T4} cblkptr cblknum', f'assert {{ {LS("cblknum + 1")} = {LS("cblknum")} + {LV(KID("cblknum"))} }}']
FNS = [
 Fn('orderPeri', FILE,
  requires=['forall i. 0 <= i < permnbr -> permbas <= m_int[ix permtab i] < permbas + permnbr', 'forall i j. 0 <= i < permnbr -> 0 <= j < permnbr -> m_int[ix permtab i] = m_int[ix permtab j] -> i = j',
            'permtab + permnbr <= peritab \\/ peritab + permnbr <= permtab'],
  ensures=[('inverse permutation', f'forall i [{PM("i")}]. 0 <= i < permnbr -> m_int[ix peritab ({PM("i")} - permbas)] = i + peribas'),
           ('given permutation and all other data unchanged', f'forall a. not (peritab <= a < peritab + permnbr) -> m_int[a] = {OM}[a]')],
  loops={1: L(inv=['0 <= permnum', 'permnum <= permnbr \\/ permnbr < 0', f'forall i [{PM("i")}]. 0 <= i < permnum -> m_int[ix peritab ({PM("i")} - permbas)] = i + peribas',
                   f'forall a. not (peritab <= a < peritab + permnbr) -> m_int[a] = {OM}[a]',
                   f'forall i [{PM("i")}]. 0 <= i < permnbr -> {PM("i")} = {PM0("i")}'], var='permnbr - permnum')}),
 Fn('orderRang2', FILE,
  requires=[ACY, TOK, f'not (m_p_int[rangppt] <= ordeppt < m_p_int[rangppt] + {LV("cblkptr")})'],
  ensures=list(zip(['one range per block', 'ranges cover the vertices of the tree', 'blocks start where the previous one ends', 'other data unchanged', 'other pointers unchanged'], RANG(f'{VN}[cblkptr]', LV('cblkptr')))),
  variant='ht cblkptr',
  loops={1: L(inv=RANG(f'vsum {VN} {CT} cblkptr cblknum', LS('cblknum')) + [f'0 <= cblknum <= {CN}[cblkptr]'], var=f'{CN}[cblkptr] - cblknum',
     begin=[f'assert {{ down {CT} cblkptr cblknum }}', f'assert {{ tok {T4} {KID("cblknum")} }}', f'leaves_pos {T4} {KID("cblknum")}', f'lsts_at {T4} cblkptr {CN}[cblkptr] cblknum',
            f'lsum_mono {T4} cblkptr {CN}[cblkptr] (cblknum + 1)', f'toks_pre {T4} cblkptr {CN}[cblkptr] cblknum', f'lsum_pos {T4} cblkptr cblknum', f'assert {{ {LS("cblknum + 1")} = {LS("cblknum")} + {LV(KID("cblknum"))} }}'])}),
 Fn('orderRang', FILE,
  requires=[f'sp <= 0', 'rangtab > 0', ACY, f'tok {T4} ({TREE})'],
  ensures=[('ranges start at the base value', f'm_int[rangtab] = {Bo}'), ('ranges end after the last vertex', f'm_int[rangtab + {LV(TREE)}] = {Bo} + {VN}[{TREE}]'),
           ('no block is empty', f'forall x y. 0 <= x < y <= {LV(TREE)} -> m_int[rangtab + x] < m_int[rangtab + y]'),
           ('ranges are those of the leaves', f'forall x. 0 <= x < {LV(TREE)} -> m_int[rangtab + x] = {Bo} + lstart {VN} {T2} ({TREE}) x'),
           ('other data unchanged', f'forall a. a > 0 -> not (rangtab <= a <= rangtab + {LV(TREE)}) -> m_int[a] = {OM}[a]')],
  begin=[f'leaves_pos {T4} ({TREE})', f'lstart_all {T4} ({TREE})']),
 Fn('orderTree2', FILE,
  requires=[ACY, TOK, f'not (ix treetax (m_int[cblaptr] - {LV("cblkptr")} + 1) <= cblaptr <= ix treetax m_int[cblaptr])'],
  ensures=[('one block per leaf', f'm_int[cblaptr] = {B1} - 1')] + list(zip(['fathers follow the separators', 'other data unchanged'], [s.replace('FF', 'cbfanum') for s in TREEI(B1)])),
  variant='ht cblkptr', begin=['let ghost cbf0 = cbfanum', f'let ghost bb = m_int[cblaptr] - {LV("cblkptr")} + 1',
   f'if {CT}[cblkptr] <> 0 && {TV}[cblkptr] = 1 && {CN}[cblkptr] = 3 then begin assert {{ down {CT} cblkptr 2 }}; assert {{ tok {T4} {KID("2")} }}; leaves_pos {T4} {KID("2")}; toks_pre {T4} cblkptr 3 2; lsum_pos {T4} cblkptr 2; faths_at {T4} cblkptr 3 2 bb cbf0; assert {{ {LS("3")} = {LS("2")} + {LV(KID("2"))} }} end'],
  loops={1: L(inv=TL + [f'forall i. 0 <= i <= cblknum -> dfa {T3} cblkptr i bb cbf0 = cbfanum'], var='cblknum', begin=STEP),
         2: L(inv=TL + [f'cblknum >= 0 -> dfa {T3} cblkptr cblknum bb cbf0 = cbfanum'], var='cblknum', begin=STEP)}),
 Fn('orderTree', FILE,
  requires=['sp <= 0', 'treetab > 0', ACY, f'tok {T4} ({TREE})', f'ordeptr.cblknbr = {LV(TREE)}', f'{Bo} >= 0'],
  ensures=[('fathers follow the separators', f'forall x. 0 <= x < ordeptr.cblknbr -> m_int[ix treetab x] = fath {T3} ({TREE}) x {Bo} (-1)'),
           ('a father is a strictly later block or the block is a root', f'forall x. 0 <= x < ordeptr.cblknbr -> m_int[ix treetab x] = -1 \\/ x + {Bo} < m_int[ix treetab x] < {Bo} + ordeptr.cblknbr'),
           ('other data unchanged', f'forall a. a > 0 -> not (treetab <= a < treetab + ordeptr.cblknbr) -> m_int[a] = {OM}[a]')],
  begin=[f'leaves_pos {T4} ({TREE})', f'fath_all {T4} ({TREE}) {Bo} (-1)', f'assert {{ forall x [ix treetab x]. ix treetab x = ix (treetab - {Bo}) (x + {Bo}) }}']),
 Fn('orderCheck2', CFILE,
  requires=[ACY, 'cblknbr <> treenbr'],
  ensures=[('accepts exactly the valid block trees', f'result = 0 <-> {TOK}'),
           ('counts blocks', f'result = 0 -> {K0} = {OM}[cblknbr] + {LV("cblkptr")} - 1'), ('counts tree nodes', f'result = 0 -> {N0} = {OM}[treenbr] + nodes {T2} cblkptr - 1'),
           ('other data unchanged', f'forall a [m_int[a]]. a <> cblknbr -> a <> treenbr -> m_int[a] = {OM}[a]')],
  variant='ht cblkptr',
  loops={1: L(inv=[f'0 <= cblknum <= {CN}[cblkptr]', f'vnodnbr = vsum {VN} {CT} cblkptr cblknum', f'toks {T4} cblkptr cblknum',
     f'{K0} = {OM}[cblknbr] + {LS("cblknum")} + {CN}[cblkptr] - 1 - cblknum', f'{N0} = {OM}[treenbr] + nsum {T2} cblkptr cblknum + {CN}[cblkptr] - cblknum',
     f'forall a [m_int[a]]. a <> cblknbr -> a <> treenbr -> m_int[a] = {OM}[a]'], var=f'{CN}[cblkptr] - cblknum',
     begin=[f'assert {{ down {CT} cblkptr cblknum }}', f'assert {{ {TOK} -> tok {T4} {KID("cblknum")} }}', f'assert {{ toks {T4} cblkptr (cblknum + 1) <-> tok {T4} {KID("cblknum")} }}'])}),
 Fn('orderCheck', CFILE, allocok=True,
  requires=['sp <= 0', ACY, 'hp > 0', f'{PT} > 0 /\\ {PT} + {No} <= hp', f'{Bo} >= 0', f'{No} >= 0'],
  ensures=[('accepts only valid orderings', f'result = 0 -> {CHK}'), ('accepts every valid ordering', f'({CHK}) -> result = 0'),
           ('ordering unchanged', f'forall a. 0 < a < (old hp) -> m_int[a] = {OM}[a]')],
  loops={
   1: L(inv=[f'0 <= vertnum <= {No}', f'permtax = permtab - {Bo}', f'vertnnd = {Bo} + {No}', f'permtab >= (old hp) /\\ permtab > 0',
     f'forall a [m_int[a]]. a < permtab \\/ a >= permtab + {No} -> m_int[a] = {OM}[a]',
     f'forall i [{OM}[ix {PT} i]]. 0 <= i < vertnum -> {Bo} <= {OM}[ix {PT} i] < {Bo} + {No} /\\ m_int[ix permtax {OM}[ix {PT} i]] = i',
     f'forall v [m_int[ix permtab v]]. 0 <= v < {No} -> m_int[ix permtab v] = -1 \\/ (0 <= m_int[ix permtab v] < vertnum /\\ {OM}[ix {PT} m_int[ix permtab v]] = v + {Bo})'], var=f'{No} - vertnum',
     begin=[f'assert {{ m_int[ix {PT} vertnum] = {OM}[ix {PT} vertnum] }}', f'let ghost pv = m_int[ix {PT} vertnum]', f'assert {{ ix permtax pv = ix permtab (pv - {Bo}) }}']),
   2: L(inv=[f'0 <= vertnum <= {No}', f'permtab >= (old hp) /\\ permtab > 0', f'forall v [used {OM} {PT} {No} v]. {Bo} <= v < {Bo} + vertnum -> used {OM} {PT} {No} v'], var=f'{No} - vertnum',
     begin=[f'assert {{ ix permtab vertnum = ix permtax (vertnum + {Bo}) }}', f'assert {{ used {OM} {PT} {No} (vertnum + {Bo}) <-> m_int[ix permtab vertnum] <> -1 }}'])}),
]
NOTE = 'Proved for all inputs: tree walks, inverse permutation, range and tree arrays, and the exactness of orderCheck. Ordering methods themselves are executed on bounded cases against an independent oracle.'
BOUNDED = ['ordering methods (nd, cp, cc, gp, hd, hf, kp, si)', 'block splitting']
