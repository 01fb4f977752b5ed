import os
from c2why import Fn, L
TH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'theory')
THEORIES = [os.path.join(TH, 'place.mlw')]
NATIVE = [{'src': 'map.c', 'budget': 80}, {'src': 'map.c', 'budget': 60, 'threads': 4}]
T = lambda n, f, w=(), **k: Fn(n, f, trusted=True, writes=list(w), **k)
OM = '(old m_int)'
RNG = lambda v, g: f'{g}.baseval <= {v} < {g}.vertnnd'

# ---- vertex numbers of (sub)graphs: vn a v = number, in the original graph, of vertex v of the graph whose array of original numbers is a
VN = lambda g, v, m='m_int': f'vn {m} {g}.vnumtax {v}'
def SUB(g, part, lo='vlo', hi='vhi'):      # original vertex numbers: distinct, in range, kept outside of the part array
    return [f'{g}.baseval <= {g}.vertnnd', f'forall v [{VN(g, "v")}]. {RNG("v", g)} -> {lo} <= {VN(g, "v")} < {hi} /\\ ({g}.vnumtax <> 0 -> not ({part} + {lo} <= ix {g}.vnumtax v < {part} + {hi}))',
            f'forall v [{VN(g, "v")}]. {RNG("v", g)} -> wh m_int {g}.vnumtax ({VN(g, "v")}) = v']
def setters(g, part, cond, val, n, nd=None, ctr='vertnum', hint=(), pre='', more=(), xinv=()):    # the cells of the vertices before ctr have been set, no other cell has changed
    nd = nd or f'{g}.vertnnd'
    def SET(hi):
        w = f'(wh {OM} {g}.vnumtax w)'
        return [f'forall w [m_int[ix {part} w]]. vlo <= w < vhi -> m_int[ix {part} w] = if {g}.baseval <= {w} < {hi} && {VN(g, w, OM)} = w && {cond(w)} then {val(w)} else {OM}[ix {part} w]',
                f'forall a [m_int[a]]. not ({part} + vlo <= a < {part} + vhi) -> m_int[a] = {OM}[a]']
    post = SET(nd)
    inv = [f'{g}.baseval <= {ctr}', f'{ctr} <= {nd}'] + SET(ctr)
    one = [f'assert {{ {RNG(ctr, g)} /\\ {VN(g, ctr)} = {VN(g, ctr, OM)} /\\ wh {OM} {g}.vnumtax ({VN(g, ctr, OM)}) = {ctr} /\\ vlo <= {VN(g, ctr)} < vhi }}']
    return dict(ensures=[('cells of the part array', pre + post[0]), ('nothing else written', pre + post[1])] + list(more), loops={k: L(inv=inv + list(xinv), var=f'{nd} - {ctr}', begin=one + list(hint)) for k in range(1, n + 1)})

W = 'libscotch/wgraph_part_rb.c'
g = 'orggrafptr'
FR = '(old dataptr.fronnbr)'
FRV = lambda i: f'vn {OM} {g}.vnumtax {OM}[ix orgfrontab {i}]'
FRSEP = [f'orgfronnbr >= 0', f'forall i [m_int[ix orgfrontab i]]. 0 <= i < orgfronnbr -> not (dataptr.frontab + dataptr.fronnbr <= ix orgfrontab i < dataptr.frontab + dataptr.fronnbr + orgfronnbr) /\\ ({g}.vnumtax <> 0 -> not (dataptr.frontab + dataptr.fronnbr <= ix {g}.vnumtax m_int[ix orgfrontab i] < dataptr.frontab + dataptr.fronnbr + orgfronnbr))']
FPOST = lambda hi: [f'forall i [{OM}[ix orgfrontab i]]. 0 <= i < {hi} -> m_int[ix dataptr.frontab ({FR} + i)] = {FRV("i")}']
NOTP = lambda a: f'not (dataptr.parttax + vlo <= {a} < dataptr.parttax + vhi)'
FRSEP2 = [f'forall i [m_int[ix orgfrontab i]]. 0 <= i < orgfronnbr -> vlo <= vn m_int {g}.vnumtax m_int[ix orgfrontab i] < vhi /\\ {NOTP("ix orgfrontab i")} /\\ ({g}.vnumtax <> 0 -> {NOTP(f"ix {g}.vnumtax m_int[ix orgfrontab i]")})',
   f'dataptr.frontab + dataptr.fronnbr + orgfronnbr <= dataptr.parttax + vlo \\/ dataptr.parttax + vhi <= dataptr.frontab + dataptr.fronnbr']
FR1 = f'forall a [m_int[a]]. not (dataptr.frontab + {FR} <= a < dataptr.frontab + {FR} + orgfronnbr) -> m_int[a] = {OM}[a]'
def SEPF(hi): return FPOST(hi) + [f'forall i [{OM}[ix orgfrontab i]]. 0 <= i < {hi} -> m_int[ix dataptr.parttax ({FRV("i")})] = -1',
    f'forall a [m_int[a]]. not (dataptr.frontab + {FR} <= a < dataptr.frontab + {FR} + orgfronnbr) -> m_int[a] = {OM}[a] \\/ (m_int[a] = -1 /\\ dataptr.parttax + vlo <= a < dataptr.parttax + vhi)']
SEPL = L(inv=['0 <= fronnum <= orgfronnbr', f'fronnbr = {FR} + fronnum'] + SEPF('fronnum'), var='orgfronnbr - fronnum')
UPART = lambda v: f'm_uchar[ix orgparttax {v}]'
KM = 'libscotch/kgraph_map_rb_map.c'
UP = lambda v: f'm_uchar[ix actgrafptr.parttax {v}]'
M = 'libscotch/mapping.c'
TERM = lambda v, m='(old m_int)': f'dnum mappptr.archptr f_ArchDom_cell[ix mappptr.domntab {m}[ix mappptr.parttax {v}]]'
GR = RNG('v', 'mappptr.grafptr')
NPT = lambda a: f'not (mappptr.parttax + mappptr.grafptr.baseval <= {a} < mappptr.parttax + mappptr.grafptr.vertnnd)'
TT = lambda v: f'{OM}[ix termtax {v}]'
D0 = '(old mappptr.domnnbr)'
MB = ['mappptr.grafptr.baseval <= vertnum <= vertnnd', 'domntab = mappptr.domntab', 'domnmax = mappptr.domnmax', f'{D0} <= domnnbr <= domnmax',
  f'forall v [m_int[ix mappptr.parttax v]]. mappptr.grafptr.baseval <= v < vertnum -> if {TT("v")} = -1 then m_int[ix mappptr.parttax v] = {OM}[ix mappptr.parttax v] else 0 <= m_int[ix mappptr.parttax v] < domnnbr /\\ dnum mappptr.archptr f_ArchDom_cell[ix domntab m_int[ix mappptr.parttax v]] = {TT("v")}',
  f'forall v [m_int[ix mappptr.parttax v]]. vertnum <= v < vertnnd -> m_int[ix mappptr.parttax v] = {OM}[ix mappptr.parttax v]',
  f'forall a [m_int[a]]. {NPT("a")} -> m_int[a] = {OM}[a]',
  f'forall i [f_ArchDom_cell[ix domntab i]]. 0 <= i < {D0} -> f_ArchDom_cell[ix domntab i] = (old f_ArchDom_cell)[ix (old mappptr.domntab) i]',
  'forall h [f_MappingHash_termnum[ix hashtab h]]. 0 <= h < hashsiz -> f_MappingHash_termnum[ix hashtab h] <> -1 -> 0 <= f_MappingHash_domnnum[ix hashtab h] < domnnbr /\\ dnum mappptr.archptr f_ArchDom_cell[ix domntab f_MappingHash_domnnum[ix hashtab h]] = f_MappingHash_termnum[ix hashtab h]']
KP = 'libscotch/kgraph_map_rb_part.c'
PX = []
KV = 'libscotch/kgraph_map_rb.c'
PF = lambda v: f'{OM}[ix pfixtax {v}]'
VH = ['forall h [f_KgraphMapRbVfloHash_termnum[ix hashtab h]]. 0 <= h < hashsiz -> f_KgraphMapRbVfloHash_termnum[ix hashtab h] <> -1 -> 0 <= f_KgraphMapRbVfloHash_domnnum[ix hashtab h] < domnnum /\\ dnum mappptr.archptr f_ArchDom_cell[ix mappptr.domntab f_KgraphMapRbVfloHash_domnnum[ix hashtab h]] = f_KgraphMapRbVfloHash_termnum[ix hashtab h]',
  f'{D0} <= domnnum <= mappptr.domnmax']
MV = [f'forall v [m_int[ix mappptr.parttax v]]. mappptr.grafptr.baseval <= v < vertnum -> if {PF("v")} < 0 then m_int[ix mappptr.parttax v] = {OM}[ix mappptr.parttax v] else 0 <= m_int[ix mappptr.parttax v] < domnnum /\\ dnum mappptr.archptr f_ArchDom_cell[ix mappptr.domntab m_int[ix mappptr.parttax v]] = {PF("v")}',
  f'forall v [m_int[ix mappptr.parttax v]]. vertnum <= v < vertnnd -> m_int[ix mappptr.parttax v] = {OM}[ix mappptr.parttax v]',
  f'forall a [m_int[a]]. {NPT("a")} -> m_int[a] = {OM}[a]',
  f'forall i [f_ArchDom_cell[ix mappptr.domntab i]]. 0 <= i < {D0} -> f_ArchDom_cell[ix mappptr.domntab i] = (old f_ArchDom_cell)[ix (old mappptr.domntab) i]']
FNS = [T('pthread_mutex_lock', W, pnames=['m']), T('pthread_mutex_unlock', W, pnames=['m']),
 Fn('wgraphPartRb3Fron', W, requires=FRSEP, ensures=[('frontier size', f'dataptr.fronnbr = {FR} + orgfronnbr'), ('frontier vertices, in original numbers', FPOST('orgfronnbr')[0]), ('nothing else written', FR1)],
   loops={1: L(inv=['0 <= fronnum <= orgfronnbr', f'fronnbr = {FR} + fronnum'] + FPOST('fronnum') + [FR1], var='orgfronnbr - fronnum')}),
 Fn('wgraphPartRb3SepFron', W, requires=['orgfrontab <> 0'] + FRSEP + FRSEP2, ensures=[('frontier size', f'dataptr.fronnbr = {FR} + orgfronnbr')] + list(zip(['frontier vertices, in original numbers', 'frontier vertices in the separator', 'nothing else written'], SEPF('orgfronnbr'))),
   loops={1: SEPL, 2: SEPL}),
 Fn('wgraphPartRb3One', W, requires=['orgparttax <> 0', '0 <= indpartval <= 1'] + SUB(g, 'dataptr.parttax'),
   **setters(g, 'dataptr.parttax', lambda v: f'{UPART(v)} <> 1 - indpartval', lambda v: f'(if {UPART(v)} = indpartval then inddomnnum else -1)', 2)),
 Fn('wgraphPartRb3Both', W, requires=['orgparttax <> 0'] + SUB(g, 'dataptr.parttax'),
   **setters(g, 'dataptr.parttax', lambda v: 'true', lambda v: f'(if {UPART(v)} < 2 then inddomnnum + {UPART(v)} else -1)', 2)),

 # ---- recursive bipartitioning of mappings
 Fn('kgraphMapRbMapPartBoth', KM, requires=[f'forall v [{UP("v")}]. {RNG("v", "actgrafptr.s")} -> {UP("v")} = 0 \\/ {UP("v")} = 1', f'forall w [m_int[ix poolptr.mappptr.parttax w]]. vlo <= w < vhi -> m_int[ix poolptr.mappptr.parttax w] <> -1'] + SUB('actgrafptr.s', 'poolptr.mappptr.parttax'),
   **setters('actgrafptr.s', 'poolptr.mappptr.parttax', lambda v: 'true', lambda v: f'{OM}[ix jobsubnum {UP(v)}]', 2, ctr='actvertnum',
     hint=['assert { band (-1) mappartdlt = mappartdlt /\\ band 0 mappartdlt = 0 }', f'assert {{ {UP("actvertnum")} = 0 \\/ {UP("actvertnum")} = 1 }}'])),
 Fn('kgraphMapRbMapPartOne', KM, requires=[f'forall w [m_int[ix poolptr.mappptr.parttax w]]. vlo <= w < vhi -> m_int[ix poolptr.mappptr.parttax w] <> -1'] + SUB('actgrafptr.s', 'poolptr.mappptr.parttax'),
   **setters('actgrafptr.s', 'poolptr.mappptr.parttax', lambda v: f'{UP(v)} = 1', lambda v: 'jobsubnum1', 2, ctr='actvertnum')),
 # ---- mappings
 Fn('archDomNum', M, trusted=True, pnames=['archptr', 'domnptr'], ensures=['result = dnum archptr f_ArchDom_cell[domnptr]']),
 Fn('archDomTerm', M, trusted=True, pnames=['archptr', 'domnptr', 'num'], writes=['f_ArchDom_cell'], ensures=['forall d [f_ArchDom_cell[d]]. d <> domnptr -> f_ArchDom_cell[d] = (old f_ArchDom_cell)[d]', 'tvalid archptr num -> result = 0 /\\ dnum archptr f_ArchDom_cell[domnptr] = num']),
 Fn('mapResize', M, trusted=True, pnames=['mappptr', 'domnmax'], writes=['f_ArchDom_cell', 'f_Mapping_domntab', 'f_Mapping_domnmax', 'hp'], ensures=['hp >= old hp', 'forall d [f_ArchDom_cell[d]]. d < (old hp) -> not ((old mappptr.domntab) <= d < (old mappptr.domntab) + (old mappptr.domnmax)) -> f_ArchDom_cell[d] = (old f_ArchDom_cell)[d]', 'result = 0 -> mappptr.domnmax = domnmax',
   'result = 0 -> forall i [f_ArchDom_cell[ix mappptr.domntab i]]. 0 <= i < (old mappptr.domnmax) -> f_ArchDom_cell[ix mappptr.domntab i] = (old f_ArchDom_cell)[ix (old mappptr.domntab) i]',
   'forall q [f_Mapping_domnmax[q]]. q <> mappptr -> f_Mapping_domnmax[q] = (old f_Mapping_domnmax)[q]', 'forall q [f_Mapping_domntab[q]]. q <> mappptr -> f_Mapping_domntab[q] = (old f_Mapping_domntab)[q]']),
 Fn('mapTerm', M, requires=['mappptr.domntab <> 0', 'mappptr.grafptr.baseval <= mappptr.grafptr.vertnnd', f'forall v [m_int[ix mappptr.parttax v]]. {RNG("v", "mappptr.grafptr")} -> not (termtax + mappptr.grafptr.baseval <= ix mappptr.parttax v < termtax + mappptr.grafptr.vertnnd)'],
   ensures=[('terminal number of the domain of each vertex', f'forall v [m_int[ix termtax v]]. {RNG("v", "mappptr.grafptr")} -> m_int[ix termtax v] = {TERM("v")}'), ('nothing else written', f'forall a [m_int[a]]. not (termtax + mappptr.grafptr.baseval <= a < termtax + mappptr.grafptr.vertnnd) -> m_int[a] = {OM}[a]')],
   loops={1: L(inv=['mappptr.grafptr.baseval <= vertnum <= vertnnd', f'forall v [m_int[ix termtax v]]. mappptr.grafptr.baseval <= v < vertnum -> m_int[ix termtax v] = {TERM("v")}', f'forall a [m_int[a]]. not (termtax + mappptr.grafptr.baseval <= a < termtax + mappptr.grafptr.vertnnd) -> m_int[a] = {OM}[a]'], var='vertnnd - vertnum')}),
 Fn('mapBuild3', M, mode='ideal', requires=[f'forall v [m_int[ix termtax v]]. {GR} -> (m_int[ix termtax v] <> -1 -> tvalid mappptr.archptr m_int[ix termtax v]) /\\ {NPT("ix termtax v")}', '0 <= mappptr.domnnbr <= mappptr.domnmax', 'hashsiz >= 1', 'mappptr.grafptr.baseval <= mappptr.grafptr.vertnnd',
    'forall h [f_MappingHash_termnum[ix hashtab h]]. 0 <= h < hashsiz -> f_MappingHash_termnum[ix hashtab h] = -1'],
   ensures=[('each vertex has a domain of its terminal number', f'result = 0 -> forall v [m_int[ix mappptr.parttax v]]. {GR} -> if {TT("v")} = -1 then m_int[ix mappptr.parttax v] = {OM}[ix mappptr.parttax v] else 0 <= m_int[ix mappptr.parttax v] < mappptr.domnnbr /\\ dnum mappptr.archptr f_ArchDom_cell[ix mappptr.domntab m_int[ix mappptr.parttax v]] = {TT("v")}'),
     ('previous domains kept', f'result = 0 -> mappptr.domnnbr >= {D0} /\\ forall i [f_ArchDom_cell[ix mappptr.domntab i]]. 0 <= i < {D0} -> f_ArchDom_cell[ix mappptr.domntab i] = (old f_ArchDom_cell)[ix (old mappptr.domntab) i]'),
     ('nothing else written', f'forall a [m_int[a]]. {NPT("a")} -> m_int[a] = {OM}[a]')],
   loops={1: L(inv=MB, var='vertnnd - vertnum'), 2: L(inv=['0 <= hashnum < hashsiz'] + MB[1:4] + MB[4:5] + MB[7:])}),
 Fn('mapFrst', M, requires=['mappptr.grafptr.vertnbr >= 0'], ensures=[('one domain', f'mappptr.domnnbr = 1 /\\ f_ArchDom_cell[ix mappptr.domntab 0] = (old f_ArchDom_cell)[domnptr]'),
    ('all vertices in it', 'forall v [m_int[ix mappptr.parttax v]]. mappptr.grafptr.baseval <= v < mappptr.grafptr.baseval + mappptr.grafptr.vertnbr -> m_int[ix mappptr.parttax v] = 0')]),
 Fn('kgraphMapRbPart3', KP, end=['assert { srcgrafptr.vnumtax = 0 -> forall w [m_int[ix mappptr.parttax w]]. srcgrafptr.baseval <= w < srcgrafptr.vertnnd -> ' + VN('srcgrafptr', 'w', OM) + ' = w /\\ wh ' + OM + ' srcgrafptr.vnumtax w = w }'], requires=['mappptr.domnnbr >= 0', 'srcgrafptr.vertnnd = srcgrafptr.baseval + srcgrafptr.vertnbr', 'mappptr.domnnbr <= mappptr.domnmax', 'forall w [m_int[ix mappptr.parttax w]]. vlo <= w < vhi -> m_int[ix mappptr.parttax w] <> -1',
      'not (mappptr.domntab <= domnptr < mappptr.domntab + mappptr.domnmax)', 'domnptr < hp', 'hp > 0', 'sp <= 0', 'srcgrafptr.vnumtax = 0 -> vlo <= srcgrafptr.baseval /\\ srcgrafptr.vertnnd <= vhi'] + SUB('srcgrafptr', 'mappptr.parttax'),
   **setters('srcgrafptr', 'mappptr.parttax', lambda v: f'(srcparttax = 0 || m_uchar[ix srcparttax {v}] = indpartval)', lambda v: D0, 3, pre='result = 0 -> ', xinv=PX,
     more=[('one more domain', f'result = 0 -> mappptr.domnnbr = {D0} + 1 /\\ f_ArchDom_cell[ix mappptr.domntab {D0}] = (old f_ArchDom_cell)[domnptr]'),
      ('previous domains kept', f'result = 0 -> forall i [f_ArchDom_cell[ix mappptr.domntab i]]. 0 <= i < {D0} -> f_ArchDom_cell[ix mappptr.domntab i] = (old f_ArchDom_cell)[ix (old mappptr.domntab) i]')])),
 Fn('kgraphMapRbVfloMerge', KV, mode='ideal', wp=True, requires=['0 <= mappptr.domnnbr <= mappptr.domnmax', 'vflonbr >= 0', 'hp > 0', 'mappptr.grafptr.baseval <= mappptr.grafptr.vertnnd',
     f'forall v [m_int[ix pfixtax v]]. {GR} -> (m_int[ix pfixtax v] >= 0 -> tvalid mappptr.archptr m_int[ix pfixtax v]) /\\ {NPT("ix pfixtax v")}',
     'forall i [f_ArchDom_cell[ix mappptr.domntab i]]. 0 <= i < mappptr.domnnbr -> dnum mappptr.archptr f_ArchDom_cell[ix mappptr.domntab i] <> -1'],
   ensures=[('fixed vertices are in a domain of the terminal number they were given, other vertices keep their domain', f'result = 0 -> forall v [m_int[ix mappptr.parttax v]]. {GR} -> if {PF("v")} < 0 then m_int[ix mappptr.parttax v] = {OM}[ix mappptr.parttax v] else 0 <= m_int[ix mappptr.parttax v] < mappptr.domnnbr /\\ dnum mappptr.archptr f_ArchDom_cell[ix mappptr.domntab m_int[ix mappptr.parttax v]] = {PF("v")}'),
     ('previous domains kept', f'result = 0 -> mappptr.domnnbr >= {D0} /\\ forall i [f_ArchDom_cell[ix mappptr.domntab i]]. 0 <= i < {D0} -> f_ArchDom_cell[ix mappptr.domntab i] = (old f_ArchDom_cell)[ix (old mappptr.domntab) i]'),
     ('nothing else written', f'forall a [m_int[a]]. {NPT("a")} -> m_int[a] = {OM}[a]')],
   loops={1: L(inv=['hashsiz >= 0', 'hashmsk >= 0'], var='hashmsk'), 2: L(inv=['0 <= domnnum <= mappptr.domnnbr'] + VH[:1], var='mappptr.domnnbr - domnnum'), 3: L(inv=['0 <= hashnum < hashsiz'] + VH[:1]),
     4: L(inv=['mappptr.grafptr.baseval <= vertnum <= vertnnd'] + VH + MV, var='vertnnd - vertnum'), 5: L(inv=['0 <= hashnum < hashsiz'] + VH + MV[:1] + MV[3:])}),
]
NOTE = 'Proved for all inputs: the functions that write the result arrays of overlap partitioning and recursive mapping. The mapping methods themselves are executed on bounded cases against an independent oracle.'
BOUNDED = ['mapping and partitioning methods (ml, rb, fm, bd, df, ex, gg, gp, xy)', 'multilevel uncoarsening', 'library wrappers']
