from c2why import Fn, L
DEFS = '''
  constant elo : int
  constant ehi : int
'''
inr = '(old grafptr.verttax[w]) <= e < (old grafptr.vendtax[w])'
V = 'old grafptr.verttax[v]'
FNS = [
 Fn('graphBase', 'libscotch/graph_base.c', defs=DEFS,
  requires=[
   'grafptr.baseval <= grafptr.vertnnd',
   'grafptr.verttax <> 0 /\\ grafptr.vendtax <> 0',
   'forall v. grafptr.baseval <= v < grafptr.vertnnd -> grafptr.verttax[v] <= grafptr.vendtax[v]',
   'forall v w. grafptr.baseval <= v < grafptr.vertnnd -> grafptr.baseval <= w < grafptr.vertnnd -> v <> w -> grafptr.verttax[v] < grafptr.vendtax[v] -> grafptr.verttax[w] < grafptr.vendtax[w] -> grafptr.vendtax[v] <= grafptr.verttax[w] \\/ grafptr.vendtax[w] <= grafptr.verttax[v]',
   'forall v. grafptr.baseval <= v < grafptr.vertnnd -> grafptr.verttax[v] < grafptr.vendtax[v] -> elo <= grafptr.edgetax + grafptr.verttax[v] /\\ grafptr.edgetax + grafptr.vendtax[v] <= ehi',
   'grafptr.verttax + grafptr.vertnnd + 1 <= elo \\/ ehi <= grafptr.verttax + grafptr.baseval',
   'grafptr.vendtax + grafptr.vertnnd <= elo \\/ ehi <= grafptr.vendtax + grafptr.baseval',
   'grafptr.vendtax = grafptr.verttax + 1 \\/ grafptr.vendtax + grafptr.vertnnd <= grafptr.verttax + grafptr.baseval \\/ grafptr.verttax + grafptr.vertnnd <= grafptr.vendtax + grafptr.baseval',
  ],
  ensures=[('old base returned', 'result = (old grafptr.baseval)'),
   ('new base', 'grafptr.baseval = baseval /\\ grafptr.vertnnd = (old grafptr.vertnnd) + baseval - (old grafptr.baseval)'),
   ('vertices', 'forall v. (old grafptr.baseval) <= v < (old grafptr.vertnnd) -> grafptr.verttax[v + baseval - (old grafptr.baseval)] = (old grafptr.verttax[v]) + baseval - (old grafptr.baseval)'),
   ('vertex ends', 'forall v. (old grafptr.baseval) <= v < (old grafptr.vertnnd) -> grafptr.vendtax[v + baseval - (old grafptr.baseval)] = (old grafptr.vendtax[v]) + baseval - (old grafptr.baseval)'),
   ('edges', 'forall w e. (old grafptr.baseval) <= w < (old grafptr.vertnnd) -> '+inr+' -> grafptr.edgetax[e + baseval - (old grafptr.baseval)] = (old grafptr.edgetax[e]) + baseval - (old grafptr.baseval)'),
   ('optional', '(old grafptr.velotax) <> 0 -> forall v. grafptr.velotax + (v + baseval - (old grafptr.baseval)) = (old grafptr.velotax) + v'),
  ],
  begin=['assert { forall v. grafptr.vendtax = grafptr.verttax + 1 -> ix grafptr.vendtax v = ix grafptr.verttax (v + 1) }'],
  end=['assert { forall v [ix (old grafptr.vendtax) v]. ix (old grafptr.vendtax) v = ix grafptr.vendtax (v + baseval - (old grafptr.baseval)) }',
 'assert { forall v [ix (old grafptr.verttax) v]. ix (old grafptr.verttax) v = ix grafptr.verttax (v + baseval - (old grafptr.baseval)) }',
 'assert { forall v [ix (old grafptr.edgetax) v]. ix (old grafptr.edgetax) v = ix grafptr.edgetax (v + baseval - (old grafptr.baseval)) }'],
  loops={
   1: L(inv=['grafptr.baseval <= vertnum <= grafptr.vertnnd',
     'forall v. grafptr.baseval <= v < vertnum -> grafptr.verttax[v] = (old grafptr.verttax[v]) + baseadj',
     'forall v. vertnum <= v < grafptr.vertnnd -> grafptr.verttax[v] = (old grafptr.verttax[v])',
     'grafptr.vendtax = grafptr.verttax + 1 -> forall v. grafptr.baseval <= v < vertnum - 1 -> grafptr.vendtax[v] = (old grafptr.vendtax[v]) + baseadj',
     'forall v. grafptr.baseval <= v -> v = vertnum - 1 -> grafptr.vendtax[v] = (old grafptr.vendtax[v])',
     'forall v. vertnum <= v < grafptr.vertnnd -> grafptr.vendtax[v] = (old grafptr.vendtax[v])',
     'grafptr.vendtax <> grafptr.verttax + 1 -> forall v. grafptr.baseval <= v < grafptr.vertnnd -> grafptr.vendtax[v] = (old grafptr.vendtax[v])',
     'forall w e. grafptr.baseval <= w < vertnum -> '+inr+' -> grafptr.edgetax[e] = (old grafptr.edgetax[e]) + baseadj',
     'forall w e. vertnum <= w < grafptr.vertnnd -> '+inr+' -> grafptr.edgetax[e] = (old grafptr.edgetax[e])',
     ], var='grafptr.vertnnd - vertnum'),
   2: L(inv=['(old grafptr.verttax[vertnum]) <= edgenum <= (old grafptr.vendtax[vertnum])',
     'forall v. grafptr.baseval <= v < vertnum -> grafptr.verttax[v] = (old grafptr.verttax[v]) + baseadj',
     'forall v. vertnum <= v < grafptr.vertnnd -> grafptr.verttax[v] = (old grafptr.verttax[v])',
     'grafptr.vendtax = grafptr.verttax + 1 -> forall v. grafptr.baseval <= v < vertnum - 1 -> grafptr.vendtax[v] = (old grafptr.vendtax[v]) + baseadj',
     'forall v. grafptr.baseval <= v -> v = vertnum - 1 -> grafptr.vendtax[v] = (old grafptr.vendtax[v])',
     'forall v. vertnum <= v < grafptr.vertnnd -> grafptr.vendtax[v] = (old grafptr.vendtax[v])',
     'grafptr.vendtax <> grafptr.verttax + 1 -> forall v. grafptr.baseval <= v < grafptr.vertnnd -> grafptr.vendtax[v] = (old grafptr.vendtax[v])',
     'forall w e. grafptr.baseval <= w < vertnum -> '+inr+' -> grafptr.edgetax[e] = (old grafptr.edgetax[e]) + baseadj',
     'forall w e. vertnum < w < grafptr.vertnnd -> '+inr+' -> grafptr.edgetax[e] = (old grafptr.edgetax[e])',
     'forall e. (old grafptr.verttax[vertnum]) <= e < edgenum -> grafptr.edgetax[e] = (old grafptr.edgetax[e]) + baseadj',
     'forall e. edgenum <= e < (old grafptr.vendtax[vertnum]) -> grafptr.edgetax[e] = (old grafptr.edgetax[e])',
     ], var='grafptr.vendtax[vertnum] - edgenum'),
   3: L(inv=['grafptr.baseval <= vertnum <= grafptr.vertnnd',
     'forall v. grafptr.baseval <= v < grafptr.vertnnd -> grafptr.verttax[v] = (old grafptr.verttax[v]) + baseadj',
     'forall v. grafptr.baseval <= v < vertnum -> grafptr.vendtax[v] = (old grafptr.vendtax[v]) + baseadj',
     'forall v. vertnum <= v < grafptr.vertnnd -> grafptr.vendtax[v] = (old grafptr.vendtax[v])',
     'forall w e. grafptr.baseval <= w < grafptr.vertnnd -> '+inr+' -> grafptr.edgetax[e] = (old grafptr.edgetax[e]) + baseadj',
     ], var='grafptr.vertnnd - vertnum'),
  }),
]
NATIVE = [{'src': 'rebase.c', 'budget': 20}]
NOTE = 'Proved for all inputs: graphBase shifts bounds and neighbours and nothing else. Library wrappers run only in bounded cases.'
BOUNDED = ['SCOTCH_graphBase wrapper over optional arrays']
