"""The delivered array has exactly the announced shape."""
import numpy as np

from vh import anygraph as A
from vh import graph as G
from vh.core import CheckModule, Facet, ensure, equal


def run_shape(case, rec):
    stmts = case['stmts']
    objs = G.build(stmts)
    ops = A.label(rec, stmts)
    rec.nontrivial(A.resamples(ops) >= 1 and len(ops) >= 4)
    x = objs[-1]
    want = G.announced(x)
    for how in case['order']:
        if how == 'raw':
            got = x.finalize(optimize=False)
        elif how == 'opt':
            got = x.finalize()
        elif how == 'plain':
            got = x.finalize(prepare=False)
        else:
            got = x.optimize().finalize(optimize=False)
        equal(tuple(got.shape), want, 'shape delivered ({})'.format(how))
        ensure(not isinstance(got, np.ndarray) or got.ndim == 3, 'ndim')
    equal(G.announced(x), want, 'shape announced afterwards')


def order(g):
    import hypothesis.strategies as st
    return {'order': list(g.d(st.permutations(['raw', 'opt', 'plain', 'optraw'])))}


CHECK = CheckModule('C02', [
    Facet('memory', A.cases(['ident', 'ident', 'nans'], extra=order), run_shape,
          3500, rule='random graph of every operation over arrays; non-trivial '
          '= 4+ nodes with a resampling one'),
    Facet('files', A.cases(['file', 'file', 'ident'], extra=order), run_shape,
          2500, rule='the same over raster files with 0-3 stored overviews'),
    Facet('wild', A.cases(['ident', 'file', 'nans'], extra=order,
                          nonempty=False), run_shape, 1000, rule='also empty slices'),
])
