"""Operations that do not resample deliver the NumPy result."""
import numpy as np
from hypothesis import strategies as st

from vh import graph as G
from vh.core import CheckModule, Facet, ensure, equal


def tolerance(stmts):
    return 2e-4 if any(s['op'] == 'deq' and s['q'] for s in stmts) else 0.0


def run_exact(case, rec):
    stmts = case['stmts']
    env = G.infer_all(stmts)
    vals = G.exact_values(stmts, env)
    objs = G.build(stmts)
    x, want, e = objs[-1], vals[-1], env[-1]
    ops = [s['op'] for s in stmts]
    for o in set(ops):
        rec.label('op-' + o)
    rec.nontrivial(len(ops) >= 4 and want.size > 0)
    tol = tolerance(stmts)
    equal(G.announced(x), e.shape, 'announced shape')
    if e.names is not None or not G.mixed(stmts, env):
        equal(G.chan_names(x), e.names, 'announced channels')
    for how in case['order']:
        if how == 'raw':
            got = x.finalize(optimize=False)
        elif how == 'opt':
            got = x.finalize()
        elif how == 'opt2':
            got = x.optimize().finalize()
        else:
            got = x.optimize().finalize(optimize=False)
        bad = G.same(got, want, tol)
        ensure(bad is None, 'delivered data ({}) {}', how, bad)
        if stmts[-1]['op'] == 'xa':
            equal(tuple(got.dims), ('y', 'x', 'c'), 'xarray dims')
            if e.names is not None:
                equal([str(c) for c in got.coords['c'].values], e.names,
                      'xarray channel coordinate')
            elif not G.mixed(stmts, env):
                ensure('c' not in got.coords, 'invented channel coordinate')


def exact_cases(leafs, ops, nonempty=True, tail=True):
    @st.composite
    def strat(draw):
        g = G.Gen(draw, ops, leafs=leafs, nonempty=nonempty, nan=True,
                  max_side=10)
        stmts = g.program(2, 8)
        if tail and g.flip(4):
            stmts = stmts + [{'op': 'xa', 'on': len(stmts) - 1}]
        order = draw(st.permutations(['raw', 'opt', 'opt2', 'optraw']))
        return {'stmts': stmts, 'order': list(order)}
    return strat


OPS = ['crop'] * 4 + ['chan', 'take', 'take', 'cat', 'cat', 'deq', 'eval', 'opt']

CHECK = CheckModule('C03', [
    Facet('memory', exact_cases(['ident', 'ident', 'nans'], OPS), run_exact,
          5000, rule='random graph of crops, channel selections, '
          'concatenations, dequantize, evaluate over arrays; non-trivial = 4+ '
          'nodes and a non-empty result'),
    Facet('files', exact_cases(['file', 'file', 'ident'], OPS), run_exact,
          2500, rule='the same over raster files; non-trivial = same'),
    Facet('empty', exact_cases(['ident'], OPS, nonempty=False), run_exact,
          1500, rule='slices that may come out empty; non-trivial = 4+ nodes '
          'and a non-empty result'),
], assumptions=[
    'channel names are unique within a graph (documented)',
    'dequantize at most once on a path (documented)'])
