"""Optimizing keeps the announced size and channels of every graph."""
from vh import anygraph as A
from vh import graph as G
from vh.core import CheckModule, Facet, ensure, equal


def run_meta(case, rec):
    stmts = case['stmts']
    env = G.infer_all(stmts)
    objs = G.build(stmts)
    ops = A.label(rec, stmts)
    mix = G.mixed(stmts, env)
    rec.nontrivial(A.resamples(ops) >= 1 and len(ops) >= 4)
    for i, (o, e) in enumerate(zip(objs, env)):
        if not e.fuzzy:
            equal(G.announced(o), e.shape, 'announced shape of step {} ({})'.format(
                i, ops[i]))
            equal(tuple(int(d) for d in o.dsize), (e.w, e.h), 'announced dsize')
        equal(o.num_channels, e.c, 'announced channel count')
        if e.names is not None or not mix:
            equal(G.chan_names(o), e.names, 'announced channels of step {}'.format(i))
    x, e = objs[-1], env[-1]
    before = G.announced(x), G.chan_names(x)
    y = x.optimize()
    equal(G.announced(y), before[0], 'shape announced after optimizing')
    equal(tuple(int(d) for d in y.dsize), tuple(int(d) for d in x.dsize),
          'dsize announced after optimizing')
    if before[1] is not None or not mix:
        equal(G.chan_names(y), before[1], 'channels announced after optimizing')
    equal(y.num_channels, x.num_channels, 'channel count after optimizing')
    z = y.optimize()
    equal(G.announced(z), before[0], 'shape announced after optimizing twice')


CHECK = CheckModule('C01', [
    Facet('memory', A.cases(['ident', 'ident', 'nans']), run_meta, 5000,
          rule='random graph of every operation over arrays; non-trivial = 4+ '
          'nodes with a resampling one'),
    Facet('files', A.cases(['file', 'file', 'ident']), run_meta, 3000,
          rule='the same over raster files with 0-3 stored overviews'),
    Facet('wild', A.cases(['ident', 'file', 'nans'], nonempty=False), run_meta, 1500,
          rule='also empty slices'),
])
