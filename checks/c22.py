"""Parts without data stay without data, of the announced shape and names."""
import numpy as np

from vh import anygraph as A
from vh import graph as G
from vh.core import CheckModule, Facet, ensure, equal


def nans_kw(g):
    return {'method': g.pick([None, None, 'float', 'nan', 'ma', 'ma'])}


def extra(g):
    return {'how': g.pick(['raw', 'opt', 'opt', 'optopt', 'plain'])}


def deliver(x, how):
    if how == 'raw':
        return x.finalize(optimize=False)
    if how == 'opt':
        return x.finalize()
    if how == 'plain':
        return x.finalize(prepare=False)
    return x.optimize().optimize().finalize()


def nothing(got):
    """per value: no data?"""
    got = getattr(got, 'values', got)
    m = np.array(np.ma.getmaskarray(got))
    data = np.ma.getdata(got)
    if data.dtype.kind == 'f':
        m |= np.isnan(data)
    return m


def run(case, rec):
    stmts = case['stmts']
    env = G.infer_all(stmts)
    objs = G.build(stmts)
    x, e = objs[-1], env[-1]
    ops = A.label(rec, stmts)
    for s in stmts:
        if s['op'] == 'nans':
            rec.label('leaf-{}'.format(s.get('method')))
    rec.label(case['how'])
    rec.nontrivial(len(ops) >= 4 and A.resamples(ops) >= 1)
    if not e.fuzzy:
        equal(G.announced(x), e.shape, 'announced shape')
    if not G.mixed(stmts, env):
        equal(G.chan_names(x), e.names, 'announced channels')
    opt = x.optimize()
    equal(G.announced(opt), G.announced(x), 'announced shape when optimized')
    if not G.mixed(stmts, env):
        equal(G.chan_names(opt), G.chan_names(x), 'channels when optimized')
    got = deliver(x, case['how'])
    equal(got.shape, G.announced(x), 'delivered shape')
    ma = any(s.get('method') == 'ma' for s in stmts if s['op'] == 'nans')
    if not ma:
        equal(got.dtype.kind, 'f', 'kind of data')
    if all(s.get('method') == 'ma' for s in stmts if s['op'] == 'nans') \
            and 'xa' not in ops:
        ensure(isinstance(got, np.ma.MaskedArray), 'parts that are masked '
               'make a {}', type(got).__name__)
    # (fully masked data that is blended with a border is not judged)
    if ma and 'deq' in ops:
        return
    none = nothing(got)
    ensure(none.all(), '{} of {} values are data', int((~none).sum()),
           none.size)


OPS = (['crop'] * 3 + ['warp'] * 3 + ['over'] * 2
       + ['deq', 'cat', 'cat', 'take', 'chan', 'pad', 'resize', 'eval', 'opt'])
CHECK = CheckModule('C22', [
    Facet('alone', A.cases(nans_kw=nans_kw, leafs=['nans'], ops=OPS, extra=extra, nonempty=False,
                           warp=G.any_warp(interps=['linear', 'nearest'])),
          run, 4000, rule='random graph of every operation over parts without '
          'data (nan and masked); non-trivial = 4+ nodes with a resampling '
          'one'),
])
