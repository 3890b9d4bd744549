"""Every delivered pixel shows the place of the scene its transforms say."""
import hypothesis.strategies as st
import numpy as np

from vh import graph as G
from vh import trace as T
from vh.core import CheckModule, Facet, ensure


def strat(leafs, ops, side=(24, 60), file_kw=None, warp=None, max_ops=5,
          max_pix=130):
    @st.composite
    def s(draw):
        g = G.Gen(draw, ops, leafs=leafs, fill='ramp', min_side=side[0],
                  max_side=side[1], max_pix=max_pix, max_chan=3,
                  big_crops=True,
                  dtypes=['float32', 'float64'], file_kw=file_kw,
                  warp=warp or G.any_warp(interps=('linear',)))
        stmts = g.program(1, max_ops)
        for t in stmts:
            if t['op'] == 'deq' and t['q']:
                t['q']['nodata'] = None
        return {'stmts': stmts}
    return s


def run_geom(case, rec):
    stmts = case['stmts']
    env = G.infer_all(stmts)
    x = G.build(stmts)[-1]
    for s in stmts:
        rec.label('op-' + s['op'])
    for how in ['raw', 'opt']:
        got = x.finalize(optimize=how == 'opt')
        ensure(got.ndim == 3 and got.shape[2] == env[-1].c, 'delivered shape')
        msg, nin, nout, worst = T.check_ramp(got, stmts, env, len(stmts) - 1,
                                             how == 'opt')
        ensure(msg is None, '{}: {}'.format(how, msg))
        if nin:
            rec.label(how + '-inside')
        if nout:
            rec.label(how + '-outside')
        rec.label('{}-worst-{:.1f}'.format(how, min(worst, 1)))
    rec.nontrivial(nin >= 10 and any(s['op'] in ('warp', 'resize', 'over')
                                     for s in stmts))


OPS = ['crop'] * 3 + ['warp'] * 6 + ['cat', 'take', 'pad', 'resize', 'eval', 'opt', 'deq']


def even(g, s, forced):
    """Sizes whose averaged overviews are exact ramps again."""
    if not forced:
        s['w'] = g.pick([16, 24, 32, 40, 48, 64])
        s['h'] = g.pick([16, 24, 32, 40, 48])
    n = g.pick([0, 1, 2, 3])
    while n and (s['w'] % 2 ** n or s['h'] % 2 ** n):
        n -= 1
    return {'ov': n, 'ovm': 'AVERAGE'}


def plain(g, on):
    # no antialiasing, and enlarging rather than shrinking
    s = G.any_warp(interps=('linear',))(g, on)
    s['kw'] = dict(s.get('kw') or {}, antialias=False, interpolation='linear')
    if g.flip(2):
        s['tf'] = {'scale': [g.pick([1, .5, 2, .75, 1.3]), g.pick([1, 2, .6])],
                   'offset': [g.pick([0, 1, -2, 2.5, .3, 3]),
                              g.pick([0, -1, 2, 1.5, .7, -3])]}
        p = g.env[on]
        if G.auto_corner(G.matrix(s['tf']), p.w, p.h).min() <= 1e-6:
            s['dsize'] = [max(1, p.w), max(1, p.h)]
    return s


def slight(g, on):
    """ Almost the identity, which only large images can tell. """
    p = g.env[on]
    if g.flip():
        return G.any_warp(interps=('linear',))(g, on)
    tf = {'scale': [g.pick([1, 1, 1.004, .997, 2]), g.pick([1, 1, .996, .5])]}
    if g.flip():
        tf[g.pick(['theta', 'theta', 'shearx'])] = g.pick([.004, -.006, .0009])
    if g.flip():
        tf['offset'] = G.any_offset(g)
    s = {'op': 'warp', 'on': on, 'tf': tf, 'dsize': 'auto', 'kw': {}}
    if G.auto_corner(G.matrix(tf), p.w, p.h).min() <= 1e-6 or g.flip(3):
        s['dsize'] = [max(1, p.w), max(1, p.h)]
    return s


CHECK = CheckModule('C04', [
    Facet('memory', strat(['ident'], OPS), run_geom, 5000,
          rule='coordinate ramps through random graphs; non-trivial = a '
          'resampling node and 10+ pixels whose value is demanded'),
    Facet('files', strat(['file', 'file', 'ident'], OPS + ['over'] * 2 + ['motif'] * 2 + ['beyond'],
                         file_kw=even), run_geom, 4000,
          rule='the same over raster files with averaged stored overviews'),
    Facet('simulated', strat(['ident'], ['crop'] * 3 + ['warp'] * 4 + ['over'] * 4
                             + ['cat', 'take', 'pad', 'beyond',
                                'beyond'], warp=plain), run_geom, 3000,
          rule='the same with overviews that take every 2^n-th pixel, and '
          'linear warps without antialiasing'),
    Facet('large', strat(['ident'], ['crop'] * 2 + ['warp'] * 4 + ['cat', 'opt',
                         'resize'], side=(250, 500), warp=slight, max_ops=4,
                         max_pix=700), run_geom, 250,
          rule='images of 250 to 500 pixels and warps that are almost the '
          'identity'),
])
