"""One warp anywhere in a graph delivers the interpolated pixels."""
import hypothesis.strategies as st
import numpy as np

from vh import graph as G
from vh import trace as T
from vh.core import CheckModule, Facet, ensure

FIXED = G.any_warp(interps=('linear',), antialias=(False,))


def strat(leafs):
    @st.composite
    def s(draw):
        g = G.Gen(draw, ['crop'], leafs=leafs, min_side=8, max_side=28,
                  max_pix=90, max_chan=3, big_crops=True, warp=FIXED,
                  dtypes=['float32', 'float64', 'uint8', 'int16'],
                  file_kw=lambda g, s, forced: {'ov': 0})
        side = ['crop', 'crop', 'take', 'chan', 'cat', 'deq', 'eval', 'opt']
        cur = g.leaf()
        for ops, n in [(side, g.int(0, 3)), (['warp'], 1), (side, g.int(0, 4))]:
            g.ops = ops
            for _ in range(n):
                cur = g.step(cur)
        g.stmts = g.stmts[:cur + 1]
        stmts = G.prune(g.stmts)
        for t in stmts:
            if t['op'] == 'deq' and t['q']:
                t['q']['nodata'] = None
        return {'stmts': stmts}
    return s


def bilinear(a, x, y):
    """a (h, w); continuous corner coordinates; inside only."""
    h, w = a.shape
    fx, fy = x - .5, y - .5
    x0 = np.clip(np.floor(fx).astype(int), 0, w - 2)
    y0 = np.clip(np.floor(fy).astype(int), 0, h - 2)
    u, v = fx - x0, fy - y0
    return ((1 - u) * (1 - v) * a[y0, x0] + u * (1 - v) * a[y0, x0 + 1]
            + (1 - u) * v * a[y0 + 1, x0] + u * v * a[y0 + 1, x0 + 1])


def run_pixels(case, rec):
    stmts = case['stmts']
    env = G.infer_all(stmts)
    x = G.build(stmts)[-1]
    for s in stmts:
        rec.label('op-' + s['op'])
    outs = {}
    for how in ['raw', 'opt']:
        got = x.finalize(optimize=how == 'opt')
        outs[how] = got
        ensure(got.shape == env[-1].shape or env[-1].fuzzy, 'shape delivered')
        h, w = got.shape[:2]
        chans = T.trace(stmts, env, len(stmts) - 1, T.pixel_centers(h, w),
                        0.0, 0.0, False)
        claims = 0
        for j, c in enumerate(chans):
            leaf = stmts[c.leaf]
            g = np.asarray(got[:, :, j], np.float64).ravel()
            if leaf['op'] == 'nans':
                ensure(np.isnan(g).all(), '{}: channel {}: data in a part '
                       'without any', how, j)
                continue
            arr = G.leaf_array(leaf).astype(np.float64)[:, :, c.k]
            warped = c.warps > 0
            if warped:
                ok = c.ok
            else:
                ok = ((c.X[:, 0] > 0) & (c.X[:, 0] < leaf['w'])
                      & (c.X[:, 1] > 0) & (c.X[:, 1] < leaf['h']))
            X = c.X[ok]
            if not len(X):
                continue
            if warped:
                want = bilinear(arr, X[:, 0], X[:, 1])
                spread = float(np.ptp(arr))
                lim = 0.08 * spread + (0.51 if leaf['dt'][0] != 'f' else 0)
            else:
                want = arr[X[:, 1].astype(int), X[:, 0].astype(int)]
                lim = 0
            want = c.a * want + c.b
            lim = abs(c.a) * lim + 1e-4 * (1 + np.abs(want))
            err = np.abs(g[ok] - want)
            bad = ~(err <= lim)
            if bad.any():
                n = int(np.argmax(bad))
                at = int(np.flatnonzero(ok)[n])
                ensure(False, '{}: row {} column {} channel {}: {:.5g} instead '
                       'of {:.5g} +- {:.3g} (x={:.3f} y={:.3f})', how, at // w,
                       at % w, j, g[at], want[n], lim[n], X[n, 0], X[n, 1])
            claims += len(X)
            if warped and c.out.any() and c.a == 1 and c.b == 0:
                o = g[c.out]
                # fill of a part may be promoted by what it is joined with
                ensure(bool((np.isnan(o) | (o == 0)).all()),
                       '{}: channel {}: data outside of the image', how, j)
                rec.label('outside')
    a, b = (np.asarray(outs[k], np.float64) for k in ('raw', 'opt'))
    ensure(a.shape == b.shape, 'optimized has another shape')
    if any(s['op'] == 'warp' for s in stmts) and claims >= 8:
        rec.nontrivial()


CHECK = CheckModule('C05', [
    Facet('memory', strat(['ident']), run_pixels, 5000,
          rule='noise images, one linear warp among crops, channel selections, '
          'concatenations, dequantizations; non-trivial = a warp and 8+ '
          'demanded pixels'),
    Facet('files', strat(['file', 'ident']), run_pixels, 2500,
          rule='the same over raster files'),
])
