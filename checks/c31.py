"""An optimized chain of warps, crops and quantizations resamples once."""
import hypothesis.strategies as st
import numpy as np

from vh import graph as G
from vh import trace as T
from vh.core import CheckModule, Facet, ensure

SCALES = [0.5, 2, 1.5, 0.75, 0.6, 1.7, 2.5, 1 / 3, 0.9, 1, 1.1, 3]


def gentle(g, on):
    """A linear warp that leaves most of the image in its canvas."""
    p = g.env[on]
    tf = {}
    kind = g.int(0, 9)
    if kind <= 5:
        tf['scale'] = g.pick(SCALES)
        if g.flip(3):
            tf['scale'] = [tf['scale'], g.pick(SCALES)]
        if max(p.w, p.h) > 40:
            tf['scale'] = g.pick([0.5, 0.75, 0.6])
    if kind >= 6 and g.flip():
        tf['theta'] = g.pick([0.1, -0.2, 1.5707963267948966, 0.5, -0.05])
        tf['about'] = [p.w / 2.0, p.h / 2.0]
        if g.flip(3):
            tf['shearx'] = g.pick([0.1, -0.2])
    elif kind == 6:
        tf['scale'] = g.pick([[-1, 1], [1, -1], [-1, -1], [-1.5, 1]])
        tf['offset'] = [p.w if tf['scale'][0] < 0 else 0,
                        p.h if tf['scale'][1] < 0 else 0]
    if 'offset' not in tf and g.flip():
        tf['offset'] = [g.int(-24, 24) / 8.0, g.int(-24, 24) / 8.0]
    s = {'op': 'warp', 'on': on, 'tf': tf, 'dsize': 'auto',
         'kw': {'antialias': False}}
    # (which say nothing about the pixels inside)
    if g.flip(3):
        s['kw']['border_value'] = g.pick(['auto', 0, 7])
    if g.flip(4):
        s['kw']['interpolation'] = g.pick(['linear', 1])
    if g.flip(5):
        s['kw']['backend'] = g.pick(['cv2', 'auto'])
    if g.flip(5):
        s['kw']['noop_eps'] = 0
    v = G.auto_corner(G.matrix(tf), p.w, p.h)
    if v.min() < 6:
        s['dsize'] = [max(6, p.w), max(6, p.h)]
    elif g.flip(4):
        s['dsize'] = [g.int(6, 50), g.int(6, 50)]
    return s


def nodata_of(stmts, env, i):
    """per channel: the value that a dequantization takes as no data"""
    s = stmts[i]
    if 'parts' in s:
        return [v for j in s['parts'] for v in nodata_of(stmts, env, j)]
    if 'on' not in s:
        return [None] * s['c']
    got = nodata_of(stmts, env, s['on'])
    p = env[s['on']]
    if s['op'] == 'deq' and s['q']:
        return [s['q']['nodata']] * len(got)
    if s['op'] == 'crop' and s.get('c') is not None:
        return [got[k] for k in G.chan_list(s.get('c'), p.c)]
    if s['op'] == 'take':
        if s['names'] is not None:
            return [got[p.names.index(n)] for n in s['names']]
        return [got[k] for k in G.chan_list(s['idx'], p.c)]
    return got


def strat(leafs, nodata):
    @st.composite
    def s(draw):
        g = G.Gen(draw, ['crop'], leafs=leafs, min_side=10, max_side=30,
                  max_pix=90, max_chan=3, big_crops=True, warp=gentle,
                  dtypes=(['uint8', 'int16', 'uint16'] if nodata else
                          ['float32', 'float64', 'uint8', 'int16']),
                  file_kw=lambda g, s, forced: {'ov': 0})
        side = ['crop', 'crop', 'take', 'chan', 'cat', 'opt']
        cur = g.leaf()
        # dequantized at the start, in between, last, or not at all
        n = g.int(2, 4)
        where = g.int(0, n + (0 if nodata else 1))
        for k in range(n):
            for ops, reps in [(side, g.int(0, 2)),
                              (['deq'], int(where == k)), (['warp'], 1)]:
                g.ops = ops
                for _ in range(reps):
                    cur = g.step(cur)
        g.ops = ['deq']
        if where == n:
            cur = g.step(cur)
        g.ops = ['crop', 'take', 'chan']
        for _ in range(g.int(0, 2)):
            cur = g.step(cur)
        g.stmts = g.stmts[:cur + 1]
        stmts = G.prune(g.stmts)
        for t in stmts:
            if t['op'] == 'deq' and t['q']:
                t['q']['nodata'] = None
                if nodata:
                    # a value that the image holds
                    a = G.leaf_array(stmts[0]).ravel()
                    t['q']['nodata'] = int(a[draw(st.integers(0, a.size - 1))])
        return {'stmts': stmts}
    return s


def taps(arr, x, y, bad=None):
    """bilinear value at corner coordinates; whether a bad pixel has a part"""
    h, w = arr.shape
    fx, fy = x - .5, y - .5
    x0 = np.clip(np.floor(fx).astype(int), 0, max(w - 2, 0))
    y0 = np.clip(np.floor(fy).astype(int), 0, max(h - 2, 0))
    u, v = fx - x0, fy - y0
    got = np.zeros(len(x))
    touch = np.zeros(len(x))
    for dy, wy in ((0, 1 - v), (1, v)):
        for dx, wx in ((0, 1 - u), (1, u)):
            yy, xx = np.minimum(y0 + dy, h - 1), np.minimum(x0 + dx, w - 1)
            got += wy * wx * arr[yy, xx]
            if bad is not None:
                touch = np.maximum(touch, np.where(
                    bad[yy, xx], np.minimum(wy, wx), 0))
    # whether a bad pixel may be touched with the accuracy of OpenCV
    near = np.zeros(len(x), bool)
    if bad is not None:
        for ex in (-.07, .07):
            for ey in (-.07, .07):
                for dy in (0, 1):
                    for dx in (0, 1):
                        yy = np.clip(np.floor(fy + ey).astype(int) + dy, 0, h - 1)
                        xx = np.clip(np.floor(fx + ex).astype(int) + dx, 0, w - 1)
                        near |= bad[yy, xx]
    return got, touch, near


def warps_of(stmts, i):
    n = 0
    best = 0
    s = stmts[i]
    n = int(s['op'] == 'warp')
    prev = [s['on']] if 'on' in s else s.get('parts', [])
    for j in prev:
        best = max(best, warps_of(stmts, j))
    return n + best


def run_pixels(case, rec):
    stmts = case['stmts']
    env = G.infer_all(stmts)
    x = G.build(stmts)[-1]
    for s in stmts:
        rec.label('op-' + s['op'])
    got = x.finalize()
    ensure(got.shape == env[-1].shape or env[-1].fuzzy, 'shape delivered')
    h, w = got.shape[:2]
    chans = T.trace(stmts, env, len(stmts) - 1, T.pixel_centers(h, w),
                    0.0, 0.0, False)
    nodata = nodata_of(stmts, env, len(stmts) - 1)
    claims = nans = 0
    for j, c in enumerate(chans):
        leaf = stmts[c.leaf]
        g = np.asarray(got[:, :, j], np.float64).ravel()
        if leaf['op'] == 'nans':
            if any(s.get('kw', {}).get('border_value', 'auto') != 'auto'
                   for s in stmts):
                continue        # (outside there is the border)
            ensure(np.isnan(g).all(), 'channel {}: data in a part without', j)
            continue
        if not c.ok.any() or c.warps == 0:
            continue
        arr = G.leaf_array(leaf).astype(np.float64)[:, :, c.k]
        bad = None if nodata[j] is None else arr == nodata[j]
        ok = c.ok
        X = c.X[ok]
        want, touch, near = taps(arr, X[:, 0], X[:, 1], bad)
        spread = float(np.ptp(arr))
        integral = leaf['dt'][0] != 'f' and c.a == 1 and c.b == 0
        lim = 0.08 * spread + (0.51 if integral else 0)
        want = c.a * want + c.b
        lim = abs(c.a) * lim + 1e-4 * (1 + np.abs(want))
        v = g[ok]
        wrong = ~(np.abs(v - want) <= lim) & ~near
        wrong |= ~np.isnan(v) & (touch > 0.1)
        if wrong.any():
            n = int(np.argmax(wrong))
            at = int(np.flatnonzero(ok)[n])
            ensure(False, 'row {} column {} channel {}: {:.5g} instead '
                   'of {:.5g} +- {:.3g} (x={:.3f} y={:.3f}){}', at // w,
                   at % w, j, v[n], want[n], lim[n], X[n, 0], X[n, 1],
                   ' no data' if touch[n] else '')
        claims += len(X)
        nans += int((touch > 0.1).sum())
    if nans:
        rec.label('no data')
    rec.label('warps-{}'.format(min(warps_of(stmts, len(stmts) - 1), 4)))
    if claims >= 8 and warps_of(stmts, len(stmts) - 1) >= 2:
        rec.nontrivial()


CHECK = CheckModule('C31', [
    Facet('memory', strat(['ident'], False), run_pixels, 4000,
          rule='noise images, two to four linear warps with crops, selections, '
          'concatenations and a dequantization in between; non-trivial = two '
          'warps or more on top of each other and 8+ demanded pixels'),
    Facet('files', strat(['file', 'ident'], False), run_pixels, 1500,
          rule='the same over raster files'),
    Facet('nodata', strat(['ident', 'file'], True), run_pixels, 1500,
          rule='the same, quantized, with values that are no data'),
])
