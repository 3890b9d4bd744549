"""A nearest warp delivers the source pixel under each pixel's center."""
import hypothesis.strategies as st
import numpy as np

from checks.c16 import coordinates
from vh import graph as G
from vh.core import CheckModule, Facet, ensure, equal

SCALES = [.25, .5, 1, 2, 4, 3, 1.5, .3, .75, 1.7, 5, 2.5, 1 / 3, .9, 7]


def transform(g, w, h):
    k = g.int(0, 13)
    tf = {}
    if k <= 5:
        s = g.pick(SCALES)
        tf['scale'] = s if g.flip() else [s, g.pick(SCALES)]
    elif k <= 7:
        tf['theta'] = g.pick([1.5707963267948966, -1.5707963267948966,
                              3.141592653589793])
        if g.flip():
            tf['about'] = [w / 2, h / 2]
    elif k <= 9:
        tf['theta'] = g.pick([.3, -1.1, 2.5, .05, .009])
        tf['about'] = [w / 2, h / 2]
        tf['scale'] = g.pick(SCALES)
        if g.flip(3):
            tf['shearx'] = g.pick([.2, -.4])
    elif k == 11:
        tf = {'scale': g.pick(SCALES), 'shearx': g.pick([.2, -.4, .03])}
    elif k == 10:
        tf['scale'] = g.pick([[-1, 1], [1, -1], [-2, 1], [-1, -1]])
        tf['offset'] = [w * abs(tf['scale'][0]) if tf['scale'][0] < 0 else 0,
                        h * abs(tf['scale'][1]) if tf['scale'][1] < 0 else 0]
    if k not in (10,) and g.flip():
        tf['offset'] = [g.int(-24, 64) / g.pick([1, 1, 8]) for _ in 'xy']
        if g.flip(3):
            tf['offset'][g.int(0, 1)] = 0
    return tf


def strat(leafs):
    @st.composite
    def s(draw):
        dt = draw(st.sampled_from(['uint8', 'int16', 'float32', 'float64',
                                   'uint16']))
        g = G.Gen(draw, [], leafs=leafs, min_side=1, max_side=16,
                  max_pix=60, max_chan=5, dtypes=[dt], nan=True,
                  file_kw=lambda g, s, f: {'ov': 0})
        side = ['crop', 'crop', 'take', 'chan', 'cat', 'eval', 'opt']
        cur = g.leaf()
        g.ops = side
        for _ in range(g.pick([0, 0, 1, 2])):
            cur = g.step(cur)
        e = g.env[cur]
        kw = {'interpolation': g.pick(['nearest', 'nearest', 0])}
        if g.flip(3):
            kw['antialias'] = g.pick([True, False])
        if g.flip(3):
            kw['border_value'] = g.pick([0, 7, 'auto'])
        tf = transform(g, e.w, e.h)
        v = G.auto_corner(G.matrix(tf), e.w, e.h)
        dsize = 'auto'
        almost = g.flip(10)
        if almost:
            # almost but not a resize
            tf = {'scale': g.pick([2, 3, 1.5, 4]),
                  g.pick(['theta', 'shearx']): g.pick([.03, .05, -.05, .09])}
            if g.flip(3):
                tf['offset'] = [g.pick([0, .05, -.05]) for _ in 'xy']
            dsize = [max(1, int(tf['scale'] * n)) for n in (e.w, e.h)]
        elif g.flip() or v.min() < 1 or v.max() > 60:
            dsize = [g.int(1, 40), g.int(1, 40)]
        how = g.pick(['warp', 'warp', 'warp', 'resize', 'scale'])
        if almost:
            how = 'warp'
        if how == 'resize':
            w2, h2 = [g.int(1, 40), g.int(1, 40)]
            tf = {'scale': [w2 / e.w, h2 / e.h]}
            dsize = [w2, h2]
        elif how == 'scale':
            tf = {'scale': g.pick(SCALES)}
            v = G.auto_corner(G.matrix(tf), e.w, e.h)
            if v.min() < 1 or v.max() > 60:
                how = 'warp'
                dsize = [g.int(1, 40), g.int(1, 40)]
            else:
                dsize = 'auto'
        at = g.add({'op': 'warp', 'on': cur, 'tf': tf, 'dsize': dsize,
                    'kw': kw, 'how': how})
        cur = at
        for _ in range(g.int(0, 3)):
            cur = g.step(cur)
        return {'stmts': G.prune(g.stmts[:cur + 1])}
    return s


def build(stmts):
    objs = []
    for s in stmts:
        if s['op'] == 'warp' and s['how'] != 'warp':
            x = objs[s['on']]
            if s['how'] == 'resize':
                objs.append(x.resize(tuple(s['dsize']), **s['kw']))
            else:
                objs.append(x.scale(s['tf']['scale'], **s['kw']))
        else:
            objs.append(G.apply(s, objs))
    return objs


def footprint(u, a, b):
    """ The source pixels (of a) that pixel u (of b) covers or
    touches at the start, where rounding decides """
    lo = max(min(int(np.floor(u * a / b - 1e-6)), a - 1), 0)
    return lo, min(max(int(np.ceil((u + 1) * a / b - 1e-6)), lo + 1), a)


def run(case, rec):
    stmts = case['stmts']
    env = G.infer_all(stmts)
    wi = [i for i, s in enumerate(stmts) if s['op'] == 'warp']
    if not wi or env[-1].fuzzy:
        rec.label('no warp or rounding edge')
        return
    wi = wi[0]
    w = stmts[wi]
    src = G.exact_values(stmts[:wi])[w['on']]
    h0, w0 = src.shape[:2]
    floats = [s for s in stmts[:wi] if s['op'] in ('ident', 'file')
              and s['dt'].startswith('f')]
    mixed = any(s['op'] == 'nans' for s in stmts) and not floats
    border = w['kw'].get('border_value', 'auto')
    M = G.matrix(w['tf'])
    inv = np.linalg.inv(M)
    x = build(stmts)[-1]
    outs = {}
    for how in ['raw', 'opt']:
        got = x.finalize(optimize=how == 'opt')
        equal(got.shape, env[-1].shape, how + ': shape delivered')
        outs[how] = np.asarray(got, np.float64)
    axis = abs(M[0, 1]) < 1e-9 and abs(M[1, 0]) < 1e-9
    quarter = abs(M[0, 0]) < 1e-9 and abs(M[1, 1]) < 1e-9
    rec.label('axis-aligned' if axis else 'quarter' if quarter else 'rotated')
    whole = bool(axis and np.abs(M - np.round(M)).max() < 1e-9)
    e = env[wi]
    # the image resized to the canvas: any pixel under the delivered one
    fills = (axis and np.abs(M[:2, 2]).max() < 1e-9 and M[0, 0] > 0
             and M[1, 1] > 0 and abs(M[0, 0] * w0 - e.w) < 1
             and abs(M[1, 1] * h0 - e.h) < 1)
    if fills:
        rec.label('resized')
    n = 0
    for k, co in enumerate(coordinates(stmts, env, len(stmts) - 1)):
        if co is None or co[0].size == 0:
            continue
        X = inv[0, 0] * (co[1] + .5) + inv[0, 1] * (co[0] + .5) + inv[0, 2]
        Y = inv[1, 0] * (co[1] + .5) + inv[1, 1] * (co[0] + .5) + inv[1, 2]
        # not near the edge of a source pixel, where rounding decides
        eps = .07
        if axis and M[0, 0] > 0 and M[1, 1] > 0:
            eps = 1e-5      # (sampled exactly)
        sure = np.minimum(np.abs(X - np.round(X)), np.abs(Y - np.round(Y))) > eps
        inside = sure & (X > 0) & (X < w0) & (Y > 0) & (Y < h0)
        out = (X < -eps) | (X > w0 + eps) | (Y < -eps) | (Y > h0 + eps)
        want = src[np.clip(Y.astype(int), 0, h0 - 1),
                   np.clip(X.astype(int), 0, w0 - 1), co[2]]
        if fills:
            spans = [[footprint(u, a, b) for u in range(b)]
                     for a, b in [(h0, e.h), (w0, e.w)]]
            for how in ['raw', 'opt']:
                g = outs[how][:, :, k]
                for at in np.ndindex(g.shape):
                    (a, b), (c, d) = (spans[0][co[0][at]], spans[1][co[1][at]])
                    pool = src[a:b, c:d, co[2]]
                    ensure(g[at] in pool or np.isnan(g[at])
                           and np.isnan(pool).any(), '{}: at {} channel {}: {} '
                           'but the source has {} there', how, at, k, g[at],
                           pool)
            n += co[0].size
            continue
        for how in ['raw', 'opt']:
            g = outs[how][:, :, k]
            ok = (g == want) | (np.isnan(g) & np.isnan(want))
            bad = inside & ~ok
            if bad.any():
                at = tuple(int(i) for i in np.argwhere(bad)[0])
                ensure(False, '{}: at {} channel {}: {} instead of {} (source '
                       'x={:.3f} y={:.3f})', how, at, k, g[at], want[at],
                       X[at], Y[at])
            o = g[out]
            if border == 'auto':
                ok = np.isnan(o) | (o == 0)
                if floats and len(floats) == sum(
                        s['op'] in ('ident', 'file') for s in stmts[:wi]):
                    ok = np.isnan(o)
            else:
                ok = (o == border) | np.isnan(o) if mixed or any(
                    s['op'] == 'nans' for s in stmts) else o == border
            ensure(bool(ok.all()), lambda: '{}: channel {}: {} outside of the '
                   'source'.format(how, k, o[~ok][:3]))
        n += int(inside.sum())
        if out.any():
            rec.label('outside')
    if n:
        rec.label('whole factor' if whole else 'any factor')
    rec.nontrivial(n >= 4 and np.abs(M - np.eye(3)).max() > .01)


CHECK = CheckModule('C23', [
    Facet('memory', strat(['ident']), run, 8000,
          rule='one nearest warp, resize or scale among crops, selections, '
          'concatenations and copies, on any canvas; non-trivial = a real '
          'transform and 4+ pixels inside'),
    Facet('files', strat(['file', 'ident']), run, 3000,
          rule='the same over raster files'),
])
