"""Crops follow NumPy slicing; without clipping they pad with no data."""
import hypothesis.strategies as st
import numpy as np

from vh import graph as G
from vh.core import CheckModule, Facet, ensure, equal

KINDS = ['norm', 'norm', 'pad', 'pad', 'pad', 'take', 'over', 'cat', 'opt', 'eval']


def bound(g, n, wrapping):
    kind = g.int(0, 9)
    if kind == 0:
        return None
    if wrapping:
        if kind <= 2:
            return -g.int(1, n + 3)
        return g.int(0, n + 4)
    return g.int(-5, n + 5)


def strat(leafs):
    @st.composite
    def s(draw):
        dt = draw(st.sampled_from(['uint8', 'int16', 'float32', 'float64']))
        isf = dt.startswith('f')
        g = G.Gen(draw, [], leafs=leafs + (['nans'] if isf else []),
                  max_side=9, nan=isf, max_chan=4, dtypes=[dt],
                  file_kw=lambda g, s, f: {'ov': 0})
        i = g.leaf()
        leaf = g.stmts[i]
        w, h = g.env[i].w, g.env[i].h
        c = g.env[i].c
        steps = []
        for _ in range(g.int(1, 5)):
            k = g.pick(KINDS)
            if k in ('norm', 'pad') :
                st_ = {'k': k, 'chan': g.chan_index(c) if g.flip(4) else None,
                       'lazy': g.flip(3)}
                if k == 'norm':
                    if g.flip(6):
                        y, x = g.pick([[0, h], [None, None]]), g.pick(
                            [[0, w], [None, w]])
                    else:
                        y = [bound(g, h, True), bound(g, h, True)]
                        x = [bound(g, w, True), bound(g, w, True)]
                    (a, b), (p, q) = G.span(y, h), G.span(x, w)
                    h2, w2 = b - a, q - p
                    st_['how'] = g.pick(['crop', 'crop', 'item'])
                else:
                    y = [bound(g, h, False), bound(g, h, False)]
                    x = [bound(g, w, False), bound(g, w, False)]
                    yy = [0 if y[0] is None else y[0], h if y[1] is None else y[1]]
                    xx = [0 if x[0] is None else x[0], w if x[1] is None else x[1]]
                    if yy[0] > yy[1]:
                        y = yy = yy[::-1]
                    if xx[0] > xx[1]:
                        x = xx = xx[::-1]
                    pad = g.pick([0, 0, 1, 3, [[g.int(0, 3), g.int(0, 3)],
                                               [g.int(0, 3), g.int(0, 3)]]])
                    p2 = [[pad] * 2] * 2 if isinstance(pad, int) else pad
                    h2 = yy[1] - yy[0] + sum(p2[0])
                    w2 = xx[1] - xx[0] + sum(p2[1])
                    st_['pad'] = pad
                if h2 < 1 or w2 < 1 or max(h2, w2) > 40:
                    continue
                st_['y'], st_['x'] = y, x
                h, w = h2, w2
                idx = G.chan_list(st_['chan'], c)
                c = c if idx is None else len(idx)
            elif k == 'take':
                perm = list(draw(st.permutations(range(c))))[:g.int(1, c)]
                st_ = {'k': k, 'idx': perm}
                c = len(perm)
            elif k == 'over':
                n = g.pick([0, 1, 1, 2])
                st_ = {'k': k, 'n': n}
                if n and any(t['k'] in ('pad', 'norm') for t in steps):
                    continue        # optimizing takes other pixels then
                h, w = -(-h // 2 ** n), -(-w // 2 ** n)
            elif k == 'cat':
                if c > 8:
                    continue
                st_ = {'k': k}
                c *= 2
            else:
                st_ = {'k': k}
            steps.append(st_)
        return {'leaf': leaf, 'steps': steps}
    return s


def shift(y, x, h, w):
    yy = [0 if y[0] is None else y[0], h if y[1] is None else y[1]]
    xx = [0 if x[0] is None else x[0], w if x[1] is None else x[1]]
    return yy, xx


def padded(val, y, x, pad, fill):
    h, w = val.shape[:2]
    yy, xx = shift(y, x, h, w)
    p2 = [[pad] * 2] * 2 if isinstance(pad, int) else pad
    y0, y1 = yy[0] - p2[0][0], yy[1] + p2[0][1]
    x0, x1 = xx[0] - p2[1][0], xx[1] + p2[1][1]
    out = np.full((y1 - y0, x1 - x0, val.shape[2]), fill, dtype=np.float64)
    a, b = max(y0, 0), min(y1, h)
    p, q = max(x0, 0), min(x1, w)
    if b > a and q > p:
        out[a - y0:b - y0, p - x0:q - x0] = val[a:b, p:q]
    return out


def run_crops(case, rec):
    from delayed_image import DelayedChannelConcat
    leaf = dict(case['leaf'])
    leaf['chan'] = None
    x = G.make_leaf(leaf)
    if leaf['op'] == 'nans':
        val = np.full((leaf['h'], leaf['w'], leaf['c']), np.nan)
        fill = np.nan
    else:
        val = G.leaf_array(leaf).astype(np.float64)
        fill = np.nan if leaf['dt'].startswith('f') else 0
    npad = 0
    for s in case['steps']:
        k = s['k']
        rec.label(k)
        h, w = val.shape[:2]
        if k in ('norm', 'pad'):
            ch = s['chan']
            sl = (slice(*s['y']), slice(*s['x']))
            if k == 'norm':
                if s['how'] == 'item':
                    new = x[sl if ch is None else sl + (G.chan_arg(ch),)]
                else:
                    new = x.crop(sl, G.chan_arg(ch), lazy=s['lazy'])
                val = val[sl]
                whole = sl == (slice(0, h), slice(0, w))
                if s['how'] == 'crop' and s['lazy'] and whole and ch is None:
                    ensure(new is x, 'a lazy crop of everything is not skipped')
                    rec.label('lazy-noop')
            else:
                pad = s['pad']
                arg = pad if isinstance(pad, int) else [tuple(p) for p in pad]
                new = x.crop(sl, G.chan_arg(ch), clip=False, wrap=False,
                             pad=arg, lazy=s['lazy'])
                val = padded(val, s['y'], s['x'], pad, fill)
                npad += 1
            idx = G.chan_list(ch, val.shape[2])
            if idx is not None:
                val = val[:, :, idx]
            x = new
        elif k == 'take':
            x = x.take_channels(s['idx'])
            val = val[:, :, s['idx']]
        elif k == 'over':
            x = x.get_overview(s['n'])
            val = val[::2 ** s['n'], ::2 ** s['n']]
        elif k == 'cat':
            x = DelayedChannelConcat([x, x])
            val = np.concatenate([val, val], axis=2)
        elif k == 'opt':
            x = x.optimize()
        elif k == 'eval' and hasattr(x, 'evaluate'):
            x = x.evaluate()
        equal(G.announced(x), val.shape, 'announced shape after ' + k)
    rec.nontrivial(npad > 0 and len(case['steps']) > 1 and not np.isnan(val).all())
    for how in ['raw', 'opt']:
        got = x.finalize(optimize=how == 'opt')
        msg = G.same(got, val)
        ensure(msg is None, '{}: {}'.format(how, msg))


CHECK = CheckModule('C10', [
    Facet('memory', strat(['ident']), run_crops, 5000, rule='chains of crops, '
          'padded crops, selections, overviews and copies; non-trivial = a '
          'padded crop and another step with data left'),
    Facet('files', strat(['file']), run_crops, 2000,
          rule='the same on raster files'),
])
