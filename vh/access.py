"""
What an image reads of its files: programs of crops, warps, selections and
concatenations over big raster files with stored overviews, and the needed
region and overview level of each file as exact arithmetic on the transforms.
"""
import math
from contextlib import contextmanager

import numpy as np
from hypothesis import strategies as st

from vh import graph as G
from vh import trace as T

SCALES = [1, .5, .25, .125, .5, .25, 2, .75, .3, .6, 1.5, 1 / 3, .2, .9, 3,
          .51, .49, .24, .26]
INTERPS = ['linear'] * 5 + ['cubic', 'nearest']


def transform(g, p, shrink=False):
    """A transform whose result starts at a small offset, and its canvas."""
    kind = g.int(0, 6)
    scales = [s for s in SCALES if s <= 1] if shrink else SCALES
    s = g.pick(scales)
    tf = {'scale': s}
    if kind <= 2:
        tf['scale'] = [s, g.pick([s, g.pick(scales)])]
    elif kind == 3:
        tf['theta'] = g.pick([.3, -.7, math.pi / 2, math.pi, 2.2])
    elif kind == 4:
        tf['scale'] = [s * g.pick([1, -1]), g.pick([s, g.pick(scales)])
                       * g.pick([1, -1])]
    M = G.matrix(tf)
    pts = M[0:2, 0:2] @ np.array([[0, p.w, 0, p.w], [0, 0, p.h, p.h]], float)
    lo, hi = pts.min(axis=1), pts.max(axis=1)
    if kind == 5:
        extra = [g.int(-40, 40) / 8.0, g.int(-40, 40) / 8.0]
    else:
        extra = [g.pick([0, 0, 0, 1, -2, .5]), g.pick([0, 0, 0, 2, -1, .25])]
    off = [round(float(a), 6) for a in (extra - lo)]
    if any(off):
        tf['offset'] = off
    size = [max(1, min(700, int(math.ceil(v - 1e-6)))) for v in hi - lo]
    if g.flip(4):
        size = [max(1, v + g.int(-3, 3)) for v in size]
    return tf, size


def small(g, n):
    """A short range of 0..n."""
    m = min(n, g.pick([3, 8, 15, 30]))
    a = g.int(0, n - m)
    return [a, a + g.int(max(1, m // 2), m)]


def programs(max_warps=3, shrink=False, crops='any', interps=INTERPS,
             side=(40, 160), over=False):
    @st.composite
    def strat(draw):
        g = G.Gen(draw, ['crop'], leafs=['file'], max_side=side[1],
                  min_side=side[0], max_chan=3, dtypes=['float32'],
                  fill='level', unnamed=True, max_pix=700)

        def op(cur, kind):
            p = g.env[cur]
            if kind == 'warp':
                tf, size = transform(g, p, shrink)
                s = {'op': 'warp', 'on': cur, 'tf': tf, 'dsize': size,
                     'kw': {}}
                i = g.pick(interps)
                if i == 'cubic' and p.c > 4:
                    i = 'linear'
                if i != 'linear':
                    s['kw']['interpolation'] = i
            elif kind == 'crop':
                if crops == 'small':
                    y, x = small(g, p.h), small(g, p.w)
                else:
                    y, x = g.bounds(p.h), g.bounds(p.w)
                s = {'op': 'crop', 'on': cur, 'y': y, 'x': x, 'c': None,
                     'how': 'item'}
            elif kind == 'take':
                perm = list(draw(st.permutations(range(p.c))))
                s = {'op': 'take', 'on': cur, 'names': None,
                     'idx': perm[:g.int(1, p.c)]}
            elif kind == 'deq':
                if p.deq:
                    return cur
                s = {'op': 'deq', 'on': cur, 'q': {
                    'orig_min': 0, 'orig_max': g.pick([1, 2]), 'quant_min': 0,
                    'quant_max': 1000, 'orig_dtype': 'float32',
                    'nodata': None}}
            elif kind == 'over':
                s = {'op': 'over', 'on': cur, 'n': g.int(1, 3)}
                if 2 ** s['n'] > min(p.w, p.h):
                    return cur
            return g.add(s)

        def chain(cur, ops, warps):
            for _ in range(g.int(1, 5)):
                kind = g.pick(ops)
                if kind == 'warp':
                    if not warps:
                        continue
                    warps -= 1
                cur = op(cur, kind)
            return cur, warps

        def leaf():
            cur = g.leaf()
            s = g.stmts[cur]
            ov = g.int(0, 4)
            while ov and min(s['w'], s['h']) < 2 ** ov:
                ov -= 1
            s['ov'] = ov
            s['block'] = None
            s['seed'] = 0
            s['known'] = g.pick([False, True, 'all'])
            return cur
        ops = ['warp', 'warp', 'crop', 'crop', 'take', 'deq']
        if over:
            ops = ops + ['over'] * 2
        warps = max_warps
        if warps and g.flip(3):
            # two files in the space of the first
            a, warps = chain(leaf(), ['crop', 'take', 'crop', 'deq'], warps)
            e = g.env[a]
            b = leaf()
            f = g.env[b]
            b = g.add({'op': 'warp', 'on': b, 'tf': {
                'scale': [e.w / f.w, e.h / f.h]}, 'dsize': [e.w, e.h],
                'kw': {}})
            cur = g.add({'op': 'cat', 'parts': [a, b]})
            cur, _ = chain(cur, [o for o in ops if o != 'deq'],
                           max(0, warps - 1))
        else:
            cur, _ = chain(leaf(), ops, warps)
        g.stmts = g.stmts[:cur + 1]
        stmts = G.prune(g.stmts)
        return {'stmts': stmts}
    return strat


class Path:
    """The way from the result to a leaf, for some of the result's channels."""
    __slots__ = ('leaf', 'k', 'steps')

    def __init__(self, leaf, k, steps):
        self.leaf, self.k, self.steps = leaf, k, steps


def paths(stmts, env, i=None):
    """per channel of statement i: its Path (statement indexes, leaf first)"""
    i = len(stmts) - 1 if i is None else i
    s = stmts[i]
    if s['op'] in ('file', 'ident'):
        return [Path(i, k, [i]) for k in range(s['c'])]
    if s['op'] == 'cat':
        return [Path(p.leaf, p.k, p.steps + [i])
                for j in s['parts'] for p in paths(stmts, env, j)]
    sub = paths(stmts, env, s['on'])
    if s['op'] == 'take':
        sub = [sub[j] for j in s['idx']]
    elif s['op'] == 'crop' and s.get('c') is not None:
        sub = [sub[j] for j in G.chan_list(s['c'], env[s['on']].c)]
    return [Path(p.leaf, p.k, p.steps + [i]) for p in sub]


def prefix_scales(stmts, env, path):
    """(sx, sy, sheared) of the leaf in each node on the way."""
    M = np.eye(2)
    out = [(1.0, 1.0, False)]
    for i in path.steps[1:]:
        s = stmts[i]
        if 'on' not in s:
            continue
        B = T.step_matrix(s, env[s['on']])[:, :2]
        M = np.linalg.inv(B) @ M
        sx = float(np.hypot(M[0, 0], M[1, 0]))
        sy = abs(float(np.linalg.det(M))) / sx
        shear = abs(float(M[:, 0] @ M[:, 1])) > 1e-9 * sx * sy
        out.append((sx, sy, shear))
    return out


def level_for(sx, sy):
    """(lowest, highest) fitting overview level: two on an exact boundary."""
    v = math.log2(1 / max(sx, sy))
    lo, hi = math.floor(v - 1e-9), math.floor(v + 1e-9)
    return max(0, lo), max(0, hi)


@contextmanager
def watch():
    """Record (path, columns, rows, bands) of everything GDAL reads."""
    gdal = G._gdal()
    log = []
    band_read, ds_read = gdal.Band.ReadAsArray, gdal.Dataset.ReadAsArray

    def of_band(self, xoff=0, yoff=0, win_xsize=None, win_ysize=None, *a, **k):
        w = self.XSize if win_xsize is None else win_xsize
        h = self.YSize if win_ysize is None else win_ysize
        log.append((self.XSize, self.YSize, w, h, 1))
        return band_read(self, xoff, yoff, win_xsize, win_ysize, *a, **k)

    def of_ds(self, xoff=0, yoff=0, xsize=None, ysize=None, *a, **k):
        w = self.RasterXSize if xsize is None else xsize
        h = self.RasterYSize if ysize is None else ysize
        n = len(k.get('band_list') or range(self.RasterCount))
        log.append((self.RasterXSize, self.RasterYSize, w, h, n))
        depth.append(1)
        try:
            mark = len(log)
            out = ds_read(self, xoff, yoff, xsize, ysize, *a, **k)
            del log[mark:]      # (one band reads through its own method)
            return out
        finally:
            depth.pop()
    depth = []
    gdal.Band.ReadAsArray, gdal.Dataset.ReadAsArray = of_band, of_ds
    try:
        yield log
    finally:
        gdal.Band.ReadAsArray = band_read
        gdal.Dataset.ReadAsArray = ds_read
