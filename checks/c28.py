"""A cropped image reads little more of its files than the region it shows."""
import numpy as np

from vh import access as X
from vh import graph as G
from vh import trace as T
from vh.core import CheckModule, Facet, ensure


def needed(stmts, env, path):
    """
    Box (x0, y0, x1, y1) of the leaf that the explicit crops ask for, or None
    if that is nothing at all.  Only crops that cut something count.
    """
    box = None          # None: everything
    margin = 0.0
    for i in reversed(path.steps):
        s = stmts[i]
        if 'on' not in s:
            continue
        p = env[s['on']]
        if s['op'] == 'crop' and s['y'] is not None:
            y0, y1 = G.span(s['y'], p.h)
            x0, x1 = G.span(s['x'], p.w)
            if box is None:
                box = [x0, y0, x1, y1]
            else:
                box = [box[0] + x0, box[1] + y0, box[2] + x0, box[3] + y0]
                box = [max(box[0], x0), max(box[1], y0),
                       min(box[2], x1), min(box[3], y1)]
        elif s['op'] == 'warp':
            if s['kw'].get('interpolation') == 'nearest':
                box, margin = None, 0.0
            B = T.step_matrix(s, p)
            f = float(np.abs(B[:, :2]).sum(axis=1).max())
            margin = margin * f + 5 * max(f, 1)
            if box is not None:
                P = np.array([[box[0], box[0], box[2], box[2]],
                              [box[1], box[3], box[1], box[3]]], float)
                P = B[:, :2] @ P + B[:, 2:]
                lo, hi = P.min(axis=1), P.max(axis=1)
                box = [max(lo[0], 0), max(lo[1], 0),
                       min(hi[0], p.w), min(hi[1], p.h)]
        if box is not None and (box[2] <= box[0] or box[3] <= box[1]):
            return None, margin
    leaf = stmts[path.leaf]
    return box or [0, 0, leaf['w'], leaf['h']], margin


def run(case, rec):
    stmts = case['stmts']
    env = G.infer_all(stmts)
    x = G.build(stmts)[-1]
    paths = X.paths(stmts, env)
    total = limit = full = 0
    for path in paths:
        box, margin = needed(stmts, env, path)
        if box is None:
            rec.label('shows nothing')
            return
        leaf = stmts[path.leaf]
        level = min(leaf['ov'], 6)
        scales = X.prefix_scales(stmts, env, path)
        warps = [i for i in path.steps if stmts[i]['op'] == 'warp']
        near = any(stmts[i].get('kw', {}).get('interpolation') == 'nearest'
                   for i in warps)
        if len(warps) > 1 or near or any(s[2] for s in scales):
            level = 0
        else:
            level = min(level, X.level_for(*scales[-1][:2])[0])
        f = 2.0 ** level
        margin = margin / f + 4
        w = min(leaf['w'] / f + 1, (box[2] - box[0]) / f + 2 * margin)
        h = min(leaf['h'] / f + 1, (box[3] - box[1]) / f + 2 * margin)
        # (crops and selections stay above nearest warps)
        limit += w * h * (leaf['c'] if near else 1)
        full += leaf['w'] * leaf['h']
    with X.watch() as log:
        x.finalize()
    total = sum(w * h * n for _, _, w, h, n in log)
    if not log:
        rec.label('nothing seen')
        return
    ensure(total <= limit, 'reads {} pixels where {:.0f} are enough for what '
           'is shown, of {} in all', total, limit, full)
    rec.label('reads-{}%'.format(int(round(total / full, 1) * 100)))
    rec.nontrivial(limit < full / 3 and len(stmts) >= 3)


CHECK = CheckModule('C28', [
    Facet('crops', X.programs(max_warps=2, crops='small', side=(80, 260)), run,
          2500, rule='small crops of big files among warps, selections, '
          'dequantizations, concatenations; counts what GDAL reads; '
          'non-trivial = at most a third is needed and 3+ nodes'),
    Facet('deep', X.programs(max_warps=4, crops='small', side=(80, 260),
                             interps=['linear', 'linear', 'cubic']),
          run, 1500, rule='the same with more warps'),
])
