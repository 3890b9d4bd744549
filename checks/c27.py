"""Warps read the stored overview that fits their scale, never a coarser one."""
import math

import numpy as np

from vh import access as X
from vh import graph as G
from vh.core import CheckModule, Facet, ensure


def levels_shown(got, j, path, stmts):
    """The overview levels whose code the finite pixels of a channel show."""
    v = np.asarray(got[:, :, j], np.float64)
    v = v[np.isfinite(v)]
    for i in path.steps:
        if stmts[i]['op'] == 'deq':
            q = stmts[i]['q']
            v = v * (q['quant_max'] - q['quant_min']) / (
                q['orig_max'] - q['orig_min'])
    return v, (v - G.level_code(0, path.k)) / 100.0


def pow2(v):
    return v > 0 and math.frexp(v)[0] == .5


def halves(stmts, env, path):
    """ Are all warps plain, by powers of two: rounding decides nothing """
    for i in path.steps:
        s = stmts[i]
        if s['op'] == 'warp':
            M = G.matrix(s['tf'])
            if isinstance(s['tf'], list) or set(s['tf']) - {'scale', 'offset'}:
                return False
            sc = M[0, 0], M[1, 1]
        elif s['op'] == 'resize':
            p = env[s['on']]
            sc = s['dsize'][0] / p.w, s['dsize'][1] / p.h
        else:
            continue
        if not (pow2(sc[0]) and pow2(sc[1])):
            return False
    return True


def run(case, rec):
    stmts = case['stmts']
    env = G.infer_all(stmts)
    x = G.build(stmts)[-1]
    ops = [s['op'] for s in stmts]
    paths = X.paths(stmts, env)
    for how in ['raw', 'opt', 'optopt']:
        if how == 'raw':
            got = x.finalize(optimize=False)
        elif how == 'opt':
            got = x.finalize()
        else:
            # (which overviews are stored has to be known)
            got = x.prepare().optimize().finalize()
        for j, path in enumerate(paths):
            _, lev = levels_shown(got, j, path, stmts)
            if not len(lev):
                rec.label('nothing shown')
                continue
            stored = stmts[path.leaf]['ov']
            lo, hi = float(lev.min()), float(lev.max())
            L = int(round(lo))
            kws = [stmts[i].get('kw', {}).get('interpolation', 'linear')
                   for i in path.steps]
            if 'cubic' not in kws:
                ensure(abs(lo - L) < .01 and abs(hi - L) < .01,
                       '{}: channel {} shows no single level: {} to {}', how,
                       j, lo, hi)
            explicit = sum(stmts[i]['n'] for i in path.steps
                           if stmts[i]['op'] == 'over')
            if how == 'raw':
                if not explicit:
                    ensure(L == 0, 'channel {}: overview {} although not '
                           'optimized', j, L)
                continue
            scales = X.prefix_scales(stmts, env, path)
            fits = [X.level_for(a, b) for a, b, _ in scales]
            if halves(stmts, env, path):
                fits = [(hi, hi) for _, hi in fits]
                rec.label('by powers of two')
            most = min(stored, max(f[1] for f in fits))
            if not any(s[2] for s in scales):
                ensure(L <= most, '{}: channel {} shows overview {} although '
                       'it shrinks to {} only', how, j, L,
                       [(round(a, 4), round(b, 4)) for a, b, _ in scales])
            last = fits[-1]
            warps = [i for i in path.steps if stmts[i]['op'] == 'warp']
            # (crops stay above nearest warps)
            near = 'nearest' in kws and len(warps) > 1
            mono = all(b[0] <= a[0] * (1 + 1e-9) and b[1] <= a[1] * (1 + 1e-9)
                       for a, b in zip(scales, scales[1:]))
            if explicit or near or any(s[2] for s in scales):
                continue
            if len(warps) > 1 and not mono:
                rec.label('some enlarge')
                continue
            allowed = {min(stored, v) for v in range(last[0], last[1] + 1)}
            ensure(L in allowed, '{}: channel {} shows overview {} instead of '
                   '{} of {} (scale {:.5g}, {:.5g})', how, j, L,
                   sorted(allowed), stored, scales[-1][0], scales[-1][1])
            rec.label('level-{}'.format(L))
            if len(warps) > 1:
                rec.label('several warps')
            if L and len(stmts) >= 3:
                rec.nontrivial()


CHECK = CheckModule('C27', [
    Facet('one', X.programs(max_warps=1), run, 2500,
          rule='files whose stored overviews hold a code of their level, under '
          'one warp (scales, flips, rotations), crops, selections, '
          'dequantizations, concatenations; non-trivial = an overview fits and '
          '3+ nodes'),
    Facet('many', X.programs(max_warps=4, shrink=True), run, 2000,
          rule='the same with up to 4 warps that do not enlarge'),
    Facet('mixed', X.programs(max_warps=4), run, 1500,
          rule='the same with warps that shrink and enlarge'),
])
