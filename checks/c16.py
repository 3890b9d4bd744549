"""The parameters of a warp are honored, optimized or not."""
import numpy as np

import hypothesis.strategies as st

from vh import graph as G
from vh.core import CheckModule, Facet, ensure, equal

SC = [.25, .5, 1, 2, 4]
ODD = [.3, .75, .6, 1.1, 1.25, 1.5, 1.7, 2.3, 3]

NAMES = dict(enumerate(['nearest', 'linear', 'cubic', 'area', 'lanczos']))


def transform(g, w, h):
    tf = {}
    k = g.int(0, 11)
    exact = True
    if k <= 6:
        tf['scale'] = g.pick([g.pick(SC), [g.pick(SC), g.pick(SC)]])
    elif k in (7, 10):
        tf['scale'] = [g.pick(ODD), g.pick(ODD)]
        exact = False
    elif k == 8:
        tf['theta'] = g.pick([.3, -1.1, 2.5])
        tf['about'] = [w / 2, h / 2]
        exact = False
    elif k == 9:
        tf['scale'] = g.pick([[-1, 1], [1, -1], [-2, 1]])
        tf['offset'] = [w, h]
    if g.flip() and k != 9:
        tf['offset'] = [g.int(-24, 64) / g.pick([1, 8]) for _ in 'xy']
    return tf, exact


def strat(leafs):
    @st.composite
    def s(draw):
        dt = draw(st.sampled_from(['uint8', 'int16', 'float32', 'float64',
                                   'uint16']))
        isf = dt.startswith('f')
        many = draw(st.integers(0, 5)) == 0
        g = G.Gen(draw, ['crop'], leafs=leafs, min_side=8, max_side=20,
                  max_pix=80, max_chan=1 if many else 3, big_crops=True, dtypes=[dt],
                  unnamed=True, file_kw=lambda g, s, f: {'ov': 0})
        side = ['crop', 'crop', 'take', 'chan', 'cat', 'eval', 'opt']
        cur = g.leaf()
        g.ops = side
        for _ in range(g.int(0, 3)):
            cur = g.step(cur)
        if many:
            # (a border value for each of several parts)
            for _ in range(3):
                if g.env[cur].c < 4:
                    cur = g.concat(cur)
        e = g.env[cur]
        interp = g.pick(['linear', 'linear', 'nearest', 'nearest', 'cubic',
                         'lanczos', 'area'])
        if e.c > 4 and interp in ('cubic', 'lanczos'):
            interp = 'linear'
        kw = {'interpolation': interp}
        if g.flip(6):
            kw['interpolation'] = ['nearest', 'linear', 'cubic', 'area',
                                   'lanczos'].index(interp)
        if interp == 'linear' and g.flip(4):
            del kw['interpolation']
        aa = g.pick([False, False, False, True, None])
        if aa is not None:
            kw['antialias'] = aa
        b = 2 if many else g.int(0, 4)
        if b == 1:
            kw['border_value'] = g.pick([0, 7, 100] + ([-3.5] if isf else []))
        elif b == 2 and 2 <= e.c <= 4:
            pool = [10, 20, 30, 40, 0]
            kw['border_value'] = list(draw(st.permutations(pool)))[:e.c]
        elif b == 3:
            kw['border_value'] = 'auto'
        elif b == 4 and not isf:
            kw['border_value'] = 255
        if g.flip(4):
            kw['backend'] = g.pick(['auto', 'cv2'])
        if g.flip(8):
            kw['noop_eps'] = 0
        tf, exact = transform(g, e.w, e.h)
        v = G.auto_corner(G.matrix(tf), e.w, e.h)
        dsize = 'auto'
        if g.flip(3) or v.min() < 2 or v.max() > 80:
            dsize = [g.int(2, 60), g.int(2, 60)]
        # (whole shifts need no backend)
        foo = np.abs(G.matrix(tf)[:2, :2] - np.eye(2)).max() > .1
        foo = bool(foo) and interp != 'nearest' and g.flip(10)
        if foo:
            kw['backend'] = 'foo'
        at = g.add({'op': 'warp', 'on': cur, 'tf': tf, 'dsize': dsize,
                    'kw': kw})
        cur = at
        if g.flip(3):
            g.ops = side + ['over']
        if foo:
            g.ops = [o for o in g.ops if o != 'eval']
        if interp == 'nearest' and g.flip(3):
            g.ops = ['crop', 'over']
        for _ in range(g.int(0, 4)):
            cur = g.step(cur)
        keep = g.stmts[:cur + 1]
        keep[at] = dict(keep[at], mark=True)
        stmts = G.prune(keep)
        return {'stmts': stmts, 'exact': exact}
    return s


def reference(stmts, aa=None, interp=None):
    """per statement (value, may be written by a border of nearest)."""
    import kwimage
    env = G.infer_all(stmts)
    vals = []
    for s in stmts:
        if s['op'] == 'warp':
            v = vals[s['on']]
            kw = s['kw']
            b = kw.get('border_value', 'auto')
            c = v.shape[2]
            if b == 'auto':
                b = np.nan if v.dtype.kind == 'f' else 0
            b = tuple(b) if isinstance(b, list) else (b,) * min(c, 4)
            if aa is None:
                aa = kw.get('antialias', True)
            M = G.matrix(s['tf'])
            it = interp or kw.get('interpolation', 'linear')
            it = NAMES.get(it, it)
            p = kwimage.Affine(M).decompose()
            sx, sy = p['scale']
            aa = bool(aa) and (sx < 1 or sy < 1) and sx > 0 and sy > 0
            dsize = s['dsize']
            if dsize == 'auto':
                e = env[len(vals)]
                dsize = [e.w, e.h]
            if it == 'nearest':
                vals.append(None)
                return vals
            off = np.round(M[:2, 2]).astype(int)
            if np.abs(M[:2, :2] - np.eye(2)).max() < 1e-9 and \
                    np.abs(M[:2, 2] - off).max() < 1e-9:
                r = np.empty((dsize[1], dsize[0], c), v.dtype)
                r[:] = (list(b) * c)[:c]
                h, w = v.shape[:2]
                y0, x0 = max(off[1], 0), max(off[0], 0)
                y1, x1 = [max(0, q) for q in
                          (min(dsize[1], off[1] + h), min(dsize[0], off[0] + w))]
                if y1 > y0 and x1 > x0:
                    r[y0:y1, x0:x1] = v[y0 - off[1]:y1 - off[1],
                                        x0 - off[0]:x1 - off[0]]
                vals.append(r)
                continue
            r = kwimage.warp_affine(
                np.ascontiguousarray(v), M, dsize=tuple(dsize),
                interpolation=it, antialias=aa, border_value=b,
                origin_convention='corner')
            vals.append(r.reshape(r.shape[:2] + (-1,)))
        elif s['op'] in ('ident', 'file'):
            vals.append(G.leaf_array(s))
        elif s['op'] == 'nans':
            vals.append(np.full((s['h'], s['w'], s['c']), np.nan))
        elif s['op'] == 'take':
            vals.append(G.exact_values_take(s, vals, env))
        elif s['op'] == 'over':
            vals.append(vals[s['on']][::2 ** s['n'], ::2 ** s['n']])
        else:
            vals.append(G.exact_value(s, vals))
    return vals


def coordinates(stmts, env, i):
    """
    For each channel of statement i: the canvas positions of the warp of its
    pixels, or None where the channel does not come from the warp; with the
    channel of the warp.
    """
    s = stmts[i]
    e = env[i]
    if s['op'] == 'warp':
        rows, cols = np.mgrid[0:e.h, 0:e.w]
        return [(rows, cols, k) for k in range(e.c)]
    if s['op'] in ('ident', 'file', 'nans'):
        return [None] * e.c
    if s['op'] == 'cat':
        return [c for j in s['parts'] for c in coordinates(stmts, env, j)]
    cs = coordinates(stmts, env, s['on'])
    p = env[s['on']]
    if s['op'] == 'crop':
        idx = G.chan_list(s.get('c'), p.c)
        if s['y'] is not None:
            sl = (slice(*s['y']), slice(*s['x']))
            cs = [None if c is None else (c[0][sl], c[1][sl], c[2])
                  for c in cs]
        return cs if idx is None else [cs[k] for k in idx]
    if s['op'] == 'over':
        n = 2 ** s['n']
        return [None if c is None else (c[0][::n, ::n], c[1][::n, ::n], c[2])
                for c in cs]
    if s['op'] == 'take':
        if s['names'] is None:
            return [cs[k] for k in G.chan_list(s['idx'], p.c)]
        return [cs[p.names.index(n)] for n in s['names']]
    return cs


def whole(stmts, env, wi):
    vals = np.concatenate([G.leaf_array(s).ravel() for s in stmts[:wi]
                           if s['op'] in ('ident', 'file')])
    return np.tile(vals[:, None, None], (1, 1, env[wi].c))


def run(case, rec):
    stmts = case['stmts']
    env = G.infer_all(stmts)
    wi = [i for i, s in enumerate(stmts) if s['op'] == 'warp']
    if not wi or env[-1].fuzzy:
        rec.label('no warp or rounding edge')
        return
    wi = wi[0]
    w = stmts[wi]
    kinds = set(s['op'] for s in stmts[:wi])
    if 'nans' in kinds and not all(s['dt'].startswith('f') for s in stmts
                                   if s['op'] in ('ident', 'file')):
        rec.label('integers joined with nan')
        return
    if 'nans' in kinds and w['kw'].get('border_value', 'auto') != 'auto':
        rec.label('border of a part without data')
        return
    kw = w['kw']
    c = env[wi].c
    interp = kw.get('interpolation', 'linear')
    interp = NAMES.get(interp, interp)
    border = kw.get('border_value', 'auto')
    rec.label('interp-{}'.format(interp),
              'border-' + ('channels' if isinstance(border, list)
                           else 'auto' if border == 'auto' else 'scalar'),
              'aa-{}'.format(kw.get('antialias')))
    src = reference(stmts[:wi])
    isf = src[w['on']].dtype.kind == 'f'
    fill = np.nan if isf else 0
    fills = ([fill] * c if border == 'auto' else
             border if isinstance(border, list) else [border] * c)
    x = G.build(stmts)[-1]
    outs = {}
    co = coordinates(stmts, env, len(stmts) - 1)
    if kw.get('backend') == 'foo':
        if 'nans' in kinds or all(c is None for c in co):
            return
        grow = np.linalg.norm(G.matrix(w['tf'])[:2, :2], 2)
        if grow > 1.9 and any(s['op'] == 'over' for s in stmts):
            return      # may undo each other
        for how in ['raw', 'opt']:
            try:
                x.finalize(optimize=how == 'opt')
            except KeyError:
                continue
            ensure(False, '{}: the backend was ignored', how)
        rec.label('backend')
        rec.nontrivial(len(stmts) > 2)
        return
    for how in ['raw', 'opt']:
        got = x.finalize(optimize=how == 'opt')
        equal(got.shape, env[-1].shape, how + ': shape delivered')
        outs[how] = np.asarray(got, np.float64)
    rec.nontrivial(len(stmts) > 2 and env[-1].w * env[-1].h >= 9
                   and any(k is not None for k in
                           coordinates(stmts, env, len(stmts) - 1)))

    # (1) borders: pixels surely outside, in each channel
    M = G.matrix(w['tf'])
    inv = np.linalg.inv(M)
    reach = 1 + {'cubic': 2, 'lanczos': 4}.get(interp, 1)
    over = 2 ** sum(s['n'] for s in stmts if s['op'] == 'over')
    # optimized overviews may be taken below the warp
    reach *= 2 * over if over > 1 else 1
    p = env[w['on']]
    skirt = np.zeros(env[-1].shape, bool)
    for k, co in enumerate(coordinates(stmts, env, len(stmts) - 1)):
        if co is None or co[0].size == 0:
            continue
        X = (inv[0, 0] * (co[1] + .5) + inv[0, 1] * (co[0] + .5) + inv[0, 2])
        Y = (inv[1, 0] * (co[1] + .5) + inv[1, 1] * (co[0] + .5) + inv[1, 2])
        out = (X < -reach) | (X > p.w + reach) | (Y < -reach) | (Y > p.h + reach)
        want = fills[co[2]]
        # a crop that shows none of the image may not read its edge
        inside = (X >= 0) & (X <= p.w) & (Y >= 0) & (Y <= p.h)
        skirt[:, :, k] = ~(inside | out)
        for how in ['raw', 'opt']:
            g = outs[how][:, :, k][out]
            ok = np.isnan(g) if want != want else np.isclose(g, want, 1e-5)
            # an empty result may have become a part without data
            ensure(bool(ok.all()), lambda: '{}: border of channel {} (of warp '
                   'channel {}): {} instead of {}'.format(
                       how, k, co[2], g[~ok][:3], want))
        if out.any():
            rec.label('outside')

    # (2) nearest: nothing but values of the source and the border
    if interp == 'nearest':
        if over > 1 and any(s['op'] in ('eval', 'opt') for s in stmts[wi:]):
            rec.label('overview of a copy')     # (may be interpolated)
            return
        cs = coordinates(stmts, env, len(stmts) - 1)
        for k, co in enumerate(cs):
            if co is None:
                continue
            if over > 1:
                # may be taken of more of the source than the crop shows
                src = {w['on']: whole(stmts, env, wi)}
            pool = np.append(src[w['on']][:, :, co[2]].astype(np.float64),
                             fills[co[2]])
            for how in ['raw', 'opt']:
                g = outs[how][:, :, k]
                ok = np.isin(g, pool) | np.isnan(g)
                ensure(bool(ok.all()), lambda: '{}: nearest delivers {} which '
                       'is no value of the source'.format(how, g[~ok][:3]))
                bad = np.isnan(g).any() and not np.isnan(pool).any()
                ensure(not bad, '{}: nearest delivers nan', how)
        return

    # (3) everything: the same warp by kwimage, then NumPy
    want = reference(stmts)[-1].astype(np.float64)
    nanborder = np.isnan(fills).any()
    if nanborder and interp in ('cubic', 'lanczos'):
        rec.label('not judged: nan in wide kernels')
        return
    a = src[w['on']].astype(float)
    spread = 1.0
    if np.isfinite(a).any():
        spread = max(spread, np.nanmax(a) - np.nanmin(a),
                     np.nanmax(np.abs(fills + [0])))
    blur = bool(kw.get('antialias', True)) and (
        np.linalg.svd(M[:2, :2])[1].min() < .999)
    if any(s['op'] in ('eval', 'opt') for s in stmts[wi:]):
        outs['raw'] = want      # (evaluated optimized)
    # (pixels on the very edge may become nan by rounding)
    tol = 1e-5 if case['exact'] else .05
    msg = near(outs['raw'], want, tol * spread + (0 if isf else .51),
               nan=case['exact'])
    ensure(msg is None, 'raw: {}', msg)
    if blur:
        # cropping first changes what is blurred at the edge of the crop; but
        # the blur may not be lost or come from elsewhere
        flip = reference(stmts, aa=False)[-1].astype(np.float64)
    elif kw.get('antialias', True) is False and \
            np.linalg.svd(M[:2, :2])[1].min() < .999:
        flip = reference(stmts, aa=True)[-1].astype(np.float64)
    else:
        flip = None
    if flip is not None and over == 1:
        d = np.nanmean(np.abs(outs['opt'] - want)) if want.size else 0
        f = np.nanmean(np.abs(flip - want)) if want.size else 0
        if f > .05 * spread:
            part = blur and outs['opt'].shape[:2] != (env[wi].h, env[wi].w)
            if part:
                # other pixels are blurred at the edges of the part read,
                # which is all there is of a small part
                o = np.nanmean(np.abs(outs['opt'] - flip))
                d = 0 if o > .1 * f or want.size < 4 else d
            ensure(d < .5 * f, 'optimized: antialiasing {}: off by {:.3g} on '
                   'average, the opposite would be by {:.3g}',
                   'lost' if blur else 'gained', d, f)
            rec.label('antialias-told')
    if over > 1:
        rec.label('overview after')
        return
    if not blur:
        tol = 1e-4 if case['exact'] else .1
        msg = near(np.where(skirt, want, outs['opt']), want, tol * spread + (0 if isf else 1.01),
                   nan=case['exact'])
        ensure(msg is None, 'optimized: {}', msg)
        rec.label('compared')


def near(got, want, tol, nan=True):
    gn, wn = np.isnan(got), np.isnan(want)
    if nan and (gn != wn).any():
        at = tuple(int(i) for i in np.argwhere(gn != wn)[0])
        return 'at {}: {} instead of {}'.format(at, got[at], want[at])
    with np.errstate(invalid='ignore'):
        d = np.abs(got - want)
    d[gn | wn] = 0
    if (d > tol).any():
        at = tuple(int(i) for i in np.argwhere(d > tol)[0])
        return 'at {}: {} instead of {} +- {:.3g}'.format(
            at, got[at], want[at], tol)
    return None


# ------------------------------------------------- warps that use an overview

def over_strat():
    @st.composite
    def s(draw):
        dt = draw(st.sampled_from(['uint8', 'int16', 'float32', 'uint16']))
        isf = dt.startswith('f')
        g = G.Gen(draw, ['crop'], leafs=['file'], min_side=16, max_side=64,
                  max_chan=4, dtypes=[dt], unnamed=True, max_pix=80)
        cur = g.leaf()
        leaf = g.stmts[cur]
        leaf['ov'] = g.int(1, 3)
        leaf['known'] = g.pick([False, True, 'all'])
        if leaf['known'] is True:
            leaf['known'] = 'all'
        leaf.pop('nd', None)

        def take(cur):
            e = g.env[cur]
            perm = list(draw(st.permutations(range(e.c))))
            return g.add({'op': 'take', 'on': cur, 'names': None,
                          'idx': perm[:g.int(1, e.c)]})
        if g.flip(3):
            cur = take(cur)
        e = g.env[cur]
        scales = [.5, .25, .125, .4, .3, .2, .1, .45, 1 / 3, .26, .24]
        a = g.pick(scales)
        tf = {'scale': g.pick([a, [a, g.pick(scales)]])}
        k = g.int(0, 5)
        if k == 0:
            tf['theta'] = g.pick([.3, -1.1, np.pi / 2])
        elif k == 1:
            tf['scale'] = [a * g.pick([1, -1]), a * g.pick([1, -1])]
        M = G.matrix(tf)
        pts = M[:2, :2] @ np.array([[0, e.w, 0, e.w], [0, 0, e.h, e.h]], float)
        lo, hi = pts.min(axis=1), pts.max(axis=1)
        extra = [g.pick([0, 0, 1, 2.5, -1.25, 4]) for _ in 'xy']
        off = [round(float(v), 6) for v in (extra - lo)]
        if any(off):
            tf['offset'] = off
        dsize = [max(1, int(np.ceil(v)) + g.pick([0, 0, 3, 7, -1]))
                 for v in hi - lo]
        interp = g.pick(['linear', 'linear', 'nearest', 'cubic', 'lanczos',
                         'area'])
        kw = {'interpolation': interp}
        if g.flip(5):
            kw['interpolation'] = ['nearest', 'linear', 'cubic', 'area',
                                   'lanczos'].index(interp)
        aa = g.pick([False, False, True, None])
        if aa is not None:
            kw['antialias'] = aa
        b = g.int(0, 3)
        if b == 1:
            kw['border_value'] = g.pick([0, 7, 100])
        elif b == 2 and 2 <= e.c <= 4:
            kw['border_value'] = list(draw(st.permutations(
                [10, 20, 30, 40, 0])))[:e.c]
        foo = interp != 'nearest' and g.flip(10)
        if foo:
            kw['backend'] = 'foo'
        at = cur = g.add({'op': 'warp', 'on': cur, 'tf': tf, 'dsize': dsize,
                          'kw': kw})
        if g.flip(3):
            cur = take(cur)
        if g.flip(3):
            e = g.env[cur]
            cur = g.add({'op': 'crop', 'on': cur, 'c': None, 'how': 'item',
                         'y': g.bounds(e.h), 'x': g.bounds(e.w)})
        return {'stmts': g.stmts[:cur + 1], 'at': at}
    return s


def levels_of(tf, ov):
    from vh import access
    M = np.linalg.inv(G.matrix(tf)[:2, :2])
    out = set()
    for sx, sy in [scales(np.linalg.inv(M))]:
        lo, hi = access.level_for(sx, sy)
        out |= {min(lo, ov), min(hi, ov)}
    return sorted(out)


def scales(A):
    sx = float(np.hypot(A[0, 0], A[1, 0]))
    return sx, abs(float(np.linalg.det(A))) / sx


def positions(A, dsize):
    inv = np.linalg.inv(A)
    rows, cols = np.mgrid[0:dsize[1], 0:dsize[0]]
    return (inv[0, 0] * (cols + .5) + inv[0, 1] * (rows + .5) + inv[0, 2],
            inv[1, 0] * (cols + .5) + inv[1, 1] * (rows + .5) + inv[1, 2])


def near_nearest(A, dsize, v, border, got):
    """The pixel under the center, or of a plain resize the one at the start;
    returns the wrong pixels"""
    h, w = v.shape[:2]
    P = list(positions(A, dsize))
    ways = [P]
    if np.abs(A[:2, 2]).max() < 1e-9 and A[0, 0] > 0 and A[1, 1] > 0:
        rows, cols = np.mgrid[0:dsize[1], 0:dsize[0]]
        ways.append([cols * w / dsize[0], rows * h / dsize[1]])
    ok = np.zeros(got.shape, bool)
    for X, Y in ways:
        for dx in (-.06, .06):
            for dy in (-.06, .06):
                x = np.floor(X + dx).astype(int)
                y = np.floor(Y + dy).astype(int)
                out = (x < 0) | (x >= w) | (y < 0) | (y >= h)
                r = v[np.clip(y, 0, h - 1), np.clip(x, 0, w - 1)].astype(float)
                r[out] = border
                ok |= (got == r) | (np.isnan(r) & np.isnan(got))
    return ~ok


def over_run(case, rec):
    import kwimage
    stmts, at = case['stmts'], case['at']
    env = G.infer_all(stmts)
    leaf, w = stmts[0], stmts[at]
    kw = w['kw']
    if env[-1].w * env[-1].h == 0:
        rec.label('empty')
        return
    interp = kw.get('interpolation', 'linear')
    interp = NAMES.get(interp, interp)
    border = kw.get('border_value', 'auto')
    c = env[at].c
    isf = leaf['dt'].startswith('f')
    fill = np.nan if isf else 0
    fills = ([fill] * c if border == 'auto' else
             border if isinstance(border, list) else [border] * c)
    objs = []
    for s in stmts:
        objs.append(G.make_leaf(s) if s['op'] == 'file' else G.apply(s, objs))
    x = objs[-1]
    M = G.matrix(w['tf'])
    M = M if M.shape == (3, 3) else np.vstack([M, [0, 0, 1]])
    allowed = levels_of(w['tf'], leaf['ov'])
    rec.label('interp-' + interp, *['level-%d' % v for v in allowed])
    crop = [s for s in stmts[at:] if s['op'] == 'crop']
    wide = interp in ('cubic', 'lanczos')
    if kw.get('backend') == 'foo':
        if all(np.abs(M[:2, :2] * 2 ** L - np.eye(2)).max() > .01
               for L in allowed):
            for how in ['raw', 'opt']:
                try:
                    x.finalize(optimize=how == 'opt')
                except KeyError:
                    continue
                ensure(False, '{}: the backend was ignored', how)
            rec.label('backend')
        return
    if wide and (np.isnan(fills).any() or c > 4):
        rec.label('not judged: nan in wide kernels')
        return
    plain = len(w['tf']) == 1 and 'scale' in w['tf'] and all(
        np.log2(abs(v)) % 1 == 0 for v in np.ravel(w['tf']['scale']))
    judged = {}
    for how, Ls in [('raw', [0]), ('opt', allowed)]:
        got = x.finalize(optimize=how == 'opt')
        equal(got.shape, env[-1].shape, how + ': shape delivered')
        got = got.astype(float)
        msgs = []
        for L in Ls:
            v = G.make_leaf(leaf)
            v = (v.get_overview(L) if L else v).finalize(optimize=False)
            for s in stmts[1:at]:
                v = v[:, :, s['idx']]
            A = M @ np.diag([2.0 ** L, 2.0 ** L, 1])
            dsize = tuple(w['dsize'])
            sl, idx = (slice(None), slice(None)), list(range(c))
            for s in stmts[at + 1:]:
                if s['op'] == 'take':
                    idx = [idx[k] for k in s['idx']]
                else:
                    sl = (slice(*s['y']), slice(*s['x']))
            full = np.zeros(dsize[::-1] + (c,))
            sure = np.zeros(dsize[::-1], bool)
            sure[sl] = True
            if interp == 'nearest' or np.abs(A - np.eye(3)).max() < 1e-9:
                # (crops above are undone: their pixels only)
                bad = np.zeros(got.shape[:2], bool)
                for n, k in enumerate(idx):
                    full[sl + (k,)] = got[:, :, n]
                    miss = near_nearest(A, dsize, v[:, :, k], fills[k],
                                        full[:, :, k])
                    bad |= miss[sl]
                m = None
                if bad.any():
                    m = 'at {}: {} is not the pixel there'.format(
                        np.argwhere(bad)[0].tolist(), got[bad][0])
            else:
                p = kwimage.Affine(A).decompose()
                sx, sy = p['scale']
                aa = kw.get('antialias', True) and (sx < 1 or sy < 1) \
                    and sx > 0 and sy > 0
                r = kwimage.warp_affine(
                    np.ascontiguousarray(v), A, dsize=dsize,
                    interpolation=interp, antialias=bool(aa),
                    border_value=tuple((fills * 4)[:4] if c > 4 else fills),
                    origin_convention='corner')
                r = r.reshape(r.shape[:2] + (-1,)).astype(float)
                spread = max(1.0, np.ptp(v.astype(float)),
                             np.nanmax(np.abs(fills + [0])))
                tol = (1e-6 * spread if isf else .51)
                if how == 'opt':
                    # (positions are rounded to a part of a pixel)
                    tol = (1e-5 if plain else .08) * spread + (
                        0 if isf else 1.01)
                    if aa and crop:
                        sure[:] = False
                # at the very edge rounding decides
                k = 4 if crop and wide else 1
                for P, n in zip(positions(A, dsize), v.shape[1::-1]):
                    for e in (0, n):
                        sure &= np.abs(P - e) > k + 1 / 8
                sure = sure[sl][:, :, None]
                r = r[sl][:, :, idx]
                m = near(np.where(sure, got, 0), np.where(sure, r, 0), tol)
            if m is None:
                break
            msgs.append('level {}: {}'.format(L, m))
        else:
            ensure(False, '{}: {}', how, '; '.join(msgs))
        judged[how] = sure.mean() if sure.size else 0
    if judged['opt'] > .3:
        rec.label('compared')
        rec.nontrivial(max(allowed) > 0)


# ------------------------------------------------ warps that undo an overview

@st.composite
def absorbs(draw):
    dt = draw(st.sampled_from(['uint8', 'float32', 'uint16']))
    g = G.Gen(draw, ['take'], leafs=['ident'], min_side=8, max_side=32,
              max_chan=4, dtypes=[dt], unnamed=True)
    cur = g.leaf()
    e = g.env[cur]
    # (simulated overviews select; the channels stay as they are)
    cur = over = g.add({'op': 'over', 'on': cur, 'n': g.int(1, 2)})
    e = g.env[cur]
    big, any_ = [2, 2.5, 3, 4, 5], [.25, .3, .5, .6, .75, 1, 1.5, 2, 3, 4]
    sc = [g.pick(big), g.pick(any_)]
    if g.flip():
        sc = sc[::-1]
    tf = {'scale': sc}
    if g.flip(3):
        tf['offset'] = [g.int(-8, 8) / g.pick([1, 2]) for _ in 'xy']
    interp = g.pick(['linear', 'linear', 'linear', 'cubic', 'area', 'lanczos',
                     'nearest'])
    kw = {'interpolation': interp}
    aa = g.pick([False, False, True, None])
    if aa is not None:
        kw['antialias'] = aa
    b = g.int(0, 3)
    if b == 1:
        kw['border_value'] = g.pick([0, 7, 100])
    elif b == 2 and 2 <= e.c <= 4:
        kw['border_value'] = list(draw(st.permutations(
            [10, 20, 30, 40, 0])))[:e.c]
    dsize = [max(2, int(e.w * sc[0]) + g.pick([0, 0, 4, -2])),
             max(2, int(e.h * sc[1]) + g.pick([0, 0, 4, -2]))]
    if interp != 'nearest' and g.flip(10):
        kw['backend'] = 'foo'
    g.add({'op': 'warp', 'on': over, 'tf': tf, 'dsize': dsize, 'kw': kw})
    return {'stmts': g.stmts}


def absorb_run(case, rec):
    stmts = case['stmts']
    leaf, over, w = stmts
    kw = w['kw']
    x = G.build(stmts)[-1]
    dt = leaf['dt']
    if kw.get('backend') == 'foo':
        try:
            x.finalize()
        except KeyError:
            rec.label('backend')
            return
        M = G.matrix(w['tf'])
        # (may have become a whole shift)
        ensure(np.abs(np.diag(M)[:2] / 2 ** over['n'] - 1).max() < 1e-9,
               'the backend was ignored')
        return
    got = np.asarray(x.finalize(), np.float64)
    interp = kw.get('interpolation', 'linear')
    if interp == 'nearest':
        a = G.leaf_array(leaf)
        border = kw.get('border_value', 'auto')
        fills = ([np.nan if dt[0] == 'f' else 0] if border == 'auto' else
                 border if isinstance(border, list) else [border])
        pool = np.append(a.ravel().astype(float), fills)
        ensure(bool((np.isin(got, pool) | np.isnan(got)).all()),
               'nearest delivers values that the source has not')
        rec.label('nearest')
        rec.nontrivial()
        return
    if kw.get('border_value', 'auto') == 'auto' and dt[0] == 'f' and \
            interp in ('cubic', 'lanczos'):
        return
    S = np.diag([.5 ** over['n'], .5 ** over['n'], 1])
    fused = dict(w, on=0, tf=(G.matrix(w['tf']) @ S).tolist())
    msgs = []
    spread = float(np.ptp(G.leaf_array(leaf).astype(float))) or 1.
    for name, ss in [('of the overview', stmts), ('of the image', [leaf, fused])]:
        want = reference(ss)[-1].astype(np.float64)
        msg = near(got, want, .02 * spread + (1.01 if dt[0] != 'f' else 0),
                   nan=False)
        if msg is None:
            rec.label(name, 'antialias-{}'.format(kw.get('antialias')))
            rec.nontrivial()
            return
        msgs.append(name + ': ' + msg)
    ensure(False, 'neither the warp {}', ' nor '.join(msgs))


CHECK = CheckModule('C16', [
    Facet('memory', strat(['ident']), run, 10000,
          rule='one warp with every parameter among crops, selections, '
          'concatenations and copies; non-trivial = some of its pixels are '
          'delivered through another operation'),
    Facet('files', strat(['file', 'ident']), run, 3000,
          rule='the same over raster files'),
    Facet('overviews', over_strat(), over_run, 2000,
          rule='one shrinking warp with every parameter of a file with stored '
          'overviews, against the warp of the level it may use; non-trivial ='
          ' compared, and the level is not the full resolution'),
    Facet('absorbed', lambda: absorbs(), absorb_run, 2000,
          rule='one warp with every parameter that enlarges a simulated '
          'overview in an axis, against the same warp of the overview or of '
          'the image itself; non-trivial = compared'),
])
