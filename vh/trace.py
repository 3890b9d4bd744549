"""
Where every delivered pixel comes from: exact back-tracing of pixel centers
through a program (see vh.graph) to its leafs.

Coordinates are continuous, pixel (row v, column u) covers [u, u+1] x [v, v+1].
A traced channel says, per output pixel: the leaf coordinate, whether the pixel
is surely inside every canvas it went through ("ok"), whether it is surely
outside of the leaf ("out"), and the accuracy that can be demanded in leaf
pixels ("tol").
"""
import numpy as np

from vh import graph as G

EPS = 0.04      # one linear resampling: OpenCV works with 1/32 pixel steps


class Chan:
    __slots__ = ('leaf', 'k', 'X', 'ok', 'out', 'tol', 'half', 'a', 'b', 'warps')

    def __init__(self, leaf, k, X, ok, out, tol, half):
        self.leaf, self.k, self.X = leaf, k, X
        self.ok, self.out, self.tol, self.half = ok, out, tol, half
        self.a, self.b, self.warps = 1.0, 0.0, 0


def norm(A):
    # how far apart (per axis) the images of a box's points can be
    return float(np.abs(A).sum(axis=1).max())


def step_matrix(s, p):
    """node coords -> input coords, 2x3, of one geometric statement."""
    op = s['op']
    if op == 'crop':
        if s['y'] is None:
            return np.eye(3)[0:2]
        y0, _ = G.span(s['y'], p.h)
        x0, _ = G.span(s['x'], p.w)
        return np.array([[1, 0, x0], [0, 1, y0]], float)
    if op == 'pad':
        y0, _ = G.pad_span(s['y'], s['pad'])
        x0, _ = G.pad_span(s['x'], s['pad'])
        return np.array([[1, 0, x0], [0, 1, y0]], float)
    if op == 'warp':
        M = np.eye(3)
        M[0:2] = G.matrix(s['tf'])[0:2]
        return np.linalg.inv(M)[0:2]
    if op == 'resize':
        w, h = s['dsize']
        return np.array([[p.w / w, 0, 0], [0, p.h / h, 0]], float)
    if op == 'over':
        k = 2.0 ** s['n']
        return np.array([[k, 0, 0], [0, k, 0]])
    return np.eye(3)[0:2]


def leaf_matrix(stmts, env, chain):
    """leaf coords -> coords of the last statement of a chain of indexes."""
    M = np.eye(3)
    for i in chain:
        s = stmts[i]
        if 'on' in s:
            B = np.eye(3)
            B[0:2] = step_matrix(s, env[s['on']])
            M = np.linalg.inv(B) @ M
    return M


def stored(stmts, i):
    """(n) total overview level if statement i is overviews on a file."""
    n = 0
    while stmts[i]['op'] == 'over':
        n += stmts[i]['n']
        i = stmts[i]['on']
    if stmts[i]['op'] == 'file':
        return n <= (stmts[i].get('ov') or 0)
    return False


def flat(stmts, i):
    """Nothing is resampled up to here, so crops cut exactly."""
    s = stmts[i]
    if s['op'] in ('ident', 'file'):
        return True
    if s['op'] in ('crop', 'take', 'deq', 'opt', 'eval'):
        return flat(stmts, s['on'])
    return s['op'] == 'cat' and all(flat(stmts, j) for j in s['parts'])


class Shift:
    """
    Simulated overviews take every 2^n-th pixel, which shows a point that is
    d = (2^n - 1) / 2 pixels left of and above the center of the overview's
    pixel.  When optimized, the overview may act on any node below instead
    (then d counts in that node's pixels), or be absorbed (no shift at all).
    lo, hi: the box of possible shifts in the pixels of the current node.
    """
    __slots__ = ('d', 'lo', 'hi', 'moves')

    def __init__(self, n, opt, maybe=False):
        self.d = -(2.0 ** n - 1) / 2
        self.lo = np.full(2, self.d)
        self.hi = np.full(2, 0.0 if opt or maybe else self.d)
        self.moves = opt

    def through(self, L, over):
        new = Shift.__new__(Shift)
        c, h = (self.lo + self.hi) / 2, (self.hi - self.lo) / 2
        c, h = L @ c, np.abs(L) @ h
        # together with the overviews it passes
        new.d = self.d * (L[0, 0] if over else 1)
        new.lo, new.hi, new.moves = c - h, c + h, self.moves
        if new.moves:
            new.lo = np.minimum(new.lo, new.d)
            new.hi = np.maximum(new.hi, 0)
        return new


def trace(stmts, env, i, P, rad, tol, opt, shifts=()):
    """list of Chan of statement i at points P (N, 2)."""
    s = stmts[i]
    op = s['op']
    if op == 'eval':
        opt = True
        for sh in shifts:
            sh.moves = False    # stays above
    elif op == 'opt':
        opt = True
    if op in ('ident', 'file', 'nans'):
        w, h = s['w'], s['h']
        x, y = P[:, 0], P[:, 1]
        ok = (x >= rad) & (x <= w - rad) & (y >= rad) & (y <= h - rad)
        r = rad + 1
        out = (x < -r) | (x > w + r) | (y < -r) | (y > h + r)
        X, half = P, np.zeros(2)
        for sh in shifts:
            X = X + (sh.lo + sh.hi) / 2
            half = half + (sh.hi - sh.lo) / 2
        return [Chan(i, k, X, ok, out, tol, half) for k in range(s['c'])]
    if op == 'cat':
        out = []
        for j in s['parts']:
            out += trace(stmts, env, j, P, rad, tol, opt, shifts)
        return out
    on = s['on']
    p = env[on]
    B = step_matrix(s, p)
    Q = P @ B[:, :2].T + B[:, 2]
    shifts = [sh.through(B[:, :2], op == 'over') for sh in shifts]
    sel = None
    inside = None
    outside = None
    if op == 'crop':
        idx = G.chan_list(s.get('c'), p.c)
        sel = idx
    elif op == 'take':
        if s['names'] is not None:
            sel = [p.names.index(n) for n in s['names']]
        else:
            sel = G.chan_list(s['idx'], p.c)
    elif op in ('warp', 'resize', 'over', 'pad'):
        g = norm(B[:, :2])
        sv = np.linalg.svd(B[:, :2], compute_uv=False)
        rad, tol = g * rad, g * tol
        if op == 'over':
            k = 2 ** s['n']
            if s['n'] == 0:
                pass
            elif stored(stmts, i):
                rad, tol = rad + k, tol + 0.05 * k
                if opt:
                    shifts.append(Shift(s['n'], opt))
            else:
                rad = rad + k
                # crops of everything vanish, so stored ones may be below
                shifts.append(Shift(s['n'], opt, stmts[on]['op'] != 'ident'))
        else:
            kw = s.get('kw') or {}
            near = kw.get('interpolation') == 'nearest'
            aa = kw.get('antialias', True) and op != 'pad'
            if opt and any(q['op'] in ('warp', 'resize', 'pad') and
                           (q.get('kw') or {}).get('antialias', True)
                           for q in stmts):
                aa = True       # fused warps take the outermost setting
            rad += 3 if kw.get('interpolation') in ('cubic', 'lanczos') else 1
            tol += EPS
            if opt:
                tol += EPS * (2 ** sum(q['n'] for q in stmts
                                       if q['op'] == 'over') - 1)
            if opt and sv[0] > 1.9:
                # may read stored overviews instead
                k = max([2 ** (q.get('ov') or 0) for q in stmts
                         if q['op'] == 'file'] or [1])
                if k > 1:
                    rad += k + 1
                    tol += EPS * k
            if near:
                tol += .51 * g + .5
            if aa and sv[0] > 0.999:
                rad += 3 * sv[0] + 1
                tol += (0.6 if opt else 0.1) * sv[0]
        x, y = Q[:, 0], Q[:, 1]
        inside = ((x >= rad) & (x <= p.w - rad)
                  & (y >= rad) & (y <= p.h - rad))
        if flat(stmts, on):
            r = rad + 1
            if opt and shifts:
                # overviews below start at multiples of their pixels, and read
                # one more when they are undone
                r += 2 * 2 ** sum(q['n'] for q in stmts if q['op'] == 'over')
            outside = (x < -r) | (x > p.w + r) | (y < -r) | (y > p.h + r)
    chans = trace(stmts, env, on, Q, rad, tol, opt, shifts)
    if sel is not None:
        chans = [chans[j] for j in sel]
        # a channel may be selected twice
        import copy
        chans = [copy.copy(c) for c in chans]
    for c in chans:
        if inside is not None:
            c.ok = c.ok & inside
            c.warps += 1
        if outside is not None:
            c.out = c.out | outside
        if op == 'deq' and s['q'] is not None:
            q = s['q']
            sc = ((q['orig_max'] - q['orig_min'])
                  / (q['quant_max'] - q['quant_min']))
            c.b = (c.b - q['quant_min']) * sc + q['orig_min']
            c.a = c.a * sc
    return chans


def pixel_centers(h, w):
    v, u = np.mgrid[0:h, 0:w]
    return np.stack([u.ravel() + .5, v.ravel() + .5], axis=1).astype(float)


def check_ramp(got, stmts, env, i, opt):
    """
    None or a message; plus the number of interior and outside pixel claims.
    The leafs are ramps (fill='ramp').
    """
    h, w = got.shape[:2]
    P = pixel_centers(h, w)
    chans = trace(stmts, env, i, P, 0.0, 0.0, opt)
    nin = nout = 0
    worst = 0.0
    for j, c in enumerate(chans):
        leaf = stmts[c.leaf]
        g = np.asarray(got[:, :, j], dtype=np.float64).ravel()
        if leaf['op'] == 'nans':
            if not np.isnan(g).all():
                return 'channel {}: data in a part that has none'.format(j), 0, 0, 0
            continue
        cx, cy = G.RAMP_COEF[c.k % 4]
        want = c.a * (cx * c.X[:, 0] + cy * c.X[:, 1]) + c.b
        lim = abs(c.a) * ((abs(cx) + abs(cy)) * c.tol + abs(cx) * c.half[0]
                          + abs(cy) * c.half[1]) + 1e-3 * (1 + abs(c.b))
        ok = c.ok
        nin += int(ok.sum())
        err = np.abs(g - want)
        bad = ok & ~(err <= lim)
        if ok.any():
            e = err[ok]
            worst = max(worst, float(np.nanmax(e / lim)) if len(e) else 0)
        if bad.any():
            n = int(np.argmax(np.where(bad, np.nan_to_num(err, nan=1e9), -1)))
            return ('row {} column {} channel {}: {:.4g} instead of {:.4g} '
                    '+- {:.3g} (leaf {} at x={:.3f} y={:.3f})'.format(
                        n // w, n % w, j, g[n], want[n], lim, c.leaf,
                        c.X[n, 0], c.X[n, 1])), nin, nout, worst
        nout += int(c.out.sum())
        bad = c.out & ~np.isnan(g)
        if bad.any():
            n = int(np.argmax(bad))
            return ('row {} column {} channel {}: {:.4g} although outside of '
                    'the data (x={:.3f} y={:.3f})'.format(
                        n // w, n % w, j, g[n], c.X[n, 0], c.X[n, 1])), nin, nout, worst
    return None, nin, nout, worst
