"""Undoing warps gives the pieces in their own space, as the transforms say."""
import math

import hypothesis.strategies as st
import numpy as np

from vh import graph as G
from vh import trace as T
from vh.core import CheckModule, Facet, ensure, equal

KEYS = ['offset', 'scale', 'shearx', 'theta']


def strat(leafs, file_kw=None):
    @st.composite
    def s(draw):
        w = G.any_warp(interps=('linear',), flips=False,
                       antialias=(False, False, None))
        g = G.Gen(draw, ['crop', 'warp', 'warp', 'deq'], leafs=leafs,
                  fill='ramp', min_side=24, max_side=56, max_pix=110,
                  max_chan=2, big_crops=True, dtypes=['float32', 'float64'],
                  file_kw=file_kw, warp=w, chan_ops=False, over_max=1)
        cur = g.leaf()
        for _ in range(g.int(1, 2)):
            cur = g.step(cur)
        e = g.env[cur]
        if e.fuzzy:
            cur = g.add({'op': 'resize', 'on': cur, 'kw': {},
                         'dsize': [max(1, e.w), max(1, e.h)]})
            e = g.env[cur]
        tops = [cur]
        for _ in range(g.pick([0, 0, 1, 1, 2])):
            if e.w < 1 or e.h < 1:
                break
            if g.flip(4):
                t = g.leaf(e.w, e.h, kind='nans')
                if g.flip():
                    f = g.leaf(kind='nans')
                    tf = G.any_transform(g, g.env[f].w, g.env[f].h)
                    t = g.add({'op': 'warp', 'on': f, 'tf': tf, 'kw': {},
                               'dsize': [e.w, e.h]})
            else:
                t = g.leaf()
                if g.flip():
                    t = g.step(t)
                f = g.env[t]
                t = g.add({'op': 'warp', 'on': t,
                           'kw': {'antialias': False},
                           'dsize': [e.w, e.h],
                           'tf': {'scale': [e.w / max(1, f.w),
                                            e.h / max(1, f.h)]}})
            tops.append(t)
        n = len(g.stmts)
        g.env.append(G.Sh(e.w, e.h, sum(g.env[t].c for t in tops), None,
                          any(g.env[t].deq for t in tops)))
        g.stmts.append({'op': 'hole'})
        g.ops = ['crop', 'crop', 'warp', 'pad', 'resize']
        cur = n
        for _ in range(g.int(0, 3)):
            cur = g.step(cur)
        chain = []
        while cur > n:
            chain.append(dict(g.stmts[cur]))
            cur = g.stmts[cur]['on']
        chain.reverse()
        for c in chain:
            del c['on']
        for t in g.stmts:
            if t['op'] == 'deq' and t['q']:
                t['q']['nodata'] = None
        keys = list(draw(st.permutations(KEYS)))[:g.int(0, 4)]
        mode = g.pick(['all', 'scale', 'scale', 'remove', 'retain'])
        solo = g.flip(3)
        return {'parts': g.stmts[:n], 'tops': tops, 'chain': chain,
                'mode': mode, 'keys': keys, 'squash': g.flip(),
                'opt': g.flip() or bool(chain and len(tops) > 1 and not solo),
                'ret': g.flip(4), 'solo': solo}
    return s


def run(case, rec):
    from delayed_image import DelayedChannelConcat
    parts, chain = case['parts'], case['chain']
    objs = G.build(parts)

    def through(x, upto=None):
        for s in chain:
            x = G.apply(dict(s, on=0), [x])
        return x
    progs = []
    for t in case['tops']:
        stmts = [dict(s) for s in parts[:t + 1]]
        for s in chain:
            stmts.append(dict(s, on=len(stmts) - 1))
        stmts = G.prune(stmts)
        env = G.infer_all(stmts)
        if any(e.fuzzy or e.w < 1 or e.h < 1 for e in env):
            rec.label('rounding-edge or empty')
            return
        progs.append((stmts, env))
    kw = {'squash_nans': case['squash']}
    keep = set()
    if case['mode'] == 'scale':
        kw['remove'] = ['scale']
        keep = {'offset', 'shearx', 'theta'}
    elif case['mode'] == 'remove':
        kw['remove'] = list(case['keys'])
        keep = set(KEYS) - set(case['keys'])
    elif case['mode'] == 'retain':
        kw['retain'] = list(case['keys'])
        keep = set(case['keys'])
    if case['mode'] in ('remove', 'retain'):
        kw[case['mode']] = (list, tuple, set)[len(parts) % 3](kw[case['mode']])
    rec.label(case['mode'], 'parts-{}'.format(len(progs)))
    from_leaf = []
    wants = []
    import kwimage
    for stmts, env in progs:
        order = list(range(len(stmts)))
        M = np.eye(3)
        for i in order:
            if 'on' in stmts[i]:
                B = np.eye(3)
                B[0:2] = T.step_matrix(stmts[i], env[stmts[i]['on']])
                M = np.linalg.inv(B) @ M
        comp = kwimage.Affine(np.linalg.inv(M)).decompose()
        W = kwimage.Affine.affine(
            **{k: v for k, v in comp.items() if k not in keep})
        W = np.asarray(W.matrix if W.matrix is not None else np.eye(3), float)
        if not keep:
            W = np.linalg.inv(M)
        e = env[-1]
        v = G.auto_corner(W, e.w, e.h)
        from_leaf.append(M)
        wants.append((W, v))
        if v.max() > 300 or v.min() < 0.5 or np.linalg.cond(W) > 1e3:
            rec.label('too large or out of the canvas')
            return
    if len(case['tops']) == 1 or case['solo']:
        rec.label('image')
        xs = [through(objs[t]) for t in case['tops']]
        if case['opt']:
            xs = [x.optimize() for x in xs]
        outs = [x.undo_warp(return_warp=case['ret'], **kw) for x in xs]
        if case['ret']:
            warps = [o[1] for o in outs]
            outs = [o[0] for o in outs]
    else:
        rec.label('concat')
        x = through(DelayedChannelConcat([objs[t] for t in case['tops']]))
        if case['opt']:
            x = x.optimize()
        xs = x.parts
        outs = x.undo_warps(return_warps=case['ret'], **kw)
        if case['ret']:
            outs, warps = outs
            equal(len(warps), len(outs), 'number of returned warps')
    equal(len(outs), len(progs), 'number of pieces')
    deep = 0
    for k, (u, (stmts, env)) in enumerate(zip(outs, progs)):
        W, v = wants[k]
        e = env[-1]
        empty = stmts[0]['op'] == 'nans'
        names = e.names
        equal(G.chan_names(u), names, 'channels of piece {}'.format(k))
        if empty and case['squash'] and \
                not any(s['op'] == 'deq' for s in stmts):
            equal(G.announced(u), (1, 1, e.c), 'shape of a squashed piece')
            ensure(np.isnan(u.finalize()).all(), 'data in an empty piece')
            rec.label('squashed')
            if case['ret']:
                squashed_warp(np.asarray(warps[k].matrix, float), W, v, e,
                              case['opt'], k)
                rec.label('squashed warp {}'.format(e.w == e.h))
            continue
        if empty:
            # (optimized ones do not remember any transform)
            ensure(np.isnan(u.finalize()).all(), 'data in an empty piece')
            continue
        w, h = u.dsize
        seen = visible(stmts, env, W, (w, h))
        if not seen:
            # the optimized view may not remember where it is
            rec.label('nothing visible')
            continue
        for got, want in [(w, v[0]), (h, v[1])]:
            ensure(math.ceil(want - 1e-5) <= got <= math.ceil(want + 1e-5),
                   'size {} of piece {} but its corner is at {}', (w, h), k, v)
        if case['ret']:
            got = np.asarray(warps[k].matrix, float)
            d = np.abs(got - W).max()
            ensure(d < 1e-5 * (1 + np.abs(W).max()),
                   lambda: 'returned warp of piece {}: {} instead of {}'.format(
                       k, np.round(got, 4).tolist(), np.round(W, 4).tolist()))
            rec.label('returned')
        got = np.asarray(u.get_transform_from_leaf().matrix
                         if u.get_transform_from_leaf().matrix is not None
                         else np.eye(3), float)
        want = W @ from_leaf[k]
        ensure(np.abs(got - want).max() < 1e-5 * (1 + np.abs(want).max()),
               lambda: 'transform of piece {}: {} instead of {}'.format(
                   k, np.round(got, 4).tolist(), np.round(want, 4).tolist()))
        # a blur happens in the fused warp if at all
        blurs = bool(np.linalg.svd(want[:2, :2])[1].min() < 0.999)
        tail = {'op': 'warp', 'on': len(stmts) - 1, 'tf': W.tolist(),
                'dsize': [w, h], 'kw': {'antialias': blurs}}
        st2 = stmts + [tail]
        env2 = env + [G.Sh(w, h, e.c, names)]
        for how in ['raw', 'opt']:
            got = u.finalize(optimize=how == 'opt')
            equal(got.shape, (h, w, e.c), 'shape delivered')
            msg, nin, nout, worst = T.check_ramp(
                got, st2, env2, len(st2) - 1, True)
            ensure(msg is None, 'piece {}, {}: {}'.format(k, how, msg))
        rec.label('inside-{}'.format(min(nin, 10) // 5 * 5))
        deep += nin >= 10 and any(s['op'] in ('warp', 'resize', 'over')
                                  for s in stmts)
    rec.nontrivial(deep)


def squashed_warp(got, W, v, e, opt, k):
    """ Leads from the canvas of the piece to one pixel """
    cands = [(W, v)]
    if opt:
        # (optimized empty images do not remember any transform)
        cands.append((np.eye(3), np.array([e.w, e.h], float)))
    for A, u in cands:
        lo = np.maximum(1, np.floor(u - 1e-5))
        hi = np.maximum(1, np.ceil(u + 1e-5))
        S = got @ np.linalg.inv(A)
        d = np.array([S[0, 0], S[1, 1]])
        rest = S - np.diag([d[0], d[1], 1])
        if np.abs(rest).max() < 1e-5 and (d > 0).all():
            if ((1 / d > lo - 1e-3) & (1 / d < hi + 1e-3)).all():
                return
    ensure(False, lambda: 'returned warp of squashed piece {}: {}, where {} '
           'undoes the warps'.format(k, np.round(got, 5).tolist(),
                                     np.round(W, 5).tolist()))


def visible(stmts, env, W, dsize):
    v, u = np.mgrid[0:9, 0:9]
    pts = np.stack([(u.ravel() + .5) / 9 * dsize[0],
                    (v.ravel() + .5) / 9 * dsize[1]], axis=1)
    B = np.linalg.inv(W)
    pts = pts @ B[:2, :2].T + B[:2, 2]
    e = env[-1]
    pts = pts[((pts > 0) & (pts < [e.w, e.h])).all(axis=1)]
    i = len(stmts) - 1
    while 'on' in stmts[i]:
        p = env[stmts[i]['on']]
        B = T.step_matrix(stmts[i], p)
        pts = pts @ B[:, :2].T + B[:, 2]
        pts = pts[((pts > 0) & (pts < [p.w, p.h])).all(axis=1)]
        if not len(pts):
            return False
        i = stmts[i]['on']
    return len(pts) > 0


CHECK = CheckModule('C14', [
    Facet('memory', strat(['ident']), run, 5000,
          rule='1-3 parts with histories, then operations on all, then the '
          'warps undone in every mode; sizes, warps, transforms and pixels '
          'judged; non-trivial = a piece with 10+ interior pixels and a warp'),
    Facet('files', strat(['file', 'file', 'ident'],
                         lambda g, s, f: {'ov': 0}), run, 3000,
          rule='the same over raster files'),
])
