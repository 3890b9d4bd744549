"""Announced transforms are the composition of the operations."""
import numpy as np

from vh import anygraph as A
from vh import graph as G
from vh import trace as T
from vh.core import CheckModule, Facet, ensure, equal


def from_leafs(stmts, env):
    """per statement {leaf statement: 3x3 from leaf} (paths in order)."""
    out = []
    for i, s in enumerate(stmts):
        if 'parts' in s:
            d = {}
            for j in s['parts']:
                for k, M in out[j].items():
                    d.setdefault(k, M)
        elif 'on' in s and s['op'] != 'eval':
            B = np.eye(3)
            B[0:2] = T.step_matrix(s, env[s['on']])
            d = {k: np.linalg.inv(B) @ M for k, M in out[s['on']].items()}
        else:
            d = {i: np.eye(3)}
        out.append(d)
    return out


def close(got, want, what, scale=1.0):
    got = np.asarray(getattr(got, 'matrix', got), dtype=float)
    if got.shape != (3, 3) and got.size == 1:
        got = np.eye(3)
    d = np.abs(got - want)
    lim = 1e-6 * (1 + np.abs(want).max())
    ensure(d.max() <= lim, lambda: '{}: {} instead of {}'.format(
        what, np.round(got, 5).tolist(), np.round(want, 5).tolist())
        .replace('{', '(').replace('}', ')'))


def linear(stmts, i):
    while 'on' in stmts[i]:
        i = stmts[i]['on']
    return 'parts' not in stmts[i]


def run(case, rec):
    stmts = case['stmts']
    env = G.infer_all(stmts)
    if any(e.fuzzy for e in env):
        rec.label('rounding-edge')
        return
    if any(e.w < 1 or e.h < 1 for e in env):
        rec.label('empty')
        return
    objs = G.build(stmts)
    ops = A.label(rec, stmts)
    M = from_leafs(stmts, env)
    chained = [i for i in range(len(stmts)) if linear(stmts, i)
               and stmts[i]['op'] != 'xa' and visible(stmts, env, i)]
    for i in chained:
        (leaf, want), = M[i].items()
        x = objs[i]
        close(x.get_transform_from_leaf(), want,
              'transform of step {}'.format(i))
        y = x.optimize()
        # an empty part may become a new one of another size
        if not hasattr(y, 'parts') and stmts[leaf]['op'] != 'nans':
            close(y.get_transform_from_leaf(), want,
                  'transform of step {} when optimized'.format(i))
    n = 0
    for a, b in case['pairs']:
        a, b = a % len(stmts), b % len(stmts)
        if stmts[a]['op'] == 'xa' or stmts[b]['op'] == 'xa':
            continue
        if not (visible(stmts, env, a) and visible(stmts, env, b)):
            continue
        common = [k for k in M[b] if k in M[a]]
        if not common:
            continue
        if not all(shared_once(stmts, i, k) for i in (a, b) for k in common):
            continue
        wants = [M[b][k] @ np.linalg.inv(M[a][k]) for k in common]
        if any(np.abs(w - wants[0]).max() > 1e-6 for w in wants[1:]):
            continue        # ambiguous: depends on the leaf
        n += 1
        got = objs[b].get_transform_from(objs[a])
        close(got, wants[0], 'transform from step {} to {}'.format(a, b),
              )
        if 'parts' in stmts[a] or 'parts' in stmts[b]:
            rec.label('pair-with-concat')
    rec.nontrivial(n and A.resamples(ops) >= 2)


def visible(stmts, env, i, pts=None):
    """Does the canvas show a part of its leaf, through all canvases?"""
    e = env[i]
    if pts is None:
        v, u = np.mgrid[0:9, 0:9]
        pts = np.stack([(u.ravel() + .5) / 9 * e.w,
                        (v.ravel() + .5) / 9 * e.h], axis=1)
    while stmts[i]['op'] != 'eval':
        if 'parts' in stmts[i]:
            return all(visible(stmts, env, j, pts) for j in stmts[i]['parts'])
        if 'on' not in stmts[i]:
            break
        if stmts[i]['op'] == 'take' and env[stmts[i]['on']].cat:
            return False        # (which parts are left is not modeled)
        p = env[stmts[i]['on']]
        B = T.step_matrix(stmts[i], p)
        pts = pts @ B[:, :2].T + B[:, 2]
        pts = pts[((pts > 0) & (pts < [p.w, p.h])).all(axis=1)]
        if len(pts) == 0:
            return False
        i = stmts[i]['on']
    return True


def shared_once(stmts, i, leaf):
    """Only one path from the leaf to statement i."""
    cnt = [0] * len(stmts)
    cnt[leaf] = 1
    for j, s in enumerate(stmts):
        if j == leaf or s['op'] == 'eval':
            continue
        for k in s.get('parts', []) + ([s['on']] if 'on' in s else []):
            cnt[j] += cnt[k]
    return cnt[i] == 1


def pairs(g):
    return {'pairs': [[g.int(0, 11), g.int(0, 11)] for _ in range(g.int(1, 5))]}


OPS = (['crop'] * 3 + ['warp'] * 3 + ['over'] * 2 + ['motif']
       + ['deq', 'cat', 'take', 'chan', 'pad', 'resize', 'eval'])
CHECK = CheckModule('C15', [
    Facet('memory', A.cases(['ident', 'ident', 'nans'], ops=OPS, extra=pairs,
                            min_ops=2, tail=False), run, 3000,
          rule='random graphs; transforms from the leaf (also optimized) and '
          'between pairs of nodes against matrix products; non-trivial = 2+ '
          'resampling nodes and a pair with a common leaf'),
    Facet('files', A.cases(['file', 'file', 'ident'], ops=OPS, extra=pairs,
                           min_ops=2, tail=False), run, 2000,
          rule='the same over files with overviews'),
])
