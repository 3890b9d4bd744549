"""Operations on a concatenation are the operations on each of its parts."""
import numpy as np

from vh import anygraph as A
from vh import graph as G
from vh.core import CheckModule, Facet, ensure, equal

WHOLE = ['crop', 'crop', 'warp', 'warp', 'over', 'deq', 'pad', 'resize', 'over']


def strat(leafs):
    import hypothesis.strategies as st

    @st.composite
    def s(draw):
        g = G.Gen(draw, ['crop', 'warp', 'over', 'deq', 'pad'], leafs=leafs,
                  nonempty=True, max_side=14, min_side=2, chan_ops=False,
                  max_chan=3, nan=True, unnamed=True,
                  dtypes=['uint8', 'int16', 'float32', 'float64'],
                  warp=G.any_warp(interps=('linear',), antialias=(None,)))
        # parts of the same size, each with a history of its own
        tops = []
        cur = g.leaf()
        for _ in range(g.int(0, 2)):
            cur = g.step(cur)
        e = g.env[cur]
        tops.append(cur)
        if e.fuzzy:
            # pin the size
            tops[0] = cur = g.add({'op': 'resize', 'on': cur, 'kw': {},
                                   'dsize': [max(1, e.w), max(1, e.h)]})
            e = g.env[cur]
        for _ in range(g.int(1, 3)):
            k = g.int(0, 3)
            if k == 0 or e.w < 1 or e.h < 1:
                t = g.leaf(max(1, e.w), max(1, e.h), kind='nans'
                           if g.flip(3) else None)
            else:
                t = g.leaf()
                f = g.env[t]
                if g.flip():
                    t = g.step(t)
                    f = g.env[t]
                t = g.add({'op': 'warp', 'on': t, 'kw': {},
                           'dsize': [e.w, e.h],
                           'tf': {'scale': [e.w / max(1, f.w),
                                            e.h / max(1, f.h)]}})
            if (g.env[t].w, g.env[t].h) == (e.w, e.h):
                tops.append(t)
        n = len(g.stmts)
        # a chain of operations on the whole, as statements on number n
        g.env.append(G.Sh(e.w, e.h, sum(g.env[t].c for t in tops), None,
                          any(g.env[t].deq for t in tops)))
        g.stmts.append({'op': 'hole'})
        g.ops = WHOLE
        cur = n
        for _ in range(g.int(1, 4)):
            cur = g.step(cur)
        chain = []
        i = cur
        while i > n:
            chain.append(dict(g.stmts[i]))
            i = g.stmts[i]['on']
        chain.reverse()
        for c in chain:
            del c['on']
        tree = g.pick(['flat', 'left', 'right'])
        return {'parts': g.stmts[:n], 'tops': tops, 'chain': chain,
                'tree': tree, 'at': g.int(0, len(chain)),
                'opt': g.flip(4)}
    return s


def undone(case):
    over, grow = False, 1.0
    env = []
    for s in case['parts']:
        env.append(G.infer(s, env))
    cur = G.Sh(env[case['tops'][0]].w, env[case['tops'][0]].h, 1, None)
    steps = [(s, env[s['on']]) for s in case['parts'] if 'on' in s]
    for s in case['chain']:
        steps.append((s, cur))
        cur = G.infer(dict(s, on=0, c=None), [cur])
    for s, p in steps:
        over = over or s['op'] == 'over' and s['n'] > 0
        if s['op'] == 'warp':
            M = G.matrix(s['tf'])[:2, :2]
            grow *= max(1.0, np.linalg.norm(M, 2))
        if s['op'] == 'resize':
            grow *= max(1.0, s['dsize'][0] / max(1, p.w),
                        s['dsize'][1] / max(1, p.h))
    return over and grow > 1.9


def run(case, rec):
    from delayed_image import DelayedChannelConcat
    objs = G.build(case['parts'])
    tops = [objs[i] for i in case['tops']]
    if len(tops) > 2 and case['tree'] == 'left':
        nest = [DelayedChannelConcat(tops[:2])] + tops[2:]
    elif len(tops) > 2 and case['tree'] == 'right':
        nest = tops[:1] + [DelayedChannelConcat(tops[1:])]
    else:
        nest = tops
    whole = DelayedChannelConcat(nest)
    chain = case['chain']

    def through(x):
        for k, s in enumerate(chain):
            x = G.apply(dict(s, on=0), [x])
            if case['opt'] and k + 1 == case['at']:
                x = x.optimize()
        return x
    w = through(whole)
    ps = [through(t) for t in tops]
    ops = [s['op'] for s in chain]
    for o in ops:
        rec.label('op-' + o)
    rec.label('parts-{}'.format(len(tops)), case['tree'])
    rec.nontrivial(len(tops) >= 2 and len(ops) >= 2
                   and len(case['parts']) > len(tops))
    shapes = [G.announced(p) for p in ps]
    equal(G.announced(w), shapes[0][:2] + (sum(s[2] for s in shapes),),
          'announced shape')
    if all(p.channels is not None for p in ps):
        equal(G.chan_names(w), [n for p in ps for n in G.chan_names(p)],
              'channels')
    if undone(case):
        # which pixels of an overview an enlargement shows depends on whether
        # it is undone, which happens in the parts first
        rec.label('overview-undone')
        return
    got = w.finalize()
    want = np.concatenate([np.asarray(p.finalize(), dtype=np.float64)
                           for p in ps], axis=2)
    msg = G.same(got, want, 1e-5)
    ensure(msg is None, 'optimized: {}', msg)


CHECK = CheckModule('C09', [
    Facet('memory', strat(['ident', 'ident', 'ident', 'nans']), run, 3000,
          rule='2-4 parts with histories, nested or not, then 1-4 operations '
          'on the concatenation or on each part; non-trivial = 2+ parts, 2+ '
          'operations, not all parts bare leafs'),
    Facet('files', strat(['file', 'file', 'ident']), run, 2000,
          rule='the same over raster files with overviews'),
])
