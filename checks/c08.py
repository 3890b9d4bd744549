"""Selecting channels by any spelling gives those channels, in that order."""
import hypothesis.strategies as st
import numpy as np

from vh import graph as G
from vh.core import CheckModule, Facet, ensure, equal

UNKNOWN = ['zz', 'missing', 'k0.7', 'k1.9', 'swir', 'r2']


def strat(leafs):
    @st.composite
    def s(draw):
        g = G.Gen(draw, ['crop', 'crop', 'take', 'chan', 'deq', 'cat', 'eval', 'opt'],
                  leafs=leafs, max_side=6, nan=True, unnamed=False,
                  max_chan=5,
                  dtypes=['uint8', 'uint16', 'int16', 'float32', 'float64'],
                  file_kw=lambda g, s, f: {'ov': 0})
        cur = g.leaf()
        for _ in range(g.int(0, 3)):
            cur = g.concat(cur)
        for _ in range(g.int(0, 3)):
            cur = g.step(cur)
        g.stmts = g.stmts[:cur + 1]
        stmts = G.prune(g.stmts)
        env = G.infer_all(stmts)
        reqs = []
        names = list(env[-1].names)
        for _ in range(g.int(1, 3)):
            kind = g.pick(['names', 'names', 'names', 'index', 'slice', 'int'])
            if kind == 'names':
                pool = names + [u for u in UNKNOWN if u not in names]
                miss = g.pick([0, 0, 1, 2, 3])
                distinct = list(dict.fromkeys(names))
                have = list(draw(st.permutations(distinct)))[:g.int(
                    0 if miss else 1, len(distinct))]
                lost = list(draw(st.permutations(pool[len(names):])))[:miss]
                want = list(draw(st.permutations(have + lost)))
                if g.flip(4):
                    want = have[:]      # runs of neighbours make slices
                    want.sort(key=names.index)
                    want += lost
                if not want:
                    want = names[:1]
                r = {'kind': kind, 'names': want,
                     'form': g.pick(['text', 'short', 'fused', 'alias']),
                     'policy': g.pick(['return_nan', 'return_nan', 'error', None]),
                     'lazy': g.flip(3)}
                after = want
            elif kind == 'index':
                perm = list(draw(st.permutations(range(len(names)))))
                idx = perm[:g.int(1, len(names))]
                if g.flip(3):       # some repeatedly
                    idx.insert(g.int(0, len(idx)), g.pick(idx))
                r = {'kind': kind, 'idx': idx, 'how': g.pick(['take', 'crop', 'item'])}
                after = [names[i] for i in idx]
            elif kind == 'int':
                i = g.int(-len(names), len(names) - 1)
                r = {'kind': kind, 'idx': i, 'how': g.pick(['crop', 'item'])}
                after = [names[i]]
            else:
                a = g.int(0, len(names) - 1)
                b = g.int(a + 1, len(names))
                r = {'kind': kind, 'a': g.pick([a, a - len(names), None] if not a
                                               else [a, a - len(names)]),
                     'b': g.pick([b, None] if b == len(names) else [b, b - len(names)]),
                     'how': g.pick(['take', 'crop', 'item'])}
                after = names[a:b]
            r['after'] = after
            reqs.append(r)
            if kind == 'names' and r['policy'] == 'error' and set(after) - set(names):
                break
            names = after
        return {'stmts': stmts, 'reqs': reqs}
    return s


def spelled(names, form):
    """The requested names in one of the forms a user may write."""
    from delayed_image import FusedChannelSpec
    text = '|'.join(names)
    if form == 'text':
        return text
    if form == 'fused':
        return FusedChannelSpec.coerce(text)
    out, i = [], 0
    while i < len(names):
        if form == 'alias' and names[i:i + 3] == ['r', 'g', 'b']:
            out.append('rgb')
            i += 3
            continue
        if form == 'short' and '.' in names[i]:
            root, a = names[i].rsplit('.', 1)
            if a.isdigit():
                j = i
                while j < len(names) and names[j] == '{}.{}'.format(
                        root, int(a) + j - i):
                    j += 1
                if j - i > 1:
                    out.append('{}.{}:{}'.format(root, a, int(a) + j - i))
                    i = j
                    continue
        out.append(names[i])
        i += 1
    return '|'.join(out)


def index(x, idx, how):
    if how == 'take':
        return x.take_channels(idx)
    if how == 'crop':
        return x.crop(None, idx)
    return x[(slice(None), slice(None), idx)]


def run_take(case, rec):
    from delayed_image import DelayedImage
    stmts = case['stmts']
    env = G.infer_all(stmts)
    x = G.build(stmts)[-1]
    val = G.exact_values(stmts, env)[-1]
    names = list(env[-1].names)
    tol = 1e-4 if any(s['op'] == 'deq' for s in stmts) else 0
    missing = False
    for r in case['reqs']:
        rec.label(r['kind'])
        if r['kind'] == 'names':
            sp = spelled(r['names'], r['form'])
            kw = {} if r['policy'] is None else {
                'missing_channel_policy': r['policy']}
            if r.get('lazy') and isinstance(x, DelayedImage):
                kw['lazy'] = True
                rec.label('lazy')
            lost = [n for n in r['names'] if n not in names]
            missing = missing or bool(lost)
            if lost and r['policy'] == 'error':
                rec.label('refused')
                try:
                    x.take_channels(sp, **kw)
                except ValueError:
                    rec.nontrivial()
                    return
                ensure(False, 'channels {} do not exist, but taking them with '
                       'policy "error" succeeded', lost)
            x = x.take_channels(sp, **kw)
            val = np.stack([val[:, :, names.index(n)] if n in names else
                            np.full(val.shape[:2], np.nan)
                            for n in r['names']], axis=2)
        elif r['kind'] == 'index':
            x = index(x, r['idx'], r['how'])
            val = val[:, :, r['idx']]
        elif r['kind'] == 'int':
            x = index(x, r['idx'], r['how'])
            val = val[:, :, [r['idx']]]
        else:
            x = index(x, slice(r['a'], r['b']), r['how'])
            val = val[:, :, r['a']:r['b']]
        names = r['after']
        equal(G.chan_names(x), names, 'announced channels')
        equal(G.announced(x), val.shape, 'announced shape')
    rec.label('missing' if missing else 'present')
    rec.nontrivial(len(stmts) > 1 and (missing or len(names) > 1))
    for how in ['raw', 'opt']:
        got = x.finalize(optimize=how == 'opt')
        msg = G.same(got, val, tol)
        ensure(msg is None, '{}: {}'.format(how, msg))
    y = x.optimize()
    equal(G.chan_names(y), names, 'announced channels after optimizing')


CHECK = CheckModule('C08', [
    Facet('memory', strat(['ident']), run_take, 5000, rule='selections by names '
          '(spelled out, as slice codes, aliases, objects; some missing), '
          'indexes and slices from random graphs with 1-4 parts; non-trivial = '
          'missing names refused or delivered as nan, or 2+ channels from 2+ nodes'),
    Facet('files', strat(['file', 'ident']), run_take, 2000,
          rule='the same over raster files'),
])
