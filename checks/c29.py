"""Equivalent spellings of an operation give the same image."""
import os

import hypothesis.strategies as st
import numpy as np

from vh import anygraph
from vh import graph as G
from vh.core import CheckModule, Facet, ensure, equal

CODES = dict(zip(['nearest', 'linear', 'cubic', 'area', 'lanczos'], range(5)))


def extra(g):
    n = len(g.stmts) + 2
    return {'how': [g.int(0, 23) for _ in range(n)],
            'noops': [g.pick([None, None, None, None, None, 'crop', 'item',
                              'take', 'deq', 'lazycrop', 'lazywarp', 'lazynone',
                              'nopad', 'cat1'])
                      for _ in range(n)] if g.flip() else []}


def spelled_leaf(s, v):
    from pathlib import Path

    import delayed_image as D
    op = s['op']
    chan = s.get('chan')
    if chan is not None and v % 2:
        chan = [D.FusedChannelSpec.coerce(chan), D.ChannelSpec.coerce(chan),
                D.FusedChannelSpec.coerce(chan).normalize(),
                D.FusedChannelSpec.coerce(chan).normalize().spec][v // 2 % 4]
        if isinstance(chan, D.ChannelSpec):
            chan = chan.fuse()
    if op == 'ident':
        arr = G.leaf_array(s)
        if s['c'] == 1 and v % 3 == 0:
            arr = arr[:, :, 0]
        elif v % 5 == 0:
            arr = np.asfortranarray(arr)
        elif v % 7 == 0:
            big = np.zeros((s['h'] * 2, s['w'] + 3, s['c']), arr.dtype)
            big[::2, 1:-2] = arr
            arr = big[::2, 1:-2]
        if v % 4 == 1:
            return D.DelayedIdentity(arr, chan)
        if v % 4 == 2:
            return D.DelayedIdentity(arr, channels=chan,
                                     dsize=(s['w'], s['h']))
        return D.DelayedIdentity(arr, channels=chan)
    if op == 'nans':
        if s.get('method'):
            return G.make_leaf(s)
        if chan is None:
            chan = s['c']
        if v % 3 == 0:
            return D.DelayedNans(dsize=(s['w'], s['h']), channels=chan)
        return D.DelayedNans((np.int64(s['w']), int(s['h'])), channels=chan)
    path = G.file_path(s)
    kw = {} if chan is None else {'channels': chan}
    if v % 3 == 0:
        path = Path(path)
    elif v % 3 == 1:
        path = os.path.relpath(path)
    if v % 4 == 0:
        kw['dsize'] = (np.int32(s['w']), np.int64(s['h']))
    elif v % 4 == 1:
        kw['dsize'] = (s['w'], s['h'])
    x = D.DelayedLoad(path, nodata_method=s.get('method'), **kw)
    return x.prepare()


def spelled(s, objs, v, exact, env):
    """ The same operation, said in another way """
    import kwimage

    import delayed_image as D
    op = s['op']
    if op in ('ident', 'nans', 'file'):
        return spelled_leaf(s, v)
    if op == 'cat':
        parts = [objs[i] for i in s['parts']]
        if v % 3 == 0 and len(parts) == 2:
            return D.DelayedChannelConcat(
                [D.DelayedChannelConcat([parts[0]]), parts[1]])
        if v % 3 == 1:
            return D.DelayedChannelConcat(parts, dsize=parts[0].dsize)
        return D.DelayedChannelConcat(parts=list(parts))
    x = objs[s['on']]
    p = env[s['on']]
    if op == 'crop':
        c = G.chan_arg(s.get('c'))
        if s['y'] is None:
            k = v % 5
            if isinstance(c, list) and v % 2:
                c = list(map(np.int64, c))
            if k == 0:
                return x[:, :, c]
            if k == 1:
                return x.crop(chan_idxs=c)
            if k == 2:
                return x.crop((slice(0, None), slice(None, p.h + p.w)), c)
            if k == 3:
                return D.DelayedCrop(x, None, c)
            return x.crop((slice(None), slice(None)), c)
        (y0, y1), (x0, x1) = G.span(s['y'], p.h), G.span(s['x'], p.w)
        # the same, by NumPy's rules
        k = v % 12
        if y1 <= y0 or x1 <= x0:
            k = 11
        sl = (slice(y0, y1), slice(x0, x1))
        if k == 0:
            sl = (slice(y0 - p.h, y1 - p.h if y1 < p.h else None),
                  slice(x0 - p.w, x1 - p.w if x1 < p.w else None))
        elif k == 1:
            sl = (slice(y0 or None, y1 if y1 < p.h else None),
                  slice(x0 or None, x1 if x1 < p.w else None))
        elif k == 2:
            sl = (slice(y0, y1 if y1 < p.h else p.h + 7),
                  slice(x0 if x0 else -p.w - 4, x1))
        elif k == 3:
            sl = (slice(np.int64(y0), np.int32(y1)), slice(np.uint8(x0), x1))
        elif k == 4:
            sl = (slice(y0, y1, 1), slice(x0, x1, None))
        if k == 5:
            return D.DelayedCrop(x, sl, c)
        if k == 6 and (exact or (y1 - y0, x1 - x0) != (p.h, p.w)):
            # (which drops a crop to the whole image)
            return x.crop(sl, c, lazy=True)
        if k == 7:
            return x.crop(sl, c, clip=False, wrap=False)
        if k == 8 and exact:
            return x[y0:y1, :].crop((slice(None), slice(x0, x1)), c)
        if k == 9 and c is not None:
            # (selects in another step)
            return (x.crop(sl).crop(None, c) if v % 2 else
                    x.crop(None, c).crop(sl))
        if k == 10:
            return x.crop(space_slice=sl, chan_idxs=c)
        return x[sl] if c is None else x[sl + (c,)]
    if op == 'pad':
        pad = s['pad']
        c = G.chan_arg(s.get('c'))
        y, w = s['y'], s['x']
        k = v % 4
        if k == 0:
            pad = ((pad, pad), (pad, pad))
        elif k == 1:
            pad = [(pad, pad), (pad, pad)]
        elif k == 2:
            y, w, pad = [y[0] - pad, y[1] + pad], [w[0] - pad, w[1] + pad], 0
        return x.crop((slice(*y), slice(*w)), c, clip=False, wrap=False, pad=pad)
    if op == 'take':
        if s['names'] is not None:
            names = s['names']
            return x.take_channels([
                D.ChannelSpec.coerce('|'.join(names)).fuse(),
                '|'.join(names), D.FusedChannelSpec(list(names)),
                D.FusedChannelSpec.coerce('|'.join(names))][v % 4])
        idx = G.chan_arg(s['idx'])
        if isinstance(idx, list):
            if v % 3 == 0 and not p.cat:
                return x.crop(None, idx)
            return x.take_channels(idx if v % 3 == 1
                                   else list(map(np.int64, idx)))
        return x.take_channels(idx)
    if op == 'warp':
        kw = dict(s.get('kw', {}))
        tf = G.tf_arg(s['tf'])
        d = s['dsize'] if s['dsize'] == 'auto' else tuple(s['dsize'])
        interp = kw.get('interpolation', 'linear')
        if v % 2:
            kw['interpolation'] = CODES[interp]
        if v % 5 == 0:
            kw.setdefault('antialias', True)
            kw.setdefault('border_value', 'auto')
            kw.setdefault('noop_eps', 0)
            kw.setdefault('backend', 'auto')
        k = v // 2 % 7
        A = kwimage.Affine.coerce(tf)
        if k == 0:
            tf = A
        elif k == 1:
            tf = np.array(A.matrix if A.matrix is not None else np.eye(3))
        elif k == 2:
            return D.DelayedWarp(x, tf, d, **kw)
        elif k == 3 and not A.isclose_identity():
            kw['lazy'] = True
        elif k == 4 and d == 'auto':
            d = tuple(x.warp(tf, **kw).dsize)
        elif k == 5 and set(s['tf']) == {'scale'}:
            return x.scale(s['tf']['scale'], dsize=d, **kw)
        elif k == 6 and not s['tf']:
            tf = None
        return x.warp(tf, dsize=d, **kw)
    if op == 'resize':
        kw = dict(s.get('kw', {}))
        w, h = s['dsize']
        k = v % 4
        if k == 0:
            return x.warp({'scale': (w / p.w, h / p.h)}, dsize=(w, h), **kw)
        if k == 1:
            return x.scale((w / p.w, h / p.h), dsize=(w, h), **kw)
        if k == 2:
            return x.resize((np.int64(w), np.int64(h)), **kw)
        return x.resize(dsize=(w, h), **kw)
    if op == 'over':
        if v % 2:
            return D.DelayedOverview(x, s['n'])
        return x.get_overview(overview=s['n'])
    if op == 'deq':
        q = s['q']
        if q is not None:
            q = {k: q[k] for k in (sorted(q) if v % 2 else
                                   sorted(q, reverse=True))}
            if v % 3 == 0:
                for k, dflt in [('orig_min', 0), ('orig_max', 1),
                                ('quant_min', 0), ('nodata', None),
                                ('orig_dtype', 'float32')]:
                    if q.get(k) == dflt:
                        q.pop(k)
            if v % 4 == 0 and 'orig_dtype' in q:
                q['orig_dtype'] = np.dtype(q['orig_dtype'])
        if v % 5 == 0:
            return D.DelayedDequantize(x, q)
        return x.dequantize(q)
    if op == 'xa' and v % 2:
        return D.DelayedAsXarray(x)
    return G.apply(s, objs)


def noop(x, kind, e):
    """ Something that does nothing """
    import delayed_image as D
    if kind == 'crop':
        return x.crop((slice(0, e.h), slice(0, e.w)))
    if kind == 'item':
        return x[:, :]
    if kind == 'take':
        return x.take_channels(list(range(e.c)))
    if kind == 'deq':
        return x.dequantize(None)
    if kind == 'lazycrop':
        y = x.crop((slice(None, e.h), slice(0, None)), lazy=True)
        ensure(y is x, 'a lazy crop to the whole image is not the image')
        return y
    if kind == 'lazywarp':
        y = x.warp([{}, {'scale': 1}, np.eye(3)][e.w % 3], lazy=True,
                   dsize='auto' if e.h % 2 else x.dsize)
        ensure(y is x, 'a lazy warp that does nothing is not the image')
        return y
    if kind == 'lazynone':
        y = x.warp(None, lazy=True)
        ensure(y is x, 'a lazy warp that does nothing is not the image')
        return y
    if kind == 'nopad':
        return x.crop((slice(0, e.h), slice(0, e.w)), clip=False, wrap=False)
    if kind == 'cat1':
        return D.DelayedChannelConcat([x])


def same(a, b, what):
    a, b = [getattr(v, 'values', v) for v in (a, b)]
    equal(a.shape, b.shape, what + ': shape delivered')
    equal(str(a.dtype), str(b.dtype), what + ': type delivered')
    if a.dtype.kind == 'f':
        ok = np.isclose(a, b, rtol=1e-6, atol=1e-6, equal_nan=True)
    else:
        ok = a == b
    ensure(bool(np.all(ok)), lambda: '{}: {} instead of {} at {}'.format(
        what, a[~ok][:3], b[~ok][:3], np.argwhere(~ok)[0].tolist()))


def run(case, rec):
    stmts = case['stmts']
    env = G.infer_all(stmts)
    ops = anygraph.label(rec, stmts)
    exact = not anygraph.resamples(ops)
    ref = G.build(stmts)
    objs = []
    idle = 0
    deqs = False
    for i, s in enumerate(stmts):
        y = spelled(s, objs, case['how'][i % len(case['how'])], exact, env)
        e = env[i]
        kind = case['noops'][i % len(case['noops'])] if case['noops'] else None
        if kind and not e.fuzzy and e.w > 0 and e.h > 0 and s['op'] != 'xa':
            nxt = [t['op'] for t in stmts if t.get('on') == i
                   or i in t.get('parts', [])]
            if not kind.startswith('lazy') and (
                    not exact or (e.cat and kind != 'cat1')):
                # (a crop above a concatenation or overview or between warps
                # selects, reads or blurs in another way)
                kind = 'lazycrop'
            if kind == 'cat1' and any(t['op'] == 'eval' for t in stmts[i + 1:]):
                kind = 'item'       # (concatenations have no evaluate)
            if kind == 'deq' and (e.deq or 'deq' in nxt or any(
                    t['op'] == 'deq' for t in stmts)):
                kind = 'take'       # (allowed once)
            if kind == 'deq':
                if deqs:
                    kind = 'item'
                deqs = True
            y = noop(y, kind, e)
            rec.label('noop-' + kind)
            idle += not kind.startswith('lazy')
        objs.append(y)
    x, y = ref[-1], objs[-1]
    equal(G.announced(y), G.announced(x), 'announced shape')
    equal(G.chan_names(y), G.chan_names(x), 'channels')
    for how in ['raw', 'opt']:
        if how == 'opt' and idle and not exact:
            continue        # (fewer rewrites may apply)
        a = x.finalize(optimize=how == 'opt')
        b = y.finalize(optimize=how == 'opt')
        same(b, a, how)
        rec.label(how)
    if not idle:
        o, p = x.optimize(), y.optimize()
        equal(G.announced(p), G.announced(o), 'announced shape, optimized')
    rec.nontrivial(len(stmts) >= 3)


@st.composite
def lazy_cases(draw):
    g = G.Gen(draw, [], leafs=['ident'], max_side=9, nan=False, max_chan=4,
              dtypes=['uint8', 'float32'])
    i = g.leaf()
    s = g.stmts[i]
    w, h, c = s['w'], s['h'], s['c']
    base = g.pick(['leaf', 'leaf', 'crop', 'over', 'cat', 'warp'])
    if base == 'crop' and w > 1:
        w -= 1
    elif base == 'over':
        w, h = -(-w // 2), -(-h // 2)
    elif base == 'cat':
        c += s['c']
    op = g.pick(['crop', 'crop', 'warp', 'warp', 'take'])
    if op == 'take' and base == 'cat':
        op = 'warp'     # (which has no lazy selection)
    near = lambda n: g.pick([n, n, n, None, n - 1, n + 1, n + 5])
    case = {'leaf': s, 'base': base, 'op': op}
    if op == 'crop':
        lo = lambda n: g.pick([0, 0, 0, None, 1, -n, -1])
        case['sl'] = g.pick([None, [[lo(h), near(h)], [lo(w), near(w)]],
                             [[lo(h), near(h)], [lo(w), near(w)]]])
        case['chan'] = g.pick([None, None, None, list(range(c)),
                               list(range(c))[::-1], [0]])
        case['pad'] = 0
        if case['sl'] is not None and case['chan'] is None and g.flip(3):
            # (without clipping the bounds are meant as they are)
            case['sl'] = [[g.pick([0, 0, 1, -1]), g.pick([h, h, h - 1, h + 1])],
                          [g.pick([0, 0, 1, -1]), g.pick([w, w, w - 1, w + 1])]]
            case['pad'] = g.pick([0, 1, [[0, 0], [0, 0]], [[0, 1], [0, 0]],
                                  [[0, 0], [1, 0]]])
            case['clip'] = False
    elif op == 'warp':
        case['tf'] = g.pick([None, {}, {'scale': 1}, {'offset': [1, 0]},
                             {'offset': [0, -1]}, {'scale': [1, 2]},
                             {'scale': [1.01, 1]}, {'theta': 0.01},
                             {'shearx': 0.02}, {'scale': [1, -1]}])
        case['dsize'] = g.pick(['auto', [w, h], [w, h], [w + 1, h], [w, h + 1],
                                [w, max(h - 1, 1)], [max(w - 1, 1), h],
                                [h, w]])
    else:
        names = list('abcdefgh')[:c]
        case['names'] = names
        case['want'] = list(draw(st.permutations(names)))
        if g.flip(3):
            case['want'] = g.pick([names, names[:1], names[::-1],
                                   names + names[:1]])
    return case


def run_lazy(case, rec):
    import delayed_image as D
    s = dict(case['leaf'])
    s['chan'] = '|'.join(case['names']) if case.get('names') else None
    x = G.make_leaf(s)
    base = case['base']
    if base == 'crop' and s['w'] > 1:
        x = x[:, :s['w'] - 1]
    elif base == 'over':
        x = x.get_overview(1)
    elif base == 'cat':
        x = D.DelayedChannelConcat([x, x])
    elif base == 'warp':
        x = x.warp({'offset': (1, 0)}, dsize=x.dsize)
    w, h = x.dsize
    op = case['op']
    if op == 'crop':
        sl = case['sl']
        if sl is not None:
            sl = tuple(slice(*v) for v in sl)
        kw = {}
        if case.get('clip') is False:
            pad = case['pad']
            kw = {'clip': False, 'wrap': False,
                  'pad': pad if isinstance(pad, int) else
                  [tuple(v) for v in pad]}
        eager = x.crop(sl, case['chan'], **kw)
        lazy = x.crop(sl, case['chan'], lazy=True, **kw)
    elif op == 'warp':
        d = case['dsize']
        d = d if d == 'auto' else tuple(d)
        eager = x.warp(G.tf_arg(case['tf']) if case['tf'] else case['tf'],
                       dsize=d)
        lazy = x.warp(G.tf_arg(case['tf']) if case['tf'] else case['tf'],
                      dsize=d, lazy=True)
    else:
        eager = x.take_channels('|'.join(case['want']))
        lazy = x.take_channels('|'.join(case['want']), lazy=True)
    equal(G.announced(lazy), G.announced(eager), 'announced shape')
    equal(G.chan_names(lazy), G.chan_names(eager), 'channels')
    for o in [False, True]:
        same(lazy.finalize(optimize=o), eager.finalize(optimize=o),
             'lazy, optimized' if o else 'lazy')
    rec.label(op, 'same' if lazy is x else 'new')
    rec.nontrivial(lazy is not x)


# (OpenCV's cubic resampling of nan is not reproducible)
WARP = G.any_warp(interps=['linear', 'linear', 'nearest'])

CHECK = CheckModule('C29', [
    Facet('memory', anygraph.cases(['ident', 'ident', 'nans'], extra=extra,
                                   warp=WARP),
          run, 4000, rule='any graph over arrays against the same graph with '
          'each operation said in another way, and with operations that do '
          'nothing; non-trivial = 3+ nodes'),
    Facet('files', anygraph.cases(['file', 'file', 'ident'], extra=extra,
                                   warp=WARP), run,
          2000, rule='the same over raster files'),
    Facet('lazy', lazy_cases, run_lazy, 3000, rule='lazy crops, warps and '
          'selections that do nothing or nearly nothing, against the same '
          'without lazy; non-trivial = something to do'),
])
