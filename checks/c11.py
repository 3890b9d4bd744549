"""Quantized values come back within a step, and nodata as no data."""
import hypothesis.strategies as st
import numpy as np

from vh import graph as G
from vh.core import CheckModule, Facet, ensure, equal

QD = ['uint8', 'uint16', 'int16', 'int8', 'int32', 'uint32']


@st.composite
def trips(draw):
    p = lambda seq: draw(st.sampled_from(seq))
    lo = p([0, 0, -1, 0.25, -100.0, 3])
    ext = p([1, 1, 2, 0.5, 255, 1e4])
    shape = [draw(st.integers(0, 5)), draw(st.integers(1, 5)),
             draw(st.integers(1, 3))]
    n = int(np.prod(shape))
    vals = draw(st.lists(
        st.one_of(st.sampled_from([0.0, 1.0, 0.5, None, -0.2, 1.3, None]),
                  st.floats(0, 1)), min_size=n, max_size=n))
    return {'lo': lo, 'ext': ext, 'shape': shape, 'unit': vals,
            'fdt': p(['float64', 'float32']), 'qdt': p(QD),
            'defaults': lo == 0 and ext == 1 and draw(st.booleans()),
            'delayed': draw(st.integers(0, 3)), 'seed': draw(st.integers(0, 9))}


def run_trip(case, rec):
    from delayed_image import DelayedIdentity
    from delayed_image.helpers import dequantize, quantize_float01
    lo, hi = case['lo'], case['lo'] + case['ext']
    fdt = np.dtype(case['fdt'])
    unit = np.array([np.nan if u is None else u for u in case['unit']], float)
    x = (lo + unit * (hi - lo)).reshape(case['shape']).astype(fdt)
    qdt = np.dtype(case['qdt'])
    orig = x.copy()
    if case['defaults']:
        q, info = quantize_float01(x, quantize_dtype=qdt.type)
    else:
        q, info = quantize_float01(x, lo, hi, qdt.type)
    ensure(np.array_equal(x, orig, equal_nan=True), 'the input was changed')
    equal(q.dtype, qdt, 'quantized type')
    equal(q.shape, x.shape, 'quantized shape')
    none, info2 = quantize_float01(None, lo, hi, qdt.type)
    ensure(none is None and info2 == info, 'parameters without data')
    nan = np.isnan(x)
    qc = q.copy()
    equal((q == info['nodata']).tolist(), nan.tolist(), 'where nodata is')
    back = dequantize(q, info)
    ensure(np.array_equal(q, qc), 'the quantized data was changed')
    step = (hi - lo) / (float(info['quant_max']) - float(info['quant_min']))
    tol = step * 1.001 + 4e-7 * max(abs(lo), abs(hi), hi - lo)
    want = np.clip(x.astype(np.float64), lo, hi)
    equal(np.isnan(back).tolist(), nan.tolist(), 'where no data comes back')
    err = np.abs(back.astype(np.float64) - want)[~nan]
    ensure(not err.size or err.max() <= tol,
           'comes back {} off, a step is {}', err.max() if err.size else 0, step)
    # order is kept
    a, b = want[~nan], q[~nan].astype(np.float64)
    o = np.argsort(a, kind='stable')
    ensure((np.diff(b[o]) >= 0).all(), 'the order of values is not kept')
    rec.label('q-' + qdt.name, fdt.name)
    rec.nontrivial(nan.any() and (~nan).sum() >= 2)
    if case['delayed'] and x.size:
        d = DelayedIdentity(q, channels='|'.join('abc'[:q.shape[2]]))
        d = d.dequantize(info)
        equal(G.announced(d), q.shape, 'announced shape')
        g = d.finalize(optimize=case['delayed'] != 1)
        ensure(np.array_equal(np.asarray(g), back, equal_nan=True),
               'a delayed dequantization gives other values')


@st.composite
def formula(draw):
    p = lambda seq: draw(st.sampled_from(seq))
    dt = p(['uint8', 'int16', 'uint16', 'int32', 'float32', 'int8', 'int32',
            'uint32', 'float64'])
    q = {'quant_max': p([255, 100, 10000, 1, 0])}
    for k, seq in [('orig_dtype', ['float32', 'float64']),
                   ('orig_min', [0, -1, 10, 0.5]), ('orig_max', [1, 2, 255]),
                   ('quant_min', [0, 1, -10, 255]),
                   ('nodata', [None, 0, 7, -9999, 3.5, 300, 70000, 255, -1,
                               16777216, 16777217, 2 ** 31 - 1, 'nan',
                               'inf'])]:
        if draw(st.integers(0, 3)):
            q[k] = p(seq)
    return {'dt': dt, 'q': q, 'seed': draw(st.integers(0, 999)),
            'shape': [draw(st.integers(1, 4)), draw(st.integers(1, 4)),
                      draw(st.integers(1, 3))],
            'order': draw(st.integers(0, 2)), 'crop': draw(st.booleans()),
            'load': draw(st.booleans())}


def run_formula(case, rec):
    from delayed_image import DelayedIdentity, DelayedLoad
    from delayed_image.helpers import dequantize
    dt = np.dtype(case['dt'])
    rng = np.random.RandomState(case['seed'])
    pool = np.array([0, 1, 7, 100, 255, 44, 3.5 if dt.kind == 'f' else 5])
    if dt.itemsize >= 4:
        # (not all of them are float32 numbers)
        pool = np.append(pool, [16777216, 16777217, 2 ** 31 - 1])
    if dt.kind != 'u':
        pool = np.append(pool, [-1, -10] + ([-9999] if dt.itemsize > 1 else []))
    if dt.itemsize == 1 and dt.kind == 'i':
        pool = pool[pool < 128]
    h, w, c = case['shape']
    arr = pool[rng.randint(0, len(pool), (h, w, c))].astype(dt)
    q = dict(case['q'])
    nd = q.get('nodata')
    if isinstance(nd, str):
        nd = q['nodata'] = float(nd)
    omin, omax = q.get('orig_min', 0), q.get('orig_max', 1)
    qmin, qmax = q.get('quant_min', 0), q['quant_max']
    scale = (omax - omin) / (qmax - qmin) if qmax != qmin else 0.0
    want = (arr.astype(np.float64) - qmin) * scale + omin
    if nd is not None:
        # compared as numbers (300 is not in uint8 data), in float data as
        # what the data type can hold
        nd_ = float(dt.type(nd)) if dt.kind == 'f' else nd
        want[arr.astype(np.float64) == nd_] = np.nan
        rec.label('nodata-hit' if np.isnan(want).any() else 'nodata-miss')
    tol = 2e-6 * max(1, abs(scale) * 1e4,
                     abs(scale) * float(np.abs(arr.astype(float)).max()))
    before = arr.copy()
    got = dequantize(arr, dict(q))
    ensure(np.array_equal(arr, before), 'the quantized data was changed')
    equal(got.dtype.name, q.get('orig_dtype', 'float32'), 'delivered type')
    msg = G.same(got, want, tol)
    ensure(msg is None, 'helper: {}'.format(msg))
    names = '|'.join('abc'[:c])
    if case['load'] and dt.name != 'int8':
        leaf = {'op': 'file', 'w': w, 'h': h, 'c': c, 'dt': dt.name, 'ov': 0,
                'seed': None}
        import os
        path = os.path.join(os.environ.get('VERIF_TMP') or '/tmp',
                            'deq_{}.tif'.format(os.getpid()))
        G.write_tif(path, arr)
        x = DelayedLoad(path, channels=names).prepare()
        rec.label('file')
    else:
        x = DelayedIdentity(arr, channels=names)
    rec.nontrivial(scale not in (0, 1) and nd is not None)
    sl = (slice(h // 2, h), slice(0, w))
    if case['crop'] and case['order'] == 1:
        x = x.crop(sl)
    x = x.dequantize(dict(q))
    if case['crop'] and case['order'] == 2:
        x = x.crop(sl)
    if case['crop'] and case['order']:
        want = want[sl]
    for how in ['raw', 'opt']:
        g = x.finalize(optimize=how == 'opt')
        equal(g.dtype.name, q.get('orig_dtype', 'float32'), 'delivered type')
        msg = G.same(g, want, tol)
        ensure(msg is None, '{}: {}'.format(how, msg))


@st.composite
def routes(draw):
    g = G.Gen(draw, [], leafs=['ident', 'file'], max_side=9, max_chan=3,
              dtypes=['uint8', 'int16', 'uint16'], unnamed=True,
              file_kw=lambda g, s, f: {'ov': 0})
    leaf = g.stmts[g.leaf()]
    w, h, c = leaf['w'], leaf['h'], leaf['c']
    steps = []
    n = g.int(1, 6)
    at = g.int(0, n)
    moved = False
    # (warps that follow each other take the parameters of the last)
    flips = g.flip()
    for k in range(n + 1):
        if k == at:
            leaf['nd'] = g.pick([None, 0, 0, 255])
            a = G.leaf_array(leaf).ravel()
            q = g.quant() or {'quant_max': 100}
            q['nodata'] = g.pick([None, int(a[draw(
                st.integers(0, a.size - 1))]), int(a[0]),
                                  leaf['nd']])
            if q.get('quant_max') == q.get('quant_min'):
                q['quant_max'] += 1
            steps.append({'k': 'deq', 'q': q})
            continue
        kind = g.pick(['crop', 'crop', 'shift', 'take', 'over', 'cat', 'opt',
                       'big', 'flip' if flips else 'pad'])
        if kind == 'over':
            if moved:
                continue        # (optimized it takes other pixels)
            steps.append({'k': kind, 'n': g.int(1, 2)})
            m = 2 ** steps[-1]['n']
            w, h = -(-w // m), -(-h // m)
        elif kind == 'crop':
            y = sorted([g.int(0, h), g.int(0, h)])
            x = sorted([g.int(0, w), g.int(0, w)])
            if y[0] == y[1] or x[0] == x[1]:
                continue
            steps.append({'k': kind, 'y': y, 'x': x})
            h, w = y[1] - y[0], x[1] - x[0]
            moved = True
        elif kind in ('shift', 'pad', 'big'):
            by = [g.int(-2, 3), g.int(-2, 3)]
            if kind == 'pad':
                by = [abs(v) for v in by]
            steps.append({'k': kind, 'by': by,
                          'interp': 'nearest' if flips else 'linear'})
            if kind == 'pad':
                w, h = w + 2 * by[0], h + 2 * by[1]
            elif kind == 'big':
                w, h = w + 3, h + 2
            moved = True
            if max(w, h) > 40:
                steps.pop()
                break
        elif kind == 'flip':
            steps.append({'k': kind, 'x': g.flip(), 'interp': 'nearest'})
            moved = True
        elif kind == 'take':
            idx = list(draw(st.permutations(range(c))))[:g.int(1, c)]
            steps.append({'k': kind, 'idx': idx})
            c = len(idx)
        elif kind == 'cat':
            if c > 6:
                continue
            steps.append({'k': kind})
            c *= 2
        else:
            steps.append({'k': kind})
    return {'leaf': leaf, 'steps': steps}


def run_route(case, rec):
    from delayed_image import DelayedChannelConcat
    leaf = dict(case['leaf'])
    x = G.make_leaf(leaf)
    src = G.leaf_array(leaf)
    # which element of the source is shown where
    at = np.arange(src.size).reshape(src.shape)
    q = None
    for s in case['steps']:
        k = s['k']
        rec.label(k)
        h, w = at.shape[:2]
        if k == 'deq':
            if q is not None:
                continue
            q = dict(s['q'])
            x = x.dequantize(dict(q))
        elif k == 'over':
            x = x.get_overview(s['n'])
            at = at[::2 ** s['n'], ::2 ** s['n']]
        elif k == 'crop':
            sl = (slice(*s['y']), slice(*s['x']))
            x, at = x[sl], at[sl]
        elif k in ('shift', 'big', 'pad'):
            dx, dy = s['by']
            if k == 'pad':
                x = x.crop((slice(-dy, h + dy), slice(-dx, w + dx)),
                           clip=False, wrap=False)
                size = (w + 2 * dx, h + 2 * dy)
            else:
                size = (w + 3, h + 2) if k == 'big' else (w, h)
                x = x.warp({'offset': (dx, dy)}, dsize=size,
                           interpolation=s['interp'])
            new = np.full((size[1], size[0], at.shape[2]), -1)
            for r in range(size[1]):
                for v in range(size[0]):
                    if 0 <= r - dy < h and 0 <= v - dx < w:
                        new[r, v] = at[r - dy, v - dx]
            at = new
        elif k == 'flip':
            tf = ({'scale': (-1, 1), 'offset': (w, 0)} if s['x'] else
                  {'scale': (1, -1), 'offset': (0, h)})
            x = x.warp(tf, dsize=(w, h), interpolation=s['interp'])
            at = at[:, ::-1] if s['x'] else at[::-1]
        elif k == 'take':
            x = x.take_channels(s['idx'])
            at = at[:, :, s['idx']]
        elif k == 'cat':
            x = DelayedChannelConcat([x, x])
            at = np.concatenate([at, at], axis=2)
        else:
            x = x.optimize()
    flat = src.ravel().astype(np.float64)
    want = G.model_dequantize(flat, q)
    scale = float(np.nanmax(np.abs(want))) if np.isfinite(want).any() else 1
    inside = at >= 0
    nodata = q.get('nodata') is not None and flat[at[inside]].size and (
        flat[at[inside]] == q['nodata']).any()
    rec.label('nodata' if nodata else 'all data')
    rec.nontrivial(bool(nodata) and len(case['steps']) >= 3)
    for how in ['raw', 'opt']:
        got = x.finalize(optimize=how == 'opt')
        equal(got.shape, at.shape, how + ': shape delivered')
        got = np.where(inside, got, np.nan)
        msg = G.same(got, np.where(inside, want[at], np.nan), 2e-5 * (1 + scale))
        ensure(msg is None, '{}: {}', how, msg)


CHECK = CheckModule('C11', [
    Facet('formula', lambda: formula(), run_formula, 5000,
          rule='quantization parameters (also missing and degenerate ones, '
          'nodata that the type cannot hold) on arrays and files; non-trivial '
          '= a rescaling with nodata'),
    Facet('round-trip', lambda: trips(), run_trip, 4000,
          rule='quantize_float01 then dequantize, also delayed; non-trivial = '
          'nan and 2+ values'),
    Facet('graph', lambda: routes(), run_route, 4000,
          rule='a dequantization anywhere among overviews, crops, paddings, '
          'whole shifts, mirrorings, selections and concatenations: no data '
          'exactly where the pixel shown is; non-trivial = nodata shown and 3+'
          ' steps'),
])
