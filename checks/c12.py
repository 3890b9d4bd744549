"""Nodata of files is delivered as no data, and everything else unchanged."""
import os

import hypothesis.strategies as st
import numpy as np

from vh import graph as G
from vh.core import CheckModule, Facet, ensure, equal

VALS = {'uint8': [0, 3, 7, 250, 255], 'int16': [-9999, -5, 0, 3, 32000],
        'uint16': [0, 7, 9000, 65535], 'int32': [-100000, 0, 7],
        'float32': [-9999.0, 0.0, 0.5, 1.5, float('nan')],
        'float64': [-9999.0, 0.0, 0.1, 7.0, float('nan')]}


@st.composite
def strat(draw):
    g = G.Gen(draw, [], leafs=['file'], max_side=9)
    w, h = g.int(1, 9), g.int(1, 9)
    files = []
    for _ in range(g.int(1, 3)):
        dt = g.pick(sorted(VALS))
        c = g.int(1, 3)
        per = g.pick(['one', 'one', 'one', 'bands', 'none'])
        v = VALS[dt]
        if per == 'one':
            nds = [g.pick(v)] * c
        elif per == 'none':
            nds = [None] * c
        else:
            nds = [g.pick(v + [None]) for _ in range(c)]
        ov = 0
        if per == 'one' and min(w, h) >= 2:
            ov = g.pick([0, 0, 1])
        files.append({'w': w, 'h': h, 'c': c, 'dt': dt, 'per': per,
                      'nds': ['nan' if n is not None and n != n else n
                              for n in nds],
                      'seed': g.int(0, 50), 'ov': ov,
                      'method': g.pick(['float', 'ma', 'auto', 'ma', None])})
    steps = []
    resampled = False
    env = [(f['w'], f['h'], f['c']) for f in files]
    cur = [0, env[0]]
    for _ in range(g.int(0, 5)):
        k = g.pick(['crop', 'take', 'cat', 'cat', 'over', 'eval', 'opt', 'pad',
                    'up'])
        W, H, c = cur[1]
        s = {'k': k}
        if k == 'crop':
            a, b = sorted([g.int(0, H), g.int(0, H)])
            p, q = sorted([g.int(0, W), g.int(0, W)])
            if a == b or p == q:
                continue
            s.update(y=[a, b], x=[p, q], c=g.chan_index(c) if g.flip(3) else None)
            idx = G.chan_list(s['c'], c)
            cur[1] = (q - p, b - a, c if idx is None else len(idx))
            resampled = True
        elif k == 'take':
            s['idx'] = list(draw(st.permutations(range(c))))[:g.int(1, c)]
            cur[1] = (W, H, len(s['idx']))
        elif k == 'cat':
            if len(steps) and g.flip(2):
                s['other'] = 'self'
                cur[1] = (W, H, 2 * c)
            elif (W, H) == (w, h):
                s['other'] = g.int(0, len(files) - 1)
                cur[1] = (W, H, c + files[s['other']]['c'])
            else:
                continue
            if cur[1][2] > 9:
                cur[1] = (W, H, c)
                continue
        elif k == 'over':
            if steps:
                continue        # optimizing would take other pixels
            s['n'] = g.pick([1, 1, 2])
            cur[1] = (-(-W // 2 ** s['n']), -(-H // 2 ** s['n']), c)
            resampled = True
        elif k == 'pad':
            if any(q['k'] == 'up' for q in steps):
                continue        # fused with another interpolation
            s.update(p=[[g.int(0, 2), g.int(0, 2)], [g.int(0, 2), g.int(0, 2)]])
            cur[1] = (W + sum(s['p'][1]), H + sum(s['p'][0]), c)
            resampled = True
        elif k == 'up':
            f = [g.int(1, 3), g.int(1, 3)]
            if any(q['k'] == 'over' for q in steps):
                continue        # may be undone by the enlargement
            if W * f[0] > 30 or H * f[1] > 30:
                continue
            s['f'] = f
            cur[1] = (W * f[0], H * f[1], c)
            resampled = True
        steps.append(s)
    return {'files': files, 'steps': steps,
            'end': g.pick([None, None, 'xa', 'deq', 'deq']),
            'override': g.pick([None, None, None, 'float', 'ma'])}


def nums(nds):
    return [float('nan') if n == 'nan' else n for n in nds]


def array(f):
    rng = np.random.RandomState(f['seed'])
    dt = np.dtype(f['dt'])
    pool = np.array([v for v in VALS[f['dt']] if v == v] +
                    ([float('nan')] if dt.kind == 'f' else []) + [1, 2, 11])
    return pool[rng.randint(0, len(pool), (f['h'], f['w'], f['c']))].astype(dt)


def path(f):
    nds = nums(f['nds'])
    key = repr(sorted(f.items()))
    if key in G._files:
        return G._files[key]
    root = os.environ.get('VERIF_TMP') or '/tmp'
    G._serial[0] += 1
    base = os.path.join(root, 'nd_{}_{}'.format(os.getpid(), G._serial[0]))
    arr = array(f)
    G.write_tif(base + '.tif', arr, ov=f['ov'],
                nd=nds[0] if f['per'] == 'one' else None)
    out = base + '.tif'
    if f['per'] == 'bands':
        names = {'uint8': 'Byte', 'int16': 'Int16', 'uint16': 'UInt16',
                 'int32': 'Int32', 'float32': 'Float32', 'float64': 'Float64'}
        txt = '<VRTDataset rasterXSize="{}" rasterYSize="{}">'.format(
            f['w'], f['h'])
        for k, n in enumerate(nds):
            txt += '<VRTRasterBand dataType="{}" band="{}">'.format(
                names[f['dt']], k + 1)
            if n is not None:
                txt += '<NoDataValue>{!r}</NoDataValue>'.format(n)
            txt += ('<SimpleSource><SourceFilename relativeToVRT="1">{}'
                    '</SourceFilename><SourceBand>{}</SourceBand>'
                    '</SimpleSource></VRTRasterBand>'.format(
                        os.path.basename(out), k + 1))
        txt += '</VRTDataset>'
        with open(base + '.vrt', 'w') as fh:
            fh.write(txt)
        out = base + '.vrt'
    G._files[key] = out
    return out


def read_ov(f, n):
    ds = G._gdal().Open(path(f))
    return np.stack([ds.GetRasterBand(k + 1).GetOverview(n - 1).ReadAsArray()
                     for k in range(f['c'])], axis=2)


def as_model(arr, f, method):
    """float64 values; no data is nan if the method tells it apart."""
    out = arr.astype(np.float64)
    if method is not None:
        for k, n in enumerate(nums(f['nds'])):
            if n is not None:
                # the nodata value is stored in the type of the file
                out[:, :, k][arr[:, :, k] == np.dtype(f['dt']).type(n)] = np.nan
    return out


def canon(got):
    if isinstance(got, np.ma.MaskedArray):
        return np.where(np.ma.getmaskarray(got), np.nan,
                        got.data.astype(np.float64))
    return np.asarray(got, dtype=np.float64)


def run_nodata(case, rec):
    from delayed_image import DelayedChannelConcat, DelayedLoad
    files = case['files']
    over = case['override']

    def leaf(i):
        f = files[i]
        x = DelayedLoad(path(f), nodata_method=f['method']).prepare()
        m = over or f['method']
        isma = m == 'ma'
        kind = {'val': as_model(array(f), f, m), 'lev': (i, 0),
                # what paddings are filled with
                'fill': [np.nan if f['dt'][0] == 'f' or m is not None else 0]
                * f['c'],
                'ma': isma, 'int': f['dt'][0] != 'f' and m in (None, 'ma')}
        return x, kind

    x, m = leaf(0)
    methods = {over or files[0]['method']}
    kinds = [m['int']]
    val, fill = m['val'], m['fill']
    lev = (0, 0)
    judge_raw_fill = True
    for s in case['steps']:
        k = s['k']
        rec.label(k)
        if k == 'crop':
            sl = (slice(*s['y']), slice(*s['x']))
            x = x.crop(sl, G.chan_arg(s['c']))
            val = val[sl]
            idx = G.chan_list(s['c'], val.shape[2])
            if idx is not None:
                val, fill = val[:, :, idx], [fill[j] for j in idx]
        elif k == 'take':
            x = x.take_channels(s['idx'])
            val, fill = val[:, :, s['idx']], [fill[j] for j in s['idx']]
        elif k == 'cat':
            if s['other'] == 'self':
                x = DelayedChannelConcat([x, x])
                val = np.concatenate([val, val], axis=2)
                fill = fill + fill
            else:
                y, m = leaf(s['other'])
                methods.add(over or files[s['other']]['method'])
                kinds.append(m['int'])
                x = DelayedChannelConcat([x, y])
                val = np.concatenate([val, m['val']], axis=2)
                fill = fill + m['fill']
        elif k == 'over':
            n = s['n']
            x = x.get_overview(n)
            f = files[0]
            if lev is not None and n <= f['ov']:
                val = as_model(read_ov(f, n), f, over or f['method'])
            else:
                val = val[::2 ** n, ::2 ** n]
        elif k == 'pad':
            (a, b), (c, d) = s['p']
            x = x.crop((slice(0, val.shape[0]), slice(0, val.shape[1])),
                       clip=False, wrap=False, pad=[(a, b), (c, d)])
            new = np.empty((val.shape[0] + a + b, val.shape[1] + c + d,
                            val.shape[2]))
            new[:] = fill
            new[a:a + val.shape[0], c:c + val.shape[1]] = val
            val = new
        elif k == 'up':
            fx, fy = s['f']
            x = x.warp({'scale': [fx, fy]}, interpolation='nearest',
                       antialias=False)
            val = val.repeat(fy, axis=0).repeat(fx, axis=1)
        elif k == 'eval':
            if not hasattr(x, 'evaluate') or over:
                continue
            x = x.evaluate()
        elif k == 'opt':
            x = x.optimize()
        lev = None
        equal(G.announced(x), val.shape, 'announced shape after ' + k)
    tol = 0
    end = case['end']
    # parts of other kinds are promoted before they are padded
    blurry = (len(set(kinds)) > 1 or len(methods) > 1) and any(
        s['k'] == 'pad' for s in case['steps'])
    if end == 'deq':
        if any(s['k'] == 'pad' for s in case['steps']) and None in methods:
            end = None
        else:
            q = {'orig_dtype': 'float64', 'orig_min': 0, 'orig_max': 2,
                 'quant_min': 1, 'quant_max': 101, 'nodata': 11}
            x = x.dequantize(q)
            val = G.model_dequantize(val, q)
            tol = 1e-6
    if end == 'xa':
        x = x.as_xarray()
    rec.label('end-' + str(end), *['method-' + str(m) for m in methods])
    if blurry:
        rec.label('blurry')
        return
    rec.nontrivial(np.isnan(val).any() and not np.isnan(val).all()
                   and len(case['steps']) > 0)
    kw = {} if over is None else {'nodata_method': over}
    for how in ['raw', 'opt']:
        got = x.finalize(optimize=how == 'opt', **kw)
        if end == 'xa':
            got = got.data
        msg = G.same(canon(got), val, tol)
        ensure(msg is None, '{}: {}'.format(how, msg))


CHECK = CheckModule('C12', [
    Facet('nodata', lambda: strat(), run_nodata, 4000,
          rule='files of all types with one, per band or no nodata values, '
          'loaded as nan, masked or raw, through crops, selections, '
          'concatenations, overviews, paddings, nearest enlargements, '
          'dequantization, xarray; non-trivial = data and no data, 1+ nodes'),
])
