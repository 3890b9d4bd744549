"""Reading any region of a file equals slicing the whole image."""
import os
from collections import OrderedDict

import hypothesis.strategies as st
import numpy as np

from vh import graph as G
from vh.core import CheckModule, Facet, ensure, equal

TYPES = {'uint8': 'GDT_Byte', 'uint16': 'GDT_UInt16', 'int16': 'GDT_Int16',
         'uint32': 'GDT_UInt32', 'int32': 'GDT_Int32', 'uint64': 'GDT_UInt64',
         'int64': 'GDT_Int64', 'int8': 'GDT_Int8', 'float32': 'GDT_Float32',
         'float64': 'GDT_Float64', 'complex64': 'GDT_CFloat32',
         'complex128': 'GDT_CFloat64'}
ENVI_TYPES = ['uint8', 'uint16', 'int16', 'uint32', 'int32', 'float32',
              'float64', 'complex64', 'complex128', 'int64', 'uint64']
SPECTRAL_TYPES = ENVI_TYPES[:9]


def values(dt, shape, seed):
    rng = np.random.RandomState(seed)
    dt = np.dtype(dt)
    if dt.kind in 'ui':
        info = np.iinfo(dt)
        pool = [0, 1, 7, info.max, info.min, info.max - 1, info.min + 1]
        pool = np.array([dt.type(v) for v in pool])
        a = rng.randint(0, 100, shape).astype(dt)
        m = rng.rand(*shape) < 0.2
        a[m] = pool[rng.randint(0, len(pool), int(m.sum()))]
        return a
    a = rng.randn(*shape)
    if dt.kind == 'c':
        a = a + 1j * rng.randn(*shape)
    return a.astype(dt)


_files = OrderedDict()
_n = [0]


def write(case):
    key = tuple(str(case[k]) for k in ('fmt', 'dt', 'w', 'h', 'c', 'seed',
                                       'opts', 'ov', 'nds', 'ovm'))
    if key in _files:
        return _files[key]
    gdal = G._gdal()
    _n[0] += 1
    root = os.environ.get('VERIF_TMP') or '/tmp'
    path = os.path.join(root, 'c13_{}_{}'.format(os.getpid(), _n[0]))
    a = values(case['dt'], (case['h'], case['w'], case['c']), case['seed'])
    nds = case['nds'] or [None] * case['c']
    for k, nd in enumerate(nds):
        if nd is not None:
            # the number of pixels with nodata
            a[..., k].flat[::3] = nd
    opts = list(case['opts'])
    path += {'GTiff': '.tif', 'PNG': '.png'}.get(
        case['fmt'], '.' + opts[0][-3:].lower() if opts else '')
    src = path if case['fmt'] != 'PNG' else '/vsimem/c13.tif'
    drv = gdal.GetDriverByName('GTiff' if case['fmt'] == 'PNG' else case['fmt'])
    ds = drv.Create(src, case['w'], case['h'], case['c'],
                    getattr(gdal, TYPES[case['dt']]),
                    options=opts if case['fmt'] != 'PNG' else [])
    for k, nd in enumerate(nds):
        if nd is not None:
            ds.GetRasterBand(k + 1).SetNoDataValue(nd)
    for k in range(case['c']):
        ds.GetRasterBand(k + 1).WriteArray(np.ascontiguousarray(a[..., k]))
    ds.FlushCache()
    if case['ov']:
        ds.BuildOverviews(case['ovm'],
                          [2 ** (i + 1) for i in range(case['ov'])])
    if case['fmt'] == 'PNG':
        gdal.GetDriverByName('PNG').CreateCopy(path, ds)
        ds = None
        gdal.Unlink(src)
    ds = None
    # what the file holds, band by band, level by level, read by GDAL alone
    ds = gdal.Open(path)
    levels = []
    for n in range(case['ov'] + 1):
        bands = []
        for k in range(case['c']):
            b = ds.GetRasterBand(k + 1)
            if n:
                b = b.GetOverview(n - 1)
            bands.append(np.array(b.ReadAsArray()))
        levels.append(np.stack(bands, axis=2))
    ds = None
    ensure(np.array_equal(levels[0], a), 'the file is not what was written')
    _files[key] = (path, levels)
    if len(_files) > 300:
        _, (old, _) = _files.popitem(last=False)
        for ext in ('', '.aux.xml', '.ovr'):
            if os.path.exists(old + ext):
                os.unlink(old + ext)
    return path, levels


@st.composite
def spans(draw, n):
    """A slice that is not empty, in any spelling; or a number."""
    a = draw(st.integers(0, n - 1))
    b = draw(st.integers(a + 1, n))
    kind = draw(st.integers(0, 9))
    if kind == 0:
        return draw(st.sampled_from([a, a, a - n]))
    if kind == 1:
        return None
    s = draw(st.sampled_from([a, a, a, a - n]))
    e = draw(st.sampled_from([b, b, b, b - n if b < n else None]))
    if a == 0:
        s = draw(st.sampled_from([0, None, -n, -n - 3]))
    if b == n:
        e = draw(st.sampled_from([n, n, None, n + 1, n + 100]))
    return [s, e]


@st.composite
def strat(draw):
    p = lambda seq: draw(st.sampled_from(seq))
    fmt = p(['GTiff', 'GTiff', 'GTiff', 'GTiff', 'ENVI', 'ENVI', 'PNG'])
    big = draw(st.integers(0, 5)) == 0
    w, h = [draw(st.integers(1, 70 if big else 17)) for _ in 'wh']
    c = draw(st.integers(1, 5))
    opts = []
    ov = 0
    if fmt == 'GTiff':
        dt = p(sorted(TYPES))
        il = p(['BAND', 'PIXEL', None])
        if il:
            opts.append('INTERLEAVE=' + il)
        comp = p([None, None, 'DEFLATE', 'LZW', 'PACKBITS'])
        if comp:
            opts.append('COMPRESS=' + comp)
        tile = p([None, None, 16, 32])
        if tile:
            opts += ['TILED=YES', 'BLOCKXSIZE={}'.format(tile),
                     'BLOCKYSIZE={}'.format(tile)]
        if draw(st.integers(0, 2)) == 0:
            opts.append('PHOTOMETRIC=MINISBLACK')
        if min(w, h) > 1:
            ov = p([0, 0] + [n for n in (1, 2, 3) if 2 ** n <= min(w, h)])
    elif fmt == 'ENVI':
        dt = p(ENVI_TYPES)
        opts.append('INTERLEAVE=' + p(['BSQ', 'BIL', 'BIP']))
        opts.append('SUFFIX=REPLACE')
    else:
        dt = p(['uint8', 'uint16'])
        c = p([1, 3, 4, 2])
    nds = None
    if fmt == 'GTiff' and np.dtype(dt).kind in 'uif' and \
            np.dtype(dt).itemsize < 8 and draw(st.booleans()):
        nds = [p([0, 7, 100, 33])] * c
    readers = ['gdal', 'gdal', 'load']
    if fmt == 'ENVI':
        readers += ['gdal-hdr', 'rasterio']
        if dt in SPECTRAL_TYPES:
            readers += ['spectral', 'spectral']
    elif not ov and not nds:
        readers.append('rasterio')
    reads = []
    shapes = [(h, w)]
    for _ in range(ov):
        shapes.append(((shapes[-1][0] + 1) // 2, (shapes[-1][1] + 1) // 2))
    for _ in range(draw(st.integers(1, 4))):
        lv = draw(st.integers(0, ov))
        hh, ww = (h, w) if lv == 0 else [-(-s // 2 ** lv) for s in (h, w)]
        nd = draw(st.sampled_from([0, 1, 2, 2, 3, 3, 3]))
        ix = [draw(spans(hh)), draw(spans(ww))][:nd]
        if nd == 3:
            k = draw(st.integers(0, 3))
            if k == 0:
                ix.append({'list': draw(st.lists(st.integers(0, c - 1),
                                                 min_size=1, max_size=5))})
            else:
                ix.append(draw(spans(c)))
        reads.append({'level': lv, 'steps': draw(st.integers(0, 2)), 'ix': ix,
                      'form': draw(st.integers(0, 3)),
                      'reader': p(readers),
                      'method': p([None, None, 'float', 'ma', 'auto', 'nan'])
                      if nds else None})
    return {'fmt': fmt, 'dt': dt, 'w': w, 'h': h, 'c': c,
            'seed': draw(st.integers(0, 20)), 'opts': opts, 'ov': ov,
            'ovm': p(['NEAREST', 'AVERAGE']) if np.dtype(dt).kind != 'c'
            else 'NEAREST', 'nds': nds, 'reads': reads}


def as_index(x):
    if x is None or isinstance(x, int):
        return x
    if isinstance(x, dict):
        return list(x['list'])
    return slice(x[0], x[1])


def numpy_index(x, n):
    if x is None:
        return slice(None)
    if isinstance(x, int):
        x = x % n
        return slice(x, x + 1)
    if isinstance(x, dict):
        return list(x['list'])
    return slice(x[0], x[1])


def run(case, rec):
    from delayed_image import DelayedLoad
    from delayed_image import lazy_loaders as Z
    path, levels = write(case)
    made = {}
    rec.label(case['fmt'], case['dt'])
    for r in case['reads']:
        lv = r['level']
        full = levels[lv]
        want = full
        mask = None
        if r['method'] is not None:
            mask = np.zeros(full.shape, bool)
            for k, nd in enumerate(case['nds']):
                mask[..., k] = full[..., k] == nd
        who = (r['reader'], r['method'])
        if who not in made:
            if r['reader'] == 'gdal':
                made[who] = Z.LazyGDalFrameFile(path, nodata_method=r['method'])
            elif r['reader'] == 'gdal-hdr':
                made[who] = Z.LazyGDalFrameFile(path[:-4] + '.hdr')
            elif r['reader'] == 'rasterio':
                made[who] = Z.LazyRasterIOFrameFile(path)
            elif r['reader'] == 'spectral':
                made[who] = Z.LazySpectralFrameFile(path[:-4] + '.hdr')
            else:
                made[who] = DelayedLoad(
                    path, nodata_method=r['method'],
                    channels='|'.join('abcdefg'[:case['c']])).prepare()
        obj = made[who]
        rec.label(r['reader'], 'level-{}'.format(lv))
        ix = list(r['ix'])
        nix = [numpy_index(x, n) for x, n in zip(ix, full.shape)]
        sel = full
        msel = mask
        for ax, i in enumerate(nix):
            key = (slice(None),) * ax + (i,)
            sel = sel[key]
            msel = None if msel is None else msel[key]
        if r['reader'] == 'load':
            if r['form'] == 3 or lv:
                x = obj.get_overview(lv) if lv else obj
                if len(nix) > 2:
                    x = x.crop(tuple(nix[:2]), chan_idxs=list(
                        np.arange(full.shape[2])[nix[2]]))
                elif nix:
                    s2 = nix + [slice(None)] * (2 - len(nix))
                    x = x.crop(tuple(s2))
                got = x.finalize(optimize=r['steps'] != 1)
            else:
                x = obj
                got = x.finalize()
                sel, msel = full, mask
            equal(G.announced(x), sel.shape, 'announced shape')
        else:
            if lv:
                first = min(lv, r['steps'])
                obj = obj.get_overview(first).get_overview(lv - first)
                equal(obj.num_overviews, case['ov'] - lv, 'overviews left')
            equal(tuple(obj.shape), full.shape, 'shape')
            equal(obj.ndim, 3, 'ndim')
            equal(np.dtype(obj.dtype), full.dtype, 'dtype')
            key = [as_index(x) for x in ix]
            if r['reader'].startswith('gdal'):
                # a missing dimension may be an ellipsis
                if len(key) < 3 and r['form'] == 1:
                    key.append(Ellipsis)
                elif len(ix) == 3 and r['form'] == 2 and nix[1] == slice(None):
                    key[1] = Ellipsis
            if len(key) == 1 and r['form'] == 0:
                got = obj[key[0]]
            elif not key:
                got = obj[:] if r['form'] != 3 or \
                    not r['reader'].startswith('gdal') else np.asarray(obj)
                if isinstance(got, np.ndarray) and r['method'] == 'ma' and \
                        r['form'] == 3:
                    continue
            else:
                got = obj[tuple(key)]
        dt = full.dtype
        if r['method'] in ('float', 'nan', 'auto'):
            dt = np.result_type(dt, np.float32)
            if r['reader'] == 'load' and r['method'] == 'auto':
                dt = got.dtype
        equal(got.shape, sel.shape, 'shape read by {}'.format(who))
        ensure(got.dtype == dt, '{}: type {}, expected {}', who, got.dtype, dt)
        if msel is None:
            msel = np.zeros(sel.shape, bool)
        gm = np.ma.getmaskarray(got)
        if got.dtype.kind == 'f' and not np.ma.isMaskedArray(got) and \
                r['method']:
            gm = np.isnan(got)
        ensure(np.array_equal(gm, msel), '{}: other pixels are nodata', who)
        a = np.asarray(got)[~msel]
        b = sel[~msel].astype(dt) if dt.kind != full.dtype.kind else sel[~msel]
        ensure(np.array_equal(a, b), '{}: level {} index {} gives other values',
               who, lv, ix)
        part = any(i != slice(None) for i in nix)
        rec.nontrivial(part and sel.size > 1 and sel.size < full.size)


CHECK = CheckModule('C13', [
    Facet('regions', lambda: strat(), run, 6000, rule='files of three '
          'formats, twelve types, all interleavings, tilings, compressions, '
          'with overviews and nodata; regions in any spelling read by the '
          'three lazy readers and by delayed crops, repeatedly; non-trivial = '
          'a region of 2+ but not all values'),
])
