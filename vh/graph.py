"""
Image graphs as JSON programs: a list of statements, each of which makes one
node out of a leaf description or out of earlier statements (so sub-graphs can
be shared).  The result is the last statement.

    {"op": "ident", "w":, "h":, "c":, "dt":, "seed":, "chan": text | None,
     "fill": "rand" | "ramp"}
    {"op": "file", ...same..., "ov": n, "nd": None | value, "method":,
     "known": bool, "block":, "fmt":}
    {"op": "nans", "w":, "h":, "c":, "chan":}
    {"op": "crop", "on":, "y": [a, b], "x": [a, b], "c": None | index}
    {"op": "pad", "on":, "y":, "x":, "pad":}          clip=False, wrap=False
    {"op": "take", "on":, "by": [names] | index}
    {"op": "warp", "on":, "tf": {...}, "dsize": "auto" | [w, h], "kw": {...}}
    {"op": "resize", "on":, "dsize":, "kw":}
    {"op": "over", "on":, "n":}
    {"op": "deq", "on":, "q": {...} | None}
    {"op": "eval", "on":}
    {"op": "xa", "on":}
    {"op": "cat", "parts": [...]}
A channel index is a list of integers, an integer, or ["s", a, b].
"""
import math
import os
import shutil
from collections import OrderedDict

import numpy as np
from hypothesis import strategies as st

DTYPES = ['uint8', 'uint16', 'int16', 'int32', 'float32', 'float64']
POOL = ['r', 'g', 'b', 'nir', 'pan', 'B1', 'B8', 'x.0', 'x.1', 'x.2', 'x.3',
        'red edge', 'm.5', 'dx', 'dy', 'q1', 'q2', 'q3', 'z.0', 'z.1', 'z.2']


# ---------------------------------------------------------------- leaf data

def leaf_array(s):
    """(h, w, c) array of a leaf statement."""
    h, w, c = s['h'], s['w'], s['c']
    dt = np.dtype(s['dt'])
    if s.get('fill') == 'level':
        return np.stack([np.full((h, w), level_code(0, k))
                         for k in range(c)], axis=2).astype(dt)
    if s.get('fill') == 'ramp':
        yy, xx = np.mgrid[0:h, 0:w]
        base = [xx + .5, yy + .5, 3 * (xx + .5) + (yy + .5),
                (xx + .5) - 2 * (yy + .5)]
        return np.stack([base[k % 4] for k in range(c)], axis=2).astype(dt)
    rng = np.random.RandomState(s.get('seed', 0))
    if dt.kind == 'f':
        arr = rng.randint(-4000, 4000, size=(h, w, c)) / 8.0
        if s.get('nan'):
            arr[rng.rand(h, w, c) < 0.15] = np.nan
    elif dt.kind == 'u':
        arr = rng.randint(0, 256, size=(h, w, c))
    else:
        arr = rng.randint(-300, 300, size=(h, w, c))
    if s.get('nd') is not None:
        arr[rng.rand(h, w, c) < 0.2] = s['nd']
    return arr.astype(dt)


RAMP_COEF = [(1, 0), (0, 1), (3, 1), (1, -2)]

_files = OrderedDict()
_serial = [0]


def _gdal():
    from osgeo import gdal
    gdal.UseExceptions()
    return gdal


def write_tif(path, arr, ov=0, nd=None, block=None, driver='GTiff',
              method='NEAREST', options=(), external=False):
    gdal = _gdal()
    codes = {'uint8': gdal.GDT_Byte, 'uint16': gdal.GDT_UInt16,
             'int16': gdal.GDT_Int16, 'int32': gdal.GDT_Int32,
             'uint32': gdal.GDT_UInt32,
             'float32': gdal.GDT_Float32, 'float64': gdal.GDT_Float64}
    h, w, c = arr.shape
    opts = list(options)
    if block and driver == 'GTiff':
        opts += ['TILED=YES', 'BLOCKXSIZE={}'.format(block),
                 'BLOCKYSIZE={}'.format(block)]
    drv = gdal.GetDriverByName(driver)
    ds = drv.Create(path, w, h, c, codes[arr.dtype.name], options=opts)
    for k in range(c):
        band = ds.GetRasterBand(k + 1)
        if nd is not None:
            # (first: blocks without anything else are not stored)
            band.SetNoDataValue(nd)
        band.WriteArray(np.ascontiguousarray(arr[:, :, k]))
    ds.FlushCache()
    if ov:
        gdal.SetConfigOption('GDAL_TIFF_OVR_BLOCKSIZE', '64')
        if external:
            ds = None
            ds = gdal.Open(path, gdal.GA_ReadOnly)
        ds.BuildOverviews(method, [2 ** (i + 1) for i in range(ov)])
    ds = None


def write_png(path, arr):
    gdal = _gdal()
    write_tif('/vsimem/png_src.tif', arr)
    gdal.GetDriverByName('PNG').CreateCopy(
        path, gdal.Open('/vsimem/png_src.tif'))
    gdal.Unlink('/vsimem/png_src.tif')


def level_code(level, k):
    return 100.0 * (level + 1) + 10 * k


def code_levels(path, s):
    """Make every pixel of every overview tell its level and band."""
    gdal = _gdal()
    ds = gdal.Open(path, gdal.GA_Update)
    for k in range(s['c']):
        band = ds.GetRasterBand(k + 1)
        for n in range(band.GetOverviewCount()):
            o = band.GetOverview(n)
            o.WriteArray(np.full((o.YSize, o.XSize), level_code(n + 1, k),
                                 dtype=s['dt']))
    ds = None


def file_path(s):
    """Write (once per worker) the file of a leaf statement."""
    keys = ['w', 'h', 'c', 'dt', 'seed', 'fill', 'nan', 'ov', 'nd', 'block',
            'ovm', 'ovk']
    key = tuple(s.get(k) for k in keys)
    if key in _files:
        _files.move_to_end(key)
        return _files[key]
    root = os.environ.get('VERIF_TMP') or '/tmp'
    _serial[0] += 1
    kind = s.get('ovk')
    # (files of the same name in different folders are different files)
    folder = os.path.join(root, 'd{}_{}'.format(os.getpid(), _serial[0]))
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, 'img_{}x{}.{}'.format(
        s['w'], s['h'], {'HFA': 'img', 'png': 'png'}.get(kind, 'tif')))
    if kind == 'png':
        write_png(path, leaf_array(s))
    else:
        write_tif(path, leaf_array(s), ov=s.get('ov') or 0, nd=s.get('nd'),
                  block=s.get('block'), method=s.get('ovm') or 'NEAREST',
                  driver='HFA' if kind == 'HFA' else 'GTiff',
                  external=kind == 'external',
                  options=['INTERLEAVE=BAND'] if kind == 'band' else ())
    if s.get('fill') == 'level':
        code_levels(path, s)
    _files[key] = path
    if len(_files) > 400:
        _, old = _files.popitem(last=False)
        shutil.rmtree(os.path.dirname(old), ignore_errors=True)
    return path


# ---------------------------------------------------------------- shape model

def names_of(chan):
    """Expanded channel names of a leaf's channel text."""
    from vh import specs
    if chan is None:
        return None
    out = []
    for tok in chan.split('|'):
        if tok in specs.ALIAS:
            out += specs.ALIAS[tok]
        elif ':' in tok:
            root, b = tok.split(':')
            out += ['{}.{}'.format(root, i) for i in range(int(b))]
        else:
            out.append(tok)
    return out


def chan_list(idx, n):
    if idx is None:
        return None
    if isinstance(idx, int):
        return [range(n)[idx]]
    if idx and idx[0] == 's':
        return list(range(n))[slice(idx[1], idx[2])]
    return [range(n)[i] for i in idx]


def chan_arg(idx):
    if isinstance(idx, list) and idx and idx[0] == 's':
        return slice(idx[1], idx[2])
    return idx


def matrix(tf):
    import kwimage
    if isinstance(tf, list):
        return np.array(tf, dtype=float)
    return np.asarray(kwimage.Affine.coerce(tf).matrix, dtype=float)


def auto_corner(M, w, h):
    pts = M[0:2] @ np.array([[0, w, 0, w], [0, 0, h, h], [1, 1, 1, 1.]])
    return pts.max(axis=1)


def tf_arg(tf):
    if isinstance(tf, list):
        return np.array(tf, dtype=float)
    return dict(tf)


class Sh:
    """Announced shape of a node, from the statement alone."""
    __slots__ = ('w', 'h', 'c', 'names', 'deq', 'fuzzy', 'cat', 'over_cat',
                 'over_deq')

    def __init__(self, w, h, c, names, deq=False, fuzzy=False):
        self.w, self.h, self.c, self.names, self.deq = w, h, c, names, deq
        self.cat = False        # the node itself is (maybe) a concatenation
        self.over_cat = False   # there is one at or below
        self.over_deq = False   # was dequantized, maybe before a copy
        self.fuzzy = fuzzy      # auto canvas landed on a rounding edge

    @property
    def shape(self):
        return (self.h, self.w, self.c)


def span(ab, n):
    a, b, _ = slice(*ab).indices(n)
    return a, max(a, b)


def pad_span(ab, pad):
    a, b = ab
    return a - pad, max(a, b) + pad


def infer(s, env):
    e = _infer(s, env)
    on = s.get('on')
    e.over_cat = s['op'] == 'cat' or (on is not None and s['op'] != 'eval'
                                      and env[on].over_cat)
    e.cat = s['op'] == 'cat' or (s['op'] == 'take' and env[on].cat)
    below = s.get('parts', [] if on is None else [on])
    e.over_deq = s['op'] == 'deq' or any(env[i].over_deq for i in below)
    if s['op'] == 'opt':
        e.cat = e.over_cat      # rewriting may bring it to the top
    return e


def _infer(s, env):
    op = s['op']
    if op in ('ident', 'file', 'nans'):
        return Sh(s['w'], s['h'], s['c'], names_of(s.get('chan')))
    if op == 'cat':
        ps = [env[i] for i in s['parts']]
        names = None
        if all(p.names is not None for p in ps):
            names = [n for p in ps for n in p.names]
        return Sh(ps[0].w, ps[0].h, sum(p.c for p in ps), names,
                  any(p.deq for p in ps), any(p.fuzzy for p in ps))
    p = env[s['on']]
    w, h, c, names, fuzzy = p.w, p.h, p.c, p.names, p.fuzzy
    deq = p.deq
    if op == 'crop' or op == 'pad':
        if op == 'crop':
            if s['y'] is not None:
                y0, y1 = span(s['y'], h)
                x0, x1 = span(s['x'], w)
                w, h = x1 - x0, y1 - y0
        else:
            y0, y1 = pad_span(s['y'], s['pad'])
            x0, x1 = pad_span(s['x'], s['pad'])
            w, h = x1 - x0, y1 - y0
        idx = chan_list(s.get('c'), c)
        if idx is not None:
            c = len(idx)
            names = None if names is None else [names[i] for i in idx]
    elif op == 'take':
        if s['names'] is not None:
            names = list(s['names'])
            c = len(names)
        else:
            idx = chan_list(s['idx'], c)
            c = len(idx)
            names = None if names is None else [names[i] for i in idx]
    elif op == 'warp':
        if s['dsize'] == 'auto':
            v = auto_corner(matrix(s['tf']), w, h)
            fuzzy = fuzzy or bool((abs(v - np.round(v)) < 1e-6).any())
            w, h = [int(math.ceil(x)) for x in v]
        else:
            w, h = s['dsize']
    elif op == 'resize':
        w, h = s['dsize']
    elif op == 'over':
        k = 2 ** s['n']
        w, h = -(-w // k), -(-h // k)
    elif op == 'deq':
        deq = deq or s['q'] is not None or True
    elif op == 'eval':
        deq = False
    elif op in ('xa', 'opt'):
        pass
    else:
        raise KeyError(op)
    return Sh(w, h, c, names, deq, fuzzy)


def infer_all(stmts):
    env = []
    for s in stmts:
        env.append(infer(s, env))
    return env


def mixed(stmts, env):
    """Some concatenation joins named with unnamed parts."""
    return any(s['op'] == 'cat' and
               len(set(env[i].names is None for i in s['parts'])) > 1
               for s in stmts)


# ---------------------------------------------------------------- construction

def make_leaf(s):
    from delayed_image import DelayedIdentity, DelayedLoad, DelayedNans
    op = s['op']
    if op == 'ident':
        arr = leaf_array(s)
        if s.get('flat') and s['c'] == 1:
            arr = arr[:, :, 0]
        return DelayedIdentity(arr, channels=s.get('chan'))
    if op == 'nans':
        chan = s.get('chan')
        if s.get('method'):
            from delayed_image.delayed_leafs import DelayedNodata
            return DelayedNodata((s['w'], s['h']),
                                 channels=s['c'] if chan is None else chan,
                                 nodata_method=s['method'])
        return DelayedNans((s['w'], s['h']),
                           channels=s['c'] if chan is None else chan)
    if op == 'file':
        kw = {}
        if s.get('known'):
            kw = {'dsize': (s['w'], s['h'])}
            if s.get('chan') is None:
                kw['channels'] = s['c']
            if s['known'] == 'all':
                kw['num_overviews'] = s.get('ov') or 0
        if s.get('chan') is not None:
            kw['channels'] = s['chan']
        leaf = DelayedLoad(file_path(s), nodata_method=s.get('method'), **kw)
        if not s.get('known'):
            leaf = leaf.prepare()
        return leaf
    raise KeyError(op)


def apply(s, objs):
    op = s['op']
    if op in ('ident', 'file', 'nans'):
        return make_leaf(s)
    if op == 'cat':
        from delayed_image import DelayedChannelConcat
        return DelayedChannelConcat([objs[i] for i in s['parts']])
    x = objs[s['on']]
    if op == 'crop':
        if s['y'] is None:
            return x.crop(None, chan_arg(s['c']))
        sl = (slice(*s['y']), slice(*s['x']))
        how = s.get('how', 'crop')
        if how == 'item':
            if s.get('c') is None:
                return x[sl]
            return x[sl + (chan_arg(s['c']),)]
        return x.crop(sl, chan_arg(s.get('c')))
    if op == 'pad':
        return x.crop((slice(*s['y']), slice(*s['x'])), chan_arg(s.get('c')),
                      clip=False, wrap=False, pad=s['pad'])
    if op == 'take':
        if s['names'] is not None:
            return x.take_channels('|'.join(s['names']))
        return x.take_channels(chan_arg(s['idx']))
    if op == 'warp':
        d = s['dsize']
        return x.warp(tf_arg(s['tf']), dsize=d if d == 'auto' else tuple(d),
                      **s.get('kw', {}))
    if op == 'resize':
        return x.resize(tuple(s['dsize']), **s.get('kw', {}))
    if op == 'over':
        return x.get_overview(s['n'])
    if op == 'deq':
        return x.dequantize(s['q'])
    if op == 'eval':
        return x.evaluate()
    if op == 'opt':
        # (which overviews are stored has to be known)
        return x.prepare().optimize()
    if op == 'xa':
        return x.as_xarray()
    raise KeyError(op)


def build(stmts):
    objs = []
    for s in stmts:
        objs.append(apply(s, objs))
    return objs


# ---------------------------------------------------------------- exact values

def model_dequantize(val, q):
    if q is None:
        return val
    omin, omax = q.get('orig_min', 0), q.get('orig_max', 1)
    qmin, qmax = q.get('quant_min', 0), q['quant_max']
    scale = (omax - omin) / (qmax - qmin) if qmax != qmin else 0
    out = (val.astype(np.float64) - qmin) * scale + omin
    nd = q.get('nodata')
    if nd is not None:
        out[val == nd] = np.nan
    return out


def exact_value(s, vals):
    """NumPy reference of the operations that do not resample."""
    op = s['op']
    if op in ('ident', 'file'):
        return leaf_array(s).astype(np.float64)
    if op == 'nans':
        return np.full((s['h'], s['w'], s['c']), np.nan)
    if op == 'cat':
        return np.concatenate([vals[i] for i in s['parts']], axis=2)
    v = vals[s['on']]
    if op == 'crop':
        if s['y'] is not None:
            v = v[slice(*s['y']), slice(*s['x'])]
        idx = chan_list(s.get('c'), v.shape[2])
        return v if idx is None else v[:, :, idx]
    if op == 'take':
        raise KeyError('take needs names')
    if op == 'deq':
        return model_dequantize(v, s['q'])
    if op in ('eval', 'xa', 'opt'):
        return v
    raise KeyError(op)


def exact_values_take(s, vals, env):
    v = vals[s['on']]
    p = env[s['on']]
    if s['names'] is None:
        return v[:, :, chan_list(s['idx'], p.c)]
    cols = [v[:, :, p.names.index(n)] if n in p.names
            else np.full(v.shape[:2], np.nan) for n in s['names']]
    return np.stack(cols, axis=2)


def exact_values(stmts, env=None):
    env = env or infer_all(stmts)
    vals = []
    for s in stmts:
        vals.append(exact_values_take(s, vals, env) if s['op'] == 'take'
                    else exact_value(s, vals))
    return vals


def same(got, want, tol=0.0):
    got = np.asarray(got, dtype=np.float64)
    want = np.asarray(want, dtype=np.float64)
    if got.shape != want.shape:
        return 'shape {} instead of {}'.format(got.shape, want.shape)
    gn, wn = np.isnan(got), np.isnan(want)
    if (gn != wn).any():
        at = tuple(int(i) for i in np.argwhere(gn != wn)[0])
        return 'at {}: {} instead of {}'.format(at, got[at], want[at])
    d = np.abs(np.where(gn, 0, got) - np.where(wn, 0, want))
    lim = tol * np.maximum(1.0, np.abs(np.where(wn, 0, want)))
    bad = d > lim
    if bad.any():
        at = tuple(int(i) for i in np.argwhere(bad)[0])
        return 'at {}: {} instead of {} ({} of {} differ)'.format(
            at, got[at], want[at], int(bad.sum()), bad.size)
    return None


def chan_names(obj):
    """Announced channel names, expanded."""
    ch = obj.channels
    if ch is None:
        return None
    return list(ch.normalize().parsed)


def announced(obj):
    """(h, w, c) as plain ints."""
    return tuple(None if d is None else int(d) for d in obj.shape)


# ---------------------------------------------------------------- generation

class Gen:
    """Draws programs.  ``ops`` is a list of op names (repeat = weight)."""

    def __init__(self, draw, ops, leafs=('ident',), dtypes=tuple(DTYPES),
                 max_side=12, min_side=1, max_chan=4, fill='rand',
                 unnamed=True, nonempty=True, warp=None, max_pix=40,
                 nan=False, over_max=2, chan_ops=True, same_canvas=None,
                 file_kw=None, big_crops=False, nans_kw=None):
        self.d = draw
        self.ops = list(ops)
        self.leafs = list(leafs)
        self.dtypes = list(dtypes)
        self.max_side, self.min_side = max_side, min_side
        self.max_chan = max_chan
        self.fill = fill
        self.unnamed = unnamed
        self.nonempty = nonempty
        self.warp = warp
        self.max_pix = max_pix
        self.nan = nan
        self.over_max = over_max
        self.chan_ops = chan_ops
        self.file_kw = file_kw
        self.nans_kw = nans_kw
        self.big_crops = big_crops
        self.stmts = []
        self.env = []
        self.used = set()

    def add(self, s):
        e = infer(s, self.env)
        self.stmts.append(s)
        self.env.append(e)
        return len(self.stmts) - 1

    def pick(self, seq):
        return self.d(st.sampled_from(list(seq)))

    def int(self, a, b):
        return self.d(st.integers(a, b))

    def flip(self, k=2):
        return self.d(st.integers(0, k - 1)) == 0

    # -- leafs
    def chan_text(self, c, force=False):
        """Fresh names for c channels, sometimes as alias or slice codes."""
        if self.unnamed and not force and self.flip(6):
            return None
        free = [n for n in POOL if n not in self.used]
        if c == 3 and self.flip(4) and not ({'r', 'g', 'b'} & self.used):
            self.used.update('rgb')
            return 'rgb'
        root = 'k{}'.format(len(self.stmts))
        if c >= 2 and self.flip(4):
            self.used.update('{}.{}'.format(root, i) for i in range(c))
            return '{}:{}'.format(root, c)
        if len(free) < c:
            got = ['{}_{}'.format(root, i) for i in range(c)]
        else:
            k = self.int(0, len(free) - c)
            got = free[k:k + c]
        self.used.update(got)
        return '|'.join(got)

    def leaf(self, w=None, h=None, c=None, kind=None):
        forced = w is not None
        alike = [s for s in self.stmts if s['op'] in ('ident', 'file')
                 and (w is None or s['w'] == w) and (h is None or s['h'] == h)
                 and (c is None or s['c'] == c)
                 and (kind == s['op'] or kind is None and s['op'] in self.leafs)]
        if alike and self.flip(4):
            # everything but the values is that of another leaf
            s = dict(self.pick(alike))
            s['seed'] = (s['seed'] + 1) % 4
            if s.get('chan') is not None:
                s['chan'] = self.chan_text(s['c'], force=True)
            return self.add(s)
        w = w or self.int(self.min_side, self.max_side)
        h = h or self.int(self.min_side, self.max_side)
        c = c or self.int(1, self.max_chan)
        kind = kind or self.pick(self.leafs)
        s = {'op': kind, 'w': w, 'h': h, 'c': c, 'chan': self.chan_text(c)}
        if kind == 'nans' and self.nans_kw:
            s.update(self.nans_kw(self))
        if kind != 'nans':
            s['dt'] = self.pick(self.dtypes)
            s['seed'] = self.int(0, 3)
            s['fill'] = self.fill
            if self.nan and s['dt'].startswith('f') and self.flip(4):
                s['nan'] = True
        if kind == 'ident' and c == 1 and self.flip(4):
            s['flat'] = True
        if kind == 'file':
            s['ov'] = self.pick([0, 0, 1, 2, 3])
            while s['ov'] and min(w, h) < 2 ** s['ov']:
                s['ov'] -= 1
            s['known'] = self.pick([False, False, True, 'all'])
            s['ovm'] = 'NEAREST'
            if self.flip(3):
                s['block'] = 16
            if self.file_kw:
                s.update(self.file_kw(self, s, forced))
        return self.add(s)

    # -- pieces
    def bounds(self, n):
        """A slice [a, b]; usually non-empty after NumPy's rules."""
        kind = self.int(0, 9)
        if n == 0:
            return [None, None]
        if kind == 0:
            return [None, None]
        if kind <= 7 or self.nonempty:
            if self.big_crops and n > 3:
                a = self.int(0, n // 3)
                b = self.int(2 * n // 3, n)
            else:
                a = self.int(0, n - 1)
                b = self.int(a + 1, n)
            form = self.int(0, 5)
            if form == 0:
                return [a - n if a else None, b]
            if form == 1:
                return [a, b - n if b < n else None]
            if form == 2 and b == n:
                return [a, n + self.int(0, 3)]
            if form == 3 and a == 0:
                return [-n - self.int(0, 3), b]
            return [a, b]
        return [self.int(-n - 2, n + 2), self.int(-n - 2, n + 2)]

    def chan_index(self, c, named=True):
        kind = self.int(0, 5)
        if kind in (2, 3, 4) and not named:
            # (names are unique, numbers need not be)
            return [self.int(0, c - 1) for _ in range(self.int(1, c))]
        if kind == 0:
            return self.int(-c, c - 1)
        if kind == 1:
            a = self.int(0, c - 1)
            return ['s', a, self.int(a + 1, c)]
        perm = self.d(st.permutations(range(c)))
        n = self.int(1, c)
        return [i - c if (i + n) % 5 == 4 else i for i in list(perm)[:n]]

    def transform(self, w, h):
        raise NotImplementedError

    # -- ops
    def step(self, on):
        """Apply one op to statement ``on``; returns the new index."""
        p = self.env[on]
        op = self.pick(self.ops)
        if (p.w < 1 or p.h < 1) and op in ('warp', 'resize', 'pad', 'over'):
            return on       # resampling nothing is not meaningful
        if op == 'crop':
            s = {'op': 'crop', 'on': on, 'y': self.bounds(p.h),
                 'x': self.bounds(p.w), 'c': None,
                 'how': self.pick(['crop', 'item'])}
            if self.chan_ops and self.flip(4):
                s['c'] = self.chan_index(p.c, p.names is not None)
        elif op == 'chan':
            s = {'op': 'crop', 'on': on, 'y': None, 'x': None,
                 'c': self.chan_index(p.c, p.names is not None)}
        elif op == 'take':
            s = {'op': 'take', 'on': on, 'names': None, 'idx': None}
            if p.names is not None and self.flip():
                perm = list(self.d(st.permutations(p.names)))
                s['names'] = perm[:self.int(1, p.c)]
            elif self.flip(5):
                a = self.int(0, p.c - 1)
                s['idx'] = ['s', a, self.int(a + 1, p.c)]
            else:
                perm = list(self.d(st.permutations(range(p.c))))
                s['idx'] = perm[:self.int(1, p.c)]
        elif op == 'deq':
            if p.deq:
                return on
            s = {'op': 'deq', 'on': on, 'q': self.quant()}
            if p.over_deq and s['q']:
                s['q']['nodata'] = None     # (rounded values may be or not)
        elif op == 'over':
            n = self.int(0, self.over_max)
            s = {'op': 'over', 'on': on, 'n': n}
        elif op == 'warp':
            s = self.warp(self, on)
            if s is None:
                return on
        elif op == 'resize':
            s = {'op': 'resize', 'on': on,
                 'dsize': [self.int(1, self.max_pix), self.int(1, self.max_pix)],
                 'kw': self.warp_kw() if hasattr(self, 'warp_kw') else {}}
        elif op == 'pad':
            s = {'op': 'pad', 'on': on, 'pad': self.int(0, 2), 'c': None,
                 'y': sorted([self.int(-3, p.h + 3), self.int(-3, p.h + 3)]),
                 'x': sorted([self.int(-3, p.w + 3), self.int(-3, p.w + 3)])}
        elif op in ('eval', 'xa', 'opt'):
            if p.cat and op == 'eval':
                return on
            s = {'op': op, 'on': on}
        elif op == 'cat':
            return self.concat(on)
        elif op == 'motif':
            return self.motif(on)
        elif op == 'beyond':
            return self.beyond(on)
        else:
            raise KeyError(op)
        e = infer(s, self.env)
        if e.w > self.max_pix or e.h > self.max_pix:
            return on
        if self.nonempty and (e.w < 1 or e.h < 1):
            return on
        if e.w < 0 or e.h < 0:
            return on
        return self.add(s)

    def motif(self, on):
        """An overview that a later enlargement can undo, and things between."""
        p = self.env[on]
        if min(p.w, p.h) < 4:
            return on
        n = self.int(1, 2)
        cur = self.add({'op': 'over', 'on': on, 'n': n})
        saved = self.ops
        self.ops = [o for o in ('crop', 'deq', 'take') if o in saved] or saved
        for _ in range(self.int(0, 3)):
            cur = self.step(cur)
        self.ops = saved
        p = self.env[cur]
        if p.w < 1 or p.h < 1:
            return cur
        s = self.pick([2 ** n, 2 ** n, 4, 2.5, 3])
        tf = {'scale': self.pick([s, s, [s, 2 ** n], [2 ** n, s], [s, 1]])}
        if self.flip(3):
            tf['offset'] = [self.int(-3, 3), self.int(-3, 3)]
        v = auto_corner(matrix(tf), p.w, p.h)
        if v.max() > self.max_pix or v.min() < 1:
            return cur
        st_ = {'op': 'warp', 'on': cur, 'tf': tf, 'dsize': 'auto', 'kw': {}}
        if self.flip(4):
            st_['dsize'] = [self.int(1, self.max_pix), self.int(1, self.max_pix)]
        return self.add(st_)

    def beyond(self, on):
        """A part of a canvas that shows little or nothing of the image."""
        p = self.env[on]
        n = self.int(1, 2)
        tf = {'scale': self.pick([0.5, 0.5, 1, 2, [0.5, 2], [1, 0.5]])}
        if self.flip(3):
            tf['offset'] = [self.int(-3, 3), self.int(-3, 3)]
        if p.w < 3 or p.h < 3:
            return on
        if self.flip() and p.w < self.max_pix // 2:
            on = self.add({'op': 'crop', 'on': on, 'how': 'crop',
                           'x': [None, self.int(2, max(2, p.w // 2))],
                           'y': [None, self.int(2, p.h)]})
            p = self.env[on]
        v = auto_corner(matrix(tf), p.w, p.h)
        if v.max() > self.max_pix - 20 or v.min() < 1:
            return on
        far = self.pick([9, 30, 50])
        w, h = int(v[0]) + self.int(2, far + 9), int(v[1]) + self.int(2, 20)
        cur = self.add({'op': 'warp', 'on': on, 'tf': tf, 'dsize': [w, h],
                        'kw': {'antialias': False, 'interpolation': 'linear'}})
        sides = [[max(0, int(v[0]) - self.int(-far, 2)), w],
                 [max(0, int(v[1]) - self.int(-9, 2)), h]]
        for a in sides:
            a[0] = min(a[0], a[1] - 1)
        if self.flip(3):
            sides[self.int(0, 1)] = [None, None]
        cur = self.add({'op': 'crop', 'on': cur, 'how': 'crop',
                        'x': sides[0], 'y': sides[1]})
        return self.add({'op': 'over', 'on': cur, 'n': n})

    def quant(self):
        if self.flip(10):
            return None
        q = {'orig_dtype': self.pick(['float32', 'float64']),
             'orig_min': self.pick([0, -1, 10]),
             'orig_max': self.pick([1, 2, 255]),
             'quant_min': self.pick([0, 1, -10]),
             'quant_max': self.pick([255, 100, 10000]),
             'nodata': self.pick([None, 0, 7, -9999])}
        return q

    def concat(self, on):
        """Put another part of the same size next to statement ``on``."""
        p = self.env[on]
        names = set(p.names or [])
        others = []
        for i, e in enumerate(self.env):
            if i == on or e.fuzzy or p.fuzzy:
                continue
            if (e.w, e.h) != (p.w, p.h):
                continue
            if p.names is not None and e.names is not None and (
                    names & set(e.names)):
                continue
            others.append(i)
        if others and self.flip():
            other = self.pick(others)
        else:
            if p.fuzzy or p.w < 1 or p.h < 1:
                return on
            kind = None
            if self.flip(6):
                kind = 'nans'
            other = self.leaf(p.w, p.h, kind=kind)
        e = self.env[other]
        if e.c + p.c > 8:
            return on
        if (p.names is not None and e.names is not None
                and set(p.names) & set(e.names)):
            return on
        parts = [on, other]
        if self.flip():
            parts.reverse()
        while p.w > 0 and p.h > 0 and self.flip(4) and len(parts) < 4:
            more = self.leaf(p.w, p.h)
            have = [self.env[i] for i in parts]
            names = [n for q in have for n in q.names or []]
            e = self.env[more]
            if sum(q.c for q in have) + e.c > 8 or set(names) & set(e.names or []):
                break
            parts.insert(self.int(0, len(parts)), more)
        return self.add({'op': 'cat', 'parts': parts})

    def program(self, min_ops=1, max_ops=6, fork=4):
        cur = self.leaf()
        if self.flip(3) and 'cat' in self.ops:
            cur = self.concat(cur)
        n = self.int(min_ops, max_ops)
        for _ in range(n):
            if len(self.stmts) > 1 and self.flip(fork):
                base = self.int(0, len(self.stmts) - 1)
                self.step(base)     # an extra branch, joined by a concat maybe
            cur = self.step(cur)
        if cur != len(self.stmts) - 1:
            # make the intended result the last statement
            self.stmts = self.stmts[:cur + 1]
        return prune(self.stmts)


def prune(stmts):
    """Drop statements the last one does not need."""
    need = {len(stmts) - 1}
    for i in range(len(stmts) - 1, -1, -1):
        if i in need:
            s = stmts[i]
            need.update(s.get('parts', []))
            if 'on' in s:
                need.add(s['on'])
    order = sorted(need)
    new = {i: k for k, i in enumerate(order)}
    out = []
    for i in order:
        s = dict(stmts[i])
        if 'on' in s:
            s['on'] = new[s['on']]
        if 'parts' in s:
            s['parts'] = [new[j] for j in s['parts']]
        out.append(s)
    return out


# generic transforms ---------------------------------------------------------

SCALES = [0.25, 0.5, 1, 2, 4, 3, 1.5, 0.75, 0.3, 1.7, 2.5, 0.125, 1 / 3, 0.9]
THETAS = [0.3, -0.7, 1.5707963267948966, 3.141592653589793, 2.2, -0.05, 0.008]


def any_offset(g):
    """ Whole, fractional, one of each, or along one axis only. """
    k = g.int(0, 5)
    xy = [float(g.int(-40, 80)) / 8 if k in (1, 2 + j, 4) else g.int(-5, 8)
          for j in (0, 1)]
    if k == 5:
        xy[g.int(0, 1)] = 0
    return xy


def any_transform(g, w, h, rotate=True, flips=True):
    kind = g.int(0, 9)
    tf = {}
    if kind == 0:
        return {}
    if kind <= 6:
        if g.flip():
            tf['scale'] = g.pick(SCALES)
        else:
            tf['scale'] = [g.pick(SCALES), g.pick(SCALES)]
    if g.flip():
        tf['offset'] = any_offset(g)
    if rotate and kind in (5, 6, 7, 8):
        tf['theta'] = g.pick(THETAS)
        if g.flip(3):
            tf['about'] = [w / 2.0, h / 2.0]
        if g.flip(3):
            tf['shearx'] = g.pick([0.2, -0.4, 0.02])
    elif rotate and kind in (3, 4) and g.flip(4):
        tf['shearx'] = g.pick([0.2, -0.3, 0.02])
    if flips and kind == 9 and 'scale' not in tf:
        tf['scale'] = g.pick([[-1, 1], [1, -1], [-0.5, 2]])
        tf['offset'] = [w, h]
    return tf


def any_warp(interps=('linear', 'linear', 'linear', 'nearest', 'cubic'),
             rotate=True, flips=True, antialias=(None, None, False, True),
             extra=True):
    def make(g, on):
        p = g.env[on]
        tf = any_transform(g, p.w, p.h, rotate, flips)
        s = {'op': 'warp', 'on': on, 'tf': tf, 'dsize': 'auto', 'kw': {}}
        interp = g.pick(interps)
        if interp in ('cubic', 'lanczos') and p.c > 4:
            interp = 'linear'       # not supported by OpenCV
        if interp != 'linear':
            s['kw']['interpolation'] = interp
        aa = g.pick(antialias)
        if aa is not None:
            s['kw']['antialias'] = aa
        if g.flip(3):
            s['dsize'] = [g.int(1, g.max_pix), g.int(1, g.max_pix)]
        else:
            v = auto_corner(matrix(tf), p.w, p.h)
            if v.min() <= 1e-6:
                s['dsize'] = [max(1, p.w), max(1, p.h)]
        return s
    return make
