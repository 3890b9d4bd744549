"""A read that fails is reported and never becomes pixels."""
import os
import shutil
from contextlib import contextmanager

import numpy as np

from vh import anygraph
from vh import graph as G
from vh.core import CheckModule, Facet, ensure, equal

WARP = G.any_warp(interps=['linear', 'linear', 'nearest'])
FAULTS = ['raise', 'raise', 'none', 'scribble', 'os', 'memory']


def leaf_at(s, path):
    from delayed_image import DelayedLoad
    kw = {}
    if s.get('known'):
        kw = {'dsize': (s['w'], s['h'])}
        if s.get('chan') is None:
            kw['channels'] = s['c']
        if s['known'] == 'all':
            kw['num_overviews'] = s.get('ov') or 0
    if s.get('chan') is not None:
        kw['channels'] = s['chan']
    x = DelayedLoad(path, nodata_method=s.get('method'), **kw)
    return x if s.get('known') else x.prepare()


def build(stmts, paths):
    objs = []
    for i, s in enumerate(stmts):
        objs.append(leaf_at(s, paths[i]) if s['op'] == 'file'
                    else G.apply(s, objs))
    return objs[-1]


def files(stmts):
    return {i: G.file_path(s) for i, s in enumerate(stmts) if s['op'] == 'file'}


def values(x, how):
    r = x.finalize(optimize=how == 'opt')
    r = getattr(r, 'values', r)
    if isinstance(r, np.ma.MaskedArray):
        return np.asarray(r.data), np.ma.getmaskarray(r)
    return np.asarray(r), None


def same(got, want, what):
    for a, b in zip(got, want):
        equal(a is None, b is None, what + ': masked')
        if a is None:
            continue
        equal(a.shape, b.shape, what + ': shape')
        ok = (a == b) | ((a != a) & (b != b))
        ensure(bool(np.all(ok)), lambda: '{}: {} instead of {} at {}'.format(
            what, a[~ok][:3], b[~ok][:3], np.argwhere(~ok)[0].tolist()))


class Faults:
    """ Fails chosen calls into the raster library. """

    def __init__(self, at=None, mode='raise', lasting=False):
        self.at, self.mode, self.lasting = at, mode, lasting
        self.n = 0
        self.hit = 0
        self.depth = 0

    def call(self, fn, args, kw):
        if self.depth:
            return fn(*args, **kw)
        n, self.n = self.n, self.n + 1
        if self.at is not None and (n == self.at or
                                    self.lasting and n > self.at):
            self.hit += 1
            buf = kw.get('buf_obj')
            if self.mode == 'scribble' and buf is not None:
                buf[...] = 77
            if self.mode == 'none':
                return None
            raise {'os': OSError, 'memory': MemoryError}.get(
                self.mode, RuntimeError)('injected fault')
        self.depth += 1
        try:
            return fn(*args, **kw)
        finally:
            self.depth -= 1

    @contextmanager
    def active(self):
        gdal = G._gdal()
        old = gdal.Open, gdal.Band.ReadAsArray, gdal.Dataset.ReadAsArray

        def wrap(fn):
            def call(*args, **kw):
                return self.call(fn, args, kw)
            return call
        gdal.Open, gdal.Band.ReadAsArray, gdal.Dataset.ReadAsArray = map(
            wrap, old)
        try:
            yield self
        finally:
            gdal.Open, gdal.Band.ReadAsArray, gdal.Dataset.ReadAsArray = old


def fault_extra(g):
    return {'how': g.pick(['raw', 'opt']), 'at': g.int(0, 100),
            'mode': g.pick(FAULTS), 'lasting': g.flip(3),
            'late': g.flip()}


def fault_run(case, rec):
    stmts = case['stmts']
    anygraph.label(rec, stmts)
    paths = files(stmts)
    ref = build(stmts, paths)
    want = {how: values(ref, how) for how in ['raw', 'opt']}
    how, late = case['how'], case['late']

    def attempt(faults):
        x = None
        with faults.active():
            if late:
                faults.depth += 1       # (building is left alone)
            x = build(stmts, paths)
            if late:
                faults.depth -= 1
            attempt.x = x
            return values(x, how)
    attempt.x = None
    count = Faults()
    same(attempt(count), want[how], 'again')
    if not count.n:
        rec.label('nothing read')
        return
    f = Faults(case['at'] * (count.n - 1) // 100, case['mode'],
               case['lasting'])
    attempt.x = None
    try:
        got = attempt(f)
    except Exception:
        rec.label('reported')
    else:
        same(got, want[how], 'with a failed read ({})'.format(case['mode']))
        rec.label('recovered' if f.hit else 'not hit')
    rec.label('fault-' + case['mode'])
    rec.nontrivial(f.hit > 0)
    if attempt.x is not None:
        for h in [how, 'raw', 'opt']:
            same(values(attempt.x, h), want[h], 'once more, ' + h)
    x = build(stmts, paths)
    for h in ['raw', 'opt']:
        same(values(x, h), want[h], 'from new, ' + h)


def damage_extra(g):
    return {'how': g.pick(['raw', 'opt']), 'at': g.int(0, 100),
            'which': g.int(0, 5), 'late': g.flip(), 'silent': g.flip(4),
            'mode': g.pick(['cut', 'cut', 'cut', 'empty', 'delete', 'garbage',
                            'folder', 'foreign'])}


def damage_run(case, rec):
    gdal = G._gdal()
    stmts = case['stmts']
    anygraph.label(rec, stmts)
    sound = files(stmts)
    if not sound:
        rec.label('no file')
        return
    ref = build(stmts, sound)
    how = case['how']
    want = values(ref, how)
    root = os.path.join(os.environ.get('VERIF_TMP') or '/tmp',
                        'dmg_{}'.format(os.getpid()))
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    paths = {}
    for i, p in sound.items():
        paths[i] = os.path.join(root, '{}_{}'.format(i, os.path.basename(p)))
        if not os.path.exists(paths[i]):
            shutil.copy(p, paths[i])
    victim = sorted(paths)[case['which'] % len(paths)]
    path = paths[victim]
    mode = case['mode']
    with open(path, 'rb') as f:
        data = f.read()

    def damage():
        os.unlink(path)
        if mode == 'cut':
            with open(path, 'wb') as f:
                f.write(data[:max(1, len(data) * case['at'] // 100)])
        elif mode == 'empty':
            open(path, 'wb').close()
        elif mode == 'garbage':
            with open(path, 'wb') as f:
                f.write(bytes((i * 37 + 11) % 251 for i in range(300)))
        elif mode == 'folder':
            os.mkdir(path)
        elif mode == 'foreign':
            with open(path, 'wb') as f:
                f.write(b'II*\0' + b'\xff' * 60)
    try:
        if case['silent']:
            gdal.DontUseExceptions()
        try:
            if case['late']:
                x = build(stmts, paths)
                damage()
            else:
                damage()
                x = build(stmts, paths)
            got = values(x, how)
        except Exception:
            rec.label('reported')
        else:
            same(got, want, 'damaged ({})'.format(mode))
            rec.label('unharmed')
    finally:
        if case['silent']:
            gdal.UseExceptions()
    rec.label('damage-' + mode, *(['silent'] if case['silent'] else []))
    rec.nontrivial()
    if os.path.isdir(path):
        os.rmdir(path)
    with open(path, 'wb') as f:
        f.write(data)
    same(values(build(stmts, paths), how), want, 'repaired')
    shutil.rmtree(root, ignore_errors=True)


CHECK = CheckModule('C30', [
    Facet('faults', anygraph.cases(['file', 'file', 'file', 'ident'],
                                   extra=fault_extra, warp=WARP, max_ops=6),
          fault_run, 3000, rule='any graph over raster files; one call into '
          'the raster library, or all from it on, fails; then everything '
          'once more without faults; non-trivial = a call did fail'),
    Facet('damage', anygraph.cases(['file', 'file', 'file', 'ident'],
                                   extra=damage_extra, warp=WARP, max_ops=5,
                                   file_kw=lambda g, s, f: {'ov': 0}),
          damage_run, 1500, rule='the same with a file cut short, emptied, '
          'deleted or replaced before or after the graph is built; '
          'non-trivial = all'),
])
