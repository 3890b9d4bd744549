"""Images are delivered the same where the GDAL bindings are missing."""
import contextlib
from unittest import mock

import numpy as np

from vh import anygraph as A
from vh import graph as G
from vh.core import CheckModule, Facet, ensure, equal


@contextlib.contextmanager
def no_gdal():
    """As where the bindings are not installed."""
    from delayed_image import lazy_loaders as Z
    with mock.patch.object(Z, '_have_gdal', lambda: False, create=True), \
            mock.patch.object(Z.LazyGDalFrameFile, 'available',
                              classmethod(lambda cls: False), create=True):
        yield


def file_kw(g, s, forced):
    # (only ordinary images can be read without it)
    kw = {'ov': 0, 'block': None}
    if s['c'] == 2:
        kw.update(c=1, chan=None)
    if g.flip():
        kw['ovk'] = 'png'
    return kw


def run(case, rec):
    stmts = case['stmts']
    ops = A.label(rec, stmts)
    for s in stmts:
        if s['op'] == 'file':
            rec.label(s.get('ovk') or 'tif')
            G.file_path(s)
    x = G.build(stmts)[-1]
    with no_gdal():
        y = G.build(stmts)[-1]
        equal(G.announced(y), G.announced(x), 'announced shape')
        equal(G.chan_names(y), G.chan_names(x), 'announced channels')
    for how in case['order']:
        a = x.finalize(optimize=how == 'opt')
        with no_gdal():
            b = y.finalize(optimize=how == 'opt')
        equal(b.dtype, a.dtype, how + ': data type')
        msg = G.same(b, a)
        ensure(msg is None, '{}: {}', how, msg)
        equal(G.announced(y), G.announced(x), 'announced shape afterwards')
    rec.nontrivial(len(ops) >= 3)


def order(g):
    return {'order': g.pick([['raw', 'opt'], ['opt', 'raw']])}


CHECK = CheckModule('C32', [
    Facet('files', A.cases(['file', 'file', 'nans'], extra=order,
                           file_kw=file_kw, dtypes=['uint8'], max_chan=3), run, 3000,
          rule='random graph of every operation over raster files without '
          'overviews, built and delivered with and without GDAL; non-trivial '
          '= 3+ nodes'),
])
