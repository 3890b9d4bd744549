"""Reading the metadata of files late, early or again changes nothing."""
import numpy as np

from vh import anygraph
from vh import graph as G
from vh.core import CheckModule, Facet, ensure, equal

METHODS = [None, None, 'float', 'ma']


def file_kw(g, s, forced):
    kw = {}
    n = g.pick([0, 0, 1, 2])
    while n and min(s['w'], s['h']) < 2 ** n:
        n -= 1
    kw['ov'] = n
    kw['ovm'] = g.pick(['NEAREST', 'AVERAGE'])
    if g.flip(3):
        kw['nd'] = 7
        kw['method'] = g.pick(METHODS)
    return kw


def extra(g):
    return {'gives': [g.pick(['names', 'names', 'names', 'names', 'all', 'size',
                               'chan', 'none', 'w', 'h', 'ov'])
                      for _ in range(4)],
            'how': g.pick(['fin', 'fin', 'raw', 'optfirst', 'prep', 'twice',
                           'noprep', 'noprep'])}


def late_leaf(s, give):
    from delayed_image import DelayedLoad
    kw = {}
    if give in ('all', 'size', 'names'):
        kw['dsize'] = (s['w'], s['h'])
    elif give == 'w':
        kw['dsize'] = (s['w'], None)
    elif give == 'h':
        kw['dsize'] = (None, s['h'])
    if s.get('chan') is not None:
        kw['channels'] = s['chan']
    if give in ('all', 'names') and s.get('chan') is None:
        kw['channels'] = s['c']
    if give in ('all', 'ov'):
        kw['num_overviews'] = s.get('ov') or 0
    return DelayedLoad(G.file_path(s), nodata_method=s.get('method'), **kw)


def build(stmts, gives):
    objs = []
    k = 0
    for s in stmts:
        if s['op'] == 'file' and gives is not None:
            objs.append(late_leaf(s, gives[k % len(gives)]))
            k += 1
        elif s['op'] == 'file':
            objs.append(G.make_leaf(dict(s, known=None)))
        else:
            objs.append(G.apply(s, objs))
    return objs


def same(a, b, what):
    equal(a.shape, b.shape, what + ': shape delivered')
    equal(str(a.dtype), str(b.dtype), what + ': type delivered')
    ma, mb = np.ma.getmaskarray(a), np.ma.getmaskarray(b)
    ensure((ma == mb).all(), '{}: mask', what)
    da, db = np.ma.getdata(a), np.ma.getdata(b)
    if da.dtype.kind == 'f':
        ok = np.isclose(da, db, rtol=1e-6, atol=1e-6, equal_nan=True)
    else:
        ok = da == db
    ensure((ok | ma).all(), '{}: pixels', what)


def run(case, rec):
    stmts = []
    k = 0
    for s in case['stmts']:
        if s['op'] == 'file':
            if case['gives'][k % len(case['gives'])] in ('size', 'none'):
                s = dict(s, chan=None)      # neither has names
            k += 1
        stmts.append(s)
    files = [s for s in stmts if s['op'] == 'file']
    anygraph.label(rec, stmts)
    known = all(g in ('all', 'names') for g in case['gives'][:len(files)])
    full = all(g in ('all',) for g in case['gives'][:len(files)])
    try:
        late = build(stmts, case['gives'])
    except Exception as ex:
        if known:
            raise
        # (some operations need what only the file knows)
        rec.label('refused ' + type(ex).__name__)
        return
    ref = build(stmts, None)
    x, y = late[-1], ref[-1]
    shape, names = G.announced(y), G.chan_names(y)
    try:
        early = G.announced(x)
    except AssertionError:
        early = (None,) * 3     # (not known yet)
    for a, b in zip(early, shape):
        ensure(a is None or a == b, 'announced {} before reading, {} after',
               early, shape)
    how = case['how']
    if how in ('optfirst', 'noprep') and not full:
        how = 'prep'        # (optimizing needs the metadata)
    if how == 'fin':
        got, want = x.finalize(), y.finalize()
    elif how == 'raw':
        got, want = x.finalize(optimize=False), y.finalize(optimize=False)
    elif how == 'optfirst':
        got, want = x.optimize().finalize(), y.finalize()
    elif how == 'prep':
        x = x.prepare()
        got, want = x.finalize(prepare=False), y.finalize()
    elif how == 'twice':
        x.finalize()
        x.prepare().prepare()
        y.prepare()
        got, want = x.finalize(), y.finalize()
    else:
        got, want = x.finalize(prepare=False), y.finalize()
    rec.label(how)
    got, want = getattr(got, 'values', got), getattr(want, 'values', want)
    same(got, want, how)
    equal(G.announced(x), shape, how + ': announced afterwards')
    equal(G.chan_names(x), names, how + ': channels afterwards')
    rec.nontrivial(not full and len(stmts) >= 2)


def meta(case, rec):
    """ What a leaf reads from its file """
    from delayed_image import DelayedLoad
    s = case['stmts'][0]
    leaf = late_leaf(s, case['gives'][0])
    before = (leaf.dsize, leaf.num_channels)
    got = leaf.prepare()
    ensure(got is leaf or isinstance(got, DelayedLoad), 'prepare')
    equal(tuple(got.dsize), (s['w'], s['h']), 'size read')
    equal(got.num_channels, s['c'], 'channels read')
    equal(got.num_overviews, s.get('ov') or 0, 'overviews read')
    equal(str(got.fpath), str(G.file_path(s)), 'path')
    equal(got.prepare().meta, got.meta, 'prepared again')
    rec.label('{} {}'.format(*(a is not None for a in before)))
    rec.nontrivial(s.get('ov') or s['c'] > 1)


def one(g):
    return extra(g)


CHECK = CheckModule('C24', [
    Facet('graphs', anygraph.cases(['file', 'file', 'file', 'ident'],
                                   extra=extra, file_kw=file_kw), run, 3000,
          rule='any graph over files whose size, channels or overviews are '
          'given, partly given or not given, against the graph over '
          'prepared files; non-trivial = something left to read and 2+ nodes'),
    Facet('leafs', anygraph.cases(['file'], ops=['crop'], max_ops=0, tail=False,
                                  extra=extra, file_kw=file_kw), meta, 600,
          rule='the metadata read; non-trivial = overviews or 2+ channels'),
])
