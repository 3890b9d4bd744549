"""The reader cache holds the most recently used entries, and changes no read."""
import hypothesis.strategies as st
import numpy as np

from vh import graph as G
from vh.core import CheckModule, Facet, ensure, equal

OPS = ['set', 'set', 'set', 'set', 'get', 'get', 'get', 'in', 'del', 'pop',
       'update', 'setdefault', 'safe', 'len', 'clear', 'miss']


@st.composite
def histories(draw):
    n = draw(st.integers(1, 5))
    keys = draw(st.integers(1, 8))
    key = st.integers(0, keys - 1)
    ops = []
    for _ in range(draw(st.integers(1, 30))):
        op = draw(st.sampled_from(OPS))
        if op == 'clear' and draw(st.integers(0, 3)):
            op = 'set'
        if op == 'update':
            ks = draw(st.lists(key, max_size=4))
            ops.append([op, [[k, draw(st.integers(0, 99))] for k in ks]])
        else:
            ops.append([op, draw(key), draw(st.integers(0, 99))])
    return {'len': n, 'ops': ops, 'default': draw(st.integers(0, 9)) == 0,
            'init': draw(st.lists(st.tuples(key, st.integers(0, 99)).map(list),
                                  max_size=4))}


class Model:
    def __init__(self, n):
        self.n = n
        self.items = []         # oldest first

    def find(self, k):
        return next((v for a, v in self.items if a == k), None)

    def has(self, k):
        return any(a == k for a, _ in self.items)

    def put(self, k, v):
        self.drop(k)
        self.items.append((k, v))
        self.items = self.items[-self.n:]

    def drop(self, k):
        self.items = [(a, b) for a, b in self.items if a != k]


def raises(func):
    try:
        func()
    except KeyError:
        return True
    return False


def run(case, rec):
    from delayed_image.lazy_loaders import CacheDict
    n = 10 if case['default'] else case['len']
    init = [tuple(kv) for kv in case['init']]
    c = CacheDict(init) if case['default'] else CacheDict(init, cache_len=n)
    m = Model(n)
    for k, v in init:
        m.put(k, v)
    evicted = 0
    for op, *args in case['ops']:
        size = len(m.items)
        if op == 'update':
            # (a mapping has each key once, at its first place)
            for k, v in dict(map(tuple, args[0])).items():
                evicted += len(m.items) == n and not m.has(k)
                m.put(k, v)
            c.update(dict(map(tuple, args[0])))
        else:
            k, v = args
            if op == 'set':
                evicted += size == n and not m.has(k)
                c[k] = v
                m.put(k, v)
            elif op in ('get', 'safe'):
                if m.has(k):
                    if op == 'safe':    # (whether this counts as use is open)
                        equal(c.get(k), m.find(k), 'get({})'.format(k))
                    equal(c[k], m.find(k), 'item {}'.format(k))
                    m.put(k, m.find(k))
                elif op == 'get':
                    ensure(raises(lambda: c[k]), 'item {} is there', k)
                else:
                    equal(c.get(k, 'no'), 'no', 'get of a missing item')
            elif op == 'miss':
                ensure(raises(lambda: c['missing']), 'a missing item')
            elif op == 'in':
                equal(k in c, m.has(k), '{} in the cache'.format(k))
            elif op == 'del':
                if m.has(k):
                    del c[k]
                    m.drop(k)
                else:
                    ensure(raises(lambda: c.__delitem__(k)), 'del {}', k)
            elif op == 'pop':
                equal(c.pop(k, 'no'), m.find(k) if m.has(k) else 'no',
                      'pop {}'.format(k))
                m.drop(k)
            elif op == 'setdefault':
                want = m.find(k) if m.has(k) else v
                equal(c.setdefault(k, v), want, 'setdefault')
                evicted += size == n and not m.has(k)
                c[k] = want
                m.put(k, want)
            elif op == 'clear':
                c.clear()
                m.items = []
        ensure(len(c) <= n, '{} entries of at most {}', len(c), n)
        equal(len(c), len(m.items), 'entries')
        equal(list(c.items()), m.items, 'entries, oldest use first, after '
              + op)
    if evicted:
        rec.label('evicted')
    rec.nontrivial(evicted >= 1)


@st.composite
def reads(draw):
    files = []
    for i in range(draw(st.integers(1, 4))):
        files.append({'op': 'file', 'w': draw(st.integers(2, 12)),
                      'h': draw(st.integers(2, 12)),
                      'c': draw(st.integers(1, 3)),
                      'dt': draw(st.sampled_from(['uint8', 'int16', 'float32'])),
                      'seed': draw(st.integers(0, 3)), 'fill': 'rand',
                      'ov': draw(st.integers(0, 1))})
    steps = []
    for _ in range(draw(st.integers(1, 14))):
        f = draw(st.integers(0, len(files) - 1))
        a, b = [sorted(draw(st.lists(st.integers(0, files[f][k]), min_size=2,
                                     max_size=2))) for k in 'hw']
        steps.append({'f': f, 'new': draw(st.booleans()), 'y': a, 'x': b,
                      'ov': draw(st.booleans()) and bool(files[f]['ov'])})
    return {'files': files, 'steps': steps,
            'len': draw(st.sampled_from([None, 1, 1, 2, 3, 10]))}


def run_reads(case, rec):
    from delayed_image import lazy_loaders as Z
    files = case['files']
    full = [G.leaf_array(f) for f in files]
    over = []
    for f in files:
        o = None
        if f['ov']:
            ds = G._gdal().Open(G.file_path(f))
            o = np.stack([ds.GetRasterBand(k + 1).GetOverview(0).ReadAsArray()
                          for k in range(f['c'])], axis=2)
            ds = None
        over.append(o)
    before = Z.GLOBAL_GDAL_CACHE
    Z.GLOBAL_GDAL_CACHE = (None if case['len'] is None else
                           Z.CacheDict(cache_len=case['len']))
    try:
        readers = {}
        used = []
        for s in case['steps']:
            k = s['f']
            if s['new'] or k not in readers:
                readers[k] = Z.LazyGDalFrameFile(G.file_path(files[k]))
                used.append(k)
            r, want = readers[k], full[k]
            if s['ov']:
                r, want = r.get_overview(1), over[k]
            equal(tuple(r.shape), want.shape, 'shape')
            sl = (slice(*s['y']), slice(*s['x']))
            got = np.asarray(r[sl])
            ensure(got.dtype == want.dtype and got.shape == want[sl].shape
                   and (got == want[sl]).all(), 'file {} {}: {} instead of {}',
                   k, sl, got.tolist(), want[sl].tolist())
            cache = Z.GLOBAL_GDAL_CACHE
            if cache is not None:
                ensure(len(cache) <= case['len'], '{} open files of {}',
                       len(cache), case['len'])
    finally:
        Z.GLOBAL_GDAL_CACHE = before
    rec.label('no cache' if case['len'] is None else 'cache')
    rec.nontrivial(case['len'] is not None and len(set(used)) > case['len']
                   or len(used) > len(set(used)))


CHECK = CheckModule('C21', [
    Facet('dict', lambda: histories(), run, 6000,
          rule='histories of operations on the cache against a list; '
          'non-trivial = something was evicted'),
    Facet('reads', lambda: reads(), run_reads, 1500,
          rule='interleaved reads of several files with the cache of any size '
          'or none; non-trivial = more files than entries or a file reopened'),
])
