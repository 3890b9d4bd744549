"""Using a graph does not change it: any history of uses, shared or not."""
import copy
import sys
import threading

import numpy as np

from vh import anygraph as A
from vh import graph as G
from vh.core import CheckModule, Facet, ensure, equal

ACTS = ['raw', 'opt', 'opt', 'optraw', 'optopt', 'optimize', 'nesting', 'leafs',
        'graph', 'undo', 'tfleaf', 'tffrom', 'text', 'paths', 'shape', 'noprep', 'validate', 'derive']


def unshare(stmts, top):
    """The same expression as a tree: shared statements are repeated."""
    out = []

    def emit(i):
        s = dict(stmts[i])
        if 'on' in s:
            s['on'] = emit(s['on'])
        if 'parts' in s:
            s['parts'] = [emit(j) for j in s['parts']]
        out.append(s)
        return len(out) - 1
    emit(top)
    return out


def act(x, how, k):
    if how == 'raw':
        return x.finalize(optimize=False)
    if how == 'opt':
        return x.finalize()
    if how == 'noprep':
        return x.finalize(prepare=False)
    if how == 'optraw':
        return x.optimize().finalize(optimize=False)
    if how == 'optopt':
        return x.optimize().optimize().finalize(optimize=False)
    if how == 'optimize':
        y = x.optimize()
        return [G.announced(y), G.chan_names(y)]
    if how == 'shape':
        return [G.announced(x), G.chan_names(x), x.num_channels,
                tuple(int(d) for d in x.dsize)]
    if how == 'nesting':
        return depth(x.nesting())
    if how == 'leafs':
        return sorted(type(n).__name__ for n in x.leafs())
    if how == 'graph':
        g = x.as_graph()
        return [g.number_of_nodes() > 0]
    if how == 'validate':
        return x.optimize()._validate() is not None
    if how == 'undo':
        if hasattr(x, 'undo_warps'):
            return [p.finalize(optimize=k % 2 == 0) for p in x.undo_warps()]
        if hasattr(x, 'undo_warp'):
            return x.undo_warp().finalize(optimize=k % 2 == 0)
        return None
    if how == 'tfleaf':
        if hasattr(x, 'parts'):
            return None
        return np.asarray(x.get_transform_from_leaf().matrix)
    if how == 'tffrom':
        leafs = list(x.leafs())
        # (which of several ways to a leaf is meant is left open)
        x.get_transform_from(leafs[k % len(leafs)])
        return [True]
    if how == 'text':
        return [str(x)]
    if how == 'paths':
        return [len(list(x._leaf_paths()))]
    if how == 'derive':
        w, h = x.dsize
        y = x.warp({'scale': [0.5, 2, 0.7][k % 3]},
                   dsize=(max(1, w // 2), h)) if w and h else x
        y = y[0:max(1, h // 2), 0:max(1, w // 2)]
        return y.finalize()
    raise KeyError(how)


def depth(n):
    """Types and announced sizes only."""
    subs = n.get('children', [])
    return [n['type'], [depth(c) for c in subs]]


def alike(a, b):
    if hasattr(a, '__array__') or hasattr(b, '__array__'):
        if isinstance(a, np.ma.MaskedArray) != isinstance(b, np.ma.MaskedArray):
            return False
        if isinstance(a, np.ma.MaskedArray):
            if not np.array_equal(np.ma.getmaskarray(a), np.ma.getmaskarray(b)):
                return False
            # (what is under a mask is of no account)
            a, b = a.filled(0), b.filled(0)
        a, b = np.asarray(a), np.asarray(b)
        if a.dtype != b.dtype or a.shape != b.shape:
            return False
        return np.array_equal(a, b, equal_nan=a.dtype.kind == 'f')
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    return a == b


def brief(v):
    if hasattr(v, '__array__'):
        v = np.asarray(v)
        return '{}{} {}'.format(v.dtype, v.shape, v.ravel()[:6])
    return repr(v)[:300]


class Args:
    """ Hands out the objects an operation is told with, and looks at them
    again later """

    def __init__(self, flavor):
        self.flavor = flavor
        self.kept = []

    def keep(self, obj, look, what):
        self.kept.append((obj, look, look(obj), what))
        return obj

    def build(self, stmts):
        objs = []
        for i, s in enumerate(stmts):
            objs.append(self.apply(s, objs, self.flavor[i % len(self.flavor)]))
        return objs

    def apply(self, s, objs, v):
        import kwimage
        from delayed_image import DelayedIdentity
        op = s['op']
        if op == 'ident':
            arr = self.keep(G.leaf_array(s), np.array, 'the array of a leaf')
            return DelayedIdentity(arr, channels=s.get('chan'))
        if op == 'warp':
            tf = s['tf']
            A = kwimage.Affine.coerce(G.tf_arg(tf))
            tf = [lambda: G.tf_arg(tf), lambda: A,
                  lambda: np.array(A.matrix if A.matrix is not None
                                   else np.eye(3))][v % 3]()
            if tf is A:
                self.keep(tf, lambda t: repr(t.matrix), 'a transform')
            elif isinstance(tf, dict):
                tf = self.keep(copy.deepcopy(tf), repr, 'parameters of a warp')
            else:
                self.keep(tf, np.array, 'a matrix')
            d = s['dsize']
            if d != 'auto':
                d = tuple(d)
            kw = {k: self.keep(copy.deepcopy(a), repr, k)
                  for k, a in s.get('kw', {}).items()}
            return objs[s['on']].warp(tf, dsize=d, **kw)
        if op == 'deq' and s['q'] is not None:
            q = self.keep(copy.deepcopy(s['q']), repr, 'a quantization')
            return objs[s['on']].dequantize(q)
        if op == 'cat':
            from delayed_image import DelayedChannelConcat
            parts = [objs[i] for i in s['parts']]
            self.keep(parts, lambda p: [id(x) for x in p], 'a list of parts')
            return DelayedChannelConcat(parts)
        if op in ('crop', 'take'):
            key = 'c' if op == 'crop' else 'idx'
            if isinstance(s.get(key), list) and s[key] and s[key][0] != 's':
                s = dict(s)
                s[key] = self.keep(list(s[key]), repr, 'indexes')
        return G.apply(s, objs)

    def check(self):
        for obj, look, old, what in self.kept:
            ensure(alike(look(obj), old), '{} was changed from {} to {}', what,
                   old, look(obj))


def run_history(case, rec):
    stmts = case['stmts']
    args = Args(case['args'])
    told = repr(stmts)
    objs = args.build(stmts)
    uses = [0] * len(stmts)
    for s in stmts:
        for j in s.get('parts', []) + ([s['on']] if 'on' in s else []):
            uses[j] += 1
    ops = A.label(rec, stmts)
    if max(uses) > 1:
        rec.label('shared')
    rec.nontrivial(len(case['acts']) >= 3 and A.resamples(ops) >= 1)
    kept = []
    sweep = [['shape', i, 0] for i in range(len(stmts))]
    sweep += [['raw', i, 0] for i in range(len(stmts))]
    for how, i, k in case['acts'] + sweep:
        i = i % len(stmts)
        rec.label('act-' + how)
        tree = unshare(stmts, i)
        if len(tree) > 40:
            continue
        try:
            want = act(G.build(tree)[-1], how, k)
        except Exception as ex:
            want = ex
        if isinstance(want, Exception):
            try:
                act(objs[i], how, k)
            except Exception:
                rec.label('raises')
                continue
            ensure(False, '{} of step {}: works after a history of uses but a '
                   'fresh copy raises {!r}', how, i, want)
        got = act(objs[i], how, k)
        ensure(alike(got, want), '{} of step {} ({}) after other uses: {} but {} '
               'on a fresh copy', how, i, stmts[i]['op'], brief(got), brief(want))
        if hasattr(got, '__array__'):
            kept.append((got, copy.deepcopy(got), how, i))
    for got, old, how, i in kept:
        ensure(alike(got, old), 'what {} of step {} ({}) delivered was changed '
               'by later uses: {} and now {}', how, i, stmts[i]['op'],
               brief(old), brief(got))
    args.check()
    equal(repr(stmts), told, 'what the operations were told with')


def run_threads(case, rec):
    stmts = case['stmts']
    want = [None] * len(stmts)
    for i, (fresh) in enumerate(G.build(stmts)):
        want[i] = [fresh.finalize(optimize=False), fresh.finalize()]
    objs = G.build(stmts)
    jobs = [[(i % len(stmts), k % 2) for i, k in job] for job in case['jobs']]
    start = threading.Barrier(len(jobs))
    wrong = []

    def work(job):
        start.wait()
        for i, k in job:
            try:
                got = objs[i].finalize(optimize=bool(k))
            except Exception as ex:
                wrong.append('step {} ({}) in a thread: {!r}'.format(
                    i, ['raw', 'opt'][k], ex))
                return
            if not alike(got, want[i][k]):
                wrong.append('step {} ({}) in a thread: {} but {} alone'.format(
                    i, ['raw', 'opt'][k], brief(got), brief(want[i][k])))
                return
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(j,)) for j in jobs]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    ensure(not wrong, lambda: wrong[0].replace('{', '(').replace('}', ')'))
    ops = A.label(rec, stmts)
    rec.nontrivial(A.resamples(ops) >= 1)


def acts(g):
    n = g.int(2, 7)
    return {'acts': [[g.pick(ACTS), g.int(0, 9), g.int(0, 5)] for _ in range(n)],
            'args': [g.int(0, 2) for _ in range(6)]}


def thread_jobs(g):
    return {'jobs': [[[g.int(0, 9), g.int(0, 3)] for _ in range(g.int(1, 4))]
                     for _ in range(g.int(2, 4))]}


def ready(g, s, forced):
    # (finalizing prepares an unprepared leaf, which is documented)
    kw = {'known': g.pick([False, 'all'])}
    if g.flip(3):
        kw.update(nd=7, method=g.pick(['float', 'ma', 'ma', None]))
    return kw


OPS = (['crop'] * 3 + ['warp'] * 3 + ['over'] * 3
       + ['deq', 'deq', 'cat', 'cat', 'cat', 'take', 'chan', 'pad', 'resize']
       + ['motif'] * 4)
CHECK = CheckModule('C07', [
    Facet('memory', A.cases(['ident', 'ident', 'nans'], ops=OPS, extra=acts,
                            min_ops=2, tail=False, file_kw=ready), run_history, 2000,
          rule='a shared graph and a random history of uses of its nodes, each '
          'compared with the same use of a fresh unshared copy; non-trivial = '
          '3+ uses and a resampling node'),
    Facet('files', A.cases(['file', 'file', 'ident'], ops=OPS, extra=acts,
                           min_ops=2, tail=False, file_kw=ready), run_history, 1500,
          rule='the same over raster files'),
    Facet('threads', A.cases(['ident', 'ident', 'nans'], ops=OPS,
                             extra=thread_jobs, min_ops=2, tail=False),
          run_threads, 500, rule='the nodes of one graph over arrays, delivered '
          'in several threads at once, against each alone; non-trivial = a '
          'resampling node'),
])
