"""Parameters given to finalize apply to all that it evaluates."""
import contextlib
import io

import numpy as np

from checks.c24 import same
from vh import anygraph
from vh import graph as G
from vh.core import CheckModule, Facet, ensure, equal

OPS = ['crop'] * 3 + ['warp'] * 4 + ['over', 'motif', 'deq', 'cat', 'cat',
                                     'take', 'chan', 'resize']


def file_kw(g, s, forced):
    kw = {'ov': g.pick([0, 0, 1])}
    if min(s['w'], s['h']) < 2:
        kw['ov'] = 0
    if g.flip(3) is False:
        kw['nd'] = 7
        kw['method'] = g.pick([None, 'float', 'ma'])
    return kw


def nans_kw(g):
    return {'method': g.pick([None, 'float', 'nan', 'ma'])}


def extra(which):
    def make(g):
        steps = []
        for _ in range(g.pick([1, 1, 2, 3])):
            kw = {}
            for k in which:
                if k == 'nodata_method' and g.flip(4) is False:
                    kw[k] = g.pick(['float', 'ma', 'nan'])
                if k == 'interpolation' and g.flip(3) is False:
                    kw[k] = g.pick(['nearest', 'nearest', 'linear', 0])
                if k == 'antialias' and g.flip(3):
                    kw[k] = g.flip()
                if k == 'border_value' and g.flip(4):
                    kw[k] = g.pick([0, 5, 'auto'])
            steps.append([kw, g.pick(['opt', 'opt', 'raw'])])
        return {'steps': steps}
    return make


def changed(stmts, kw):
    """ The program, made with other parameters """
    out = []
    for s in stmts:
        s = dict(s)
        if s['op'] in ('warp', 'resize'):
            s['kw'] = dict(s.get('kw') or {})
            s['kw'].update({k: v for k, v in kw.items() if k != 'nodata_method'})
        elif s['op'] == 'file' and 'nodata_method' in kw:
            s['method'] = kw['nodata_method']
        elif s['op'] == 'nans' and s.get('method') and 'nodata_method' in kw:
            s['method'] = kw['nodata_method']
        out.append(s)
    return out


def value(x, how, kw):
    with contextlib.redirect_stdout(io.StringIO()):
        got = x.finalize(optimize=how == 'opt', **kw)
    return getattr(got, 'values', got)


def run(case, rec):
    stmts = case['stmts']
    x = G.build(stmts)[-1]
    ops = anygraph.label(rec, stmts)
    kw = {}
    effect = 0
    for step, how in case['steps']:
        kw = {**kw, **step}     # (they stay, in place)
        ref = G.build(changed(stmts, kw))[-1]
        before = (G.announced(ref), G.chan_names(ref))
        want = value(ref, how, {})
        got = value(x, how, step)
        same(got, want, '{} {}'.format(how, step))
        equal((G.announced(x), G.chan_names(x)), before, 'announced')
        for k in step:
            rec.label(k)
        plain = value(G.build(stmts)[-1], how, {})
        effect += not (plain.dtype == got.dtype and type(plain) is type(got)
                       and np.array_equal(np.ma.getdata(plain),
                                          np.ma.getdata(got),
                                          equal_nan=plain.dtype.kind == 'f'))
    rec.nontrivial(effect)


def nodata_leafs(g_leafs):
    return anygraph.cases(g_leafs, ops=OPS, file_kw=file_kw, nans_kw=nans_kw,
                          extra=extra(['nodata_method', 'interpolation']))


CHECK = CheckModule('C26', [
    Facet('warps', anygraph.cases(['ident', 'ident', 'nans'], ops=OPS,
                                  extra=extra(['interpolation', 'antialias',
                                               'border_value'])), run, 2500,
          rule='any graph over arrays, finalized with other interpolation, '
          'antialiasing or border value, against the graph made with them; '
          'non-trivial = the result differs from the one without'),
    Facet('nodata', nodata_leafs(['file', 'file', 'file', 'ident', 'nans']),
          run, 2500,
          rule='any graph over files with nodata values, finalized with '
          'another nodata_method or interpolation; non-trivial = the same'),
])
