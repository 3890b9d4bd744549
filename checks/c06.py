"""Overviews: stored ones are used as they are, others are every 2^n-th pixel."""
import hypothesis.strategies as st
import numpy as np

from vh import graph as G
from vh.core import CheckModule, Facet, ensure, equal

DT = ['uint8', 'int16', 'uint16', 'float32', 'float64']


def stored_overview(s, n):
    """The n-th overview of a file leaf, read with GDAL alone."""
    if n == 0:
        return G.leaf_array(s).astype(np.float64)
    ds = G._gdal().Open(G.file_path(s))
    bands = [ds.GetRasterBand(k + 1).GetOverview(n - 1).ReadAsArray()
             for k in range(s['c'])]
    return np.stack(bands, axis=2).astype(np.float64)


def model(stmts, env):
    vals = []
    level = []      # stored level still directly readable
    for i, s in enumerate(stmts):
        op = s['op']
        if op == 'over':
            on, n = s['on'], s['n']
            lev = level[on]
            if lev is not None and lev[1] + n <= (stmts[lev[0]].get('ov') or 0):
                lev = (lev[0], lev[1] + n)
                v = stored_overview(stmts[lev[0]], lev[1])
            else:
                lev = None
                v = vals[on][::2 ** n, ::2 ** n]
            level.append(lev)
            vals.append(v)
        elif op == 'take':
            vals.append(G.exact_values_take(s, vals, env))
            level.append(None)
        else:
            vals.append(G.exact_value(s, vals))
            level.append((i, 0) if op == 'file' else None)
    return vals


def over_first(aligned, leafs):
    @st.composite
    def strat(draw):
        def kw(g, s, forced):
            m = g.pick(['NEAREST', 'AVERAGE'])
            if aligned:
                if not forced:
                    s['w'] = 16 * g.int(1, 4)
                    s['h'] = 16 * g.int(1, 4)
                m = 'NEAREST'
            n = g.pick([0, 1, 2, 3, 3])
            while n and (min(s['w'], s['h']) < 2 ** n or (
                    aligned and (s['w'] % 2 ** n or s['h'] % 2 ** n))):
                n -= 1
            return {'ov': n, 'ovm': m, 'ovk': g.pick([None, None, 'band',
                                                      'external', 'HFA'])}
        g = G.Gen(draw, ['crop'], leafs=leafs, max_side=45, min_side=2,
                  dtypes=DT, file_kw=kw, max_pix=70, over_max=3)
        if aligned:
            cur = g.leaf(*([16 * g.int(1, 4), 16 * g.int(1, 4)]
                           if leafs == ['ident'] else []))
            budget = 4
            for _ in range(g.int(1, 7)):
                k = g.int(0, 4)
                e = g.env[cur]
                if k == 0 and min(e.w, e.h) >= 8:
                    # a crop that later overviews stay aligned with
                    q = 8
                    y0 = q * g.int(0, e.h // q - 1)
                    x0 = q * g.int(0, e.w // q - 1)
                    y1 = y0 + q * g.int(1, (e.h - y0) // q)
                    x1 = x0 + q * g.int(1, (e.w - x0) // q)
                    cur = g.add({'op': 'crop', 'on': cur, 'y': [y0, y1],
                                 'x': [x0, x1], 'c': None, 'how': 'item'})
                    budget = 3
                elif k <= 1:
                    n = g.int(0, min(3, budget))
                    budget -= n
                    cur = g.add({'op': 'over', 'on': cur, 'n': n})
                else:
                    g.ops = [0, 0, ['take'], ['deq'], ['eval', 'cat', 'opt']][k]
                    cur = g.step(cur)
        else:
            cur = g.leaf()
            g.ops = ['over']
            for _ in range(g.int(1, 3)):
                cur = g.step(cur)
            g.ops = ['crop', 'crop', 'take', 'chan', 'deq', 'cat', 'eval', 'opt']
            for _ in range(g.int(0, 4)):
                cur = g.step(cur)
        g.stmts = g.stmts[:cur + 1]
        return {'stmts': G.prune(g.stmts), 'aligned': aligned}
    return strat


def mixed_levels(stmts):
    """An overview beyond the stored ones on top of a stored one."""
    lev = {}
    for i, s in enumerate(stmts):
        if s['op'] == 'file':
            lev[i] = (0, s.get('ov') or 0)
        elif s['op'] == 'over' and s['on'] in lev:
            n, m = lev[s['on']]
            if n and s['n'] and n + s['n'] > m:
                return True
            lev[i] = (n + s['n'], m)
    return False


def run_values(case, rec):
    stmts = case['stmts']
    env = G.infer_all(stmts)
    objs = G.build(stmts)
    want = model(stmts, env)
    total = sum(s['n'] for s in stmts if s['op'] == 'over')
    for s in stmts:
        rec.label('op-' + s['op'])
    rec.nontrivial(total >= 1 and len(stmts) >= 3)
    for i, s in enumerate(stmts):
        o = objs[i]
        equal(G.announced(o), env[i].shape, 'announced shape of step {}'.format(i))
        if s['op'] == 'file' and s.get('known') is not True:
            equal(o.num_overviews, s.get('ov') or 0, 'stored overviews')
        if s['op'] == 'over':
            left = objs[s['on']].num_overviews or 0
            equal(o.num_overviews, max(0, left - s['n']), 'overviews left')
    x = objs[-1]
    hows = ['raw', 'opt']
    if not case['aligned'] and mixed_levels(stmts):
        # (evaluate optimizes too)
        hows = [] if any(s['op'] in ('eval', 'opt')
                      for s in stmts) else ['raw']
        # fusing reads the full image instead: other pixels
    for how in hows:
        got = x.finalize(optimize=how == 'opt')
        msg = G.same(got, want[-1], 1e-4)
        ensure(msg is None, '{}: {}'.format(how, msg))


CHECK = CheckModule('C06', [
    Facet('first', over_first(False, ['file', 'file', 'file', 'ident']), run_values,
          3000, rule='overviews of files (0-3 stored, averaged or nearest, odd '
          'sizes) and arrays, then crops, selections, concatenations, '
          'dequantizations; exact; non-trivial = an overview and 3+ nodes'),
    Facet('aligned', over_first(True, ['file', 'file', 'ident']), run_values,
          3000, rule='overviews anywhere among aligned crops etc.; exact'),
])
