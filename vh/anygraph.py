"""Programs of every operation, for the shape / metadata checks."""
from hypothesis import strategies as st

from vh import graph as G

ALL = (['crop'] * 3 + ['warp'] * 4 + ['over'] * 2 + ['motif'] * 2
       + ['deq', 'cat', 'cat', 'take', 'chan', 'pad', 'resize', 'eval', 'opt', 'beyond'])


def cases(leafs, ops=ALL, extra=None, nonempty=True, dtypes=None,
          min_ops=0, max_ops=7, tail=True, **kw):
    @st.composite
    def strat(draw):
        opts = dict(leafs=leafs, nonempty=nonempty, max_side=14, min_side=2,
                    warp=G.any_warp(), nan=True,
                    # no mix of these promotes to an integer OpenCV cannot warp
                    dtypes=dtypes or ['uint8', 'int16', 'float32', 'float64'])
        opts.update(kw)
        g = G.Gen(draw, ops, **opts)
        stmts = g.program(min_ops, max_ops)
        if tail and g.flip(5):
            stmts = stmts + [{'op': 'xa', 'on': len(stmts) - 1}]
        case = {'stmts': stmts}
        if extra:
            case.update(extra(g))
        return case
    return strat


def label(rec, stmts):
    for o in set(s['op'] for s in stmts):
        rec.label('op-' + o)
    return [s['op'] for s in stmts]


def resamples(ops):
    return sum(o in ('warp', 'over', 'resize', 'pad') for o in ops)
