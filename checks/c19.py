"""Encoding / decoding arrays by channel specification."""
import numpy as np
from hypothesis import strategies as st
from vh import specs as S
from vh.core import CheckModule, Facet, ensure, equal

# component code -> a stack of constant planes, one distinct value per channel


def component(codes_index, size, dims, axis):
    vals = np.arange(size) + 100.0 * (codes_index + 1)
    shape = list(dims)
    shape.insert(axis, size)
    view = [1] * (len(dims) + 1)
    view[axis] = size
    base = np.arange(int(np.prod(dims))).reshape(dims) / 1000.0
    base = np.expand_dims(base, axis)
    return np.broadcast_to(vals.reshape(view) + base, shape).copy()


def cases():
    def build(t):
        pool, groups, item_split, dims, axis, mode, order = t
        n = len(pool)
        streams = []
        for g in groups:
            s = list(dict.fromkeys(i % n for i in g))
            if s not in streams:
                streams.append(s)
        cuts = sorted(set(c % n for c in item_split) | {0}) + [n]
        items = [list(range(a, b)) for a, b in zip(cuts, cuts[1:])]
        return {'pool': pool, 'streams': streams, 'items': items,
                'dims': dims, 'axis': axis % (len(dims) + 1), 'mode': mode,
                'reverse': order}
    grp = st.lists(st.integers(0, 9), min_size=1, max_size=5)
    near = st.tuples(st.integers(0, 9), st.integers(1, 5)).map(
        lambda t: list(range(t[0], t[0] + t[1])))
    return st.tuples(
        S.fused_strategy(1, 7), st.lists(st.one_of(grp, near), min_size=1, max_size=4),
        st.lists(st.integers(0, 9), max_size=4),
        st.lists(st.integers(1, 3), min_size=1, max_size=2),
        st.integers(0, 2), st.sampled_from([1, 1, 0]), st.booleans()).map(build)


def run(case, rec):
    from delayed_image import ChannelSpec
    pool, dims, axis = case['pool'], tuple(case['dims']), case['axis']
    comps = [component(i, len(S.expand(c)), dims, axis)
             for i, c in enumerate(pool)]
    names = [S.render(c) for c in pool]
    item_order = case['items'][::-1] if case['reverse'] else case['items']
    item = {'|'.join(names[i] for i in grp): np.concatenate(
        [comps[i] for i in grp], axis=axis) for grp in item_order}
    before = {k: v.copy() for k, v in item.items()}
    streams = case['streams']
    spec = ChannelSpec.coerce(','.join(
        '|'.join(names[i] for i in s) for s in streams))
    rec.label('mode-{}'.format(case['mode']), 'axis-{}'.format(axis))
    multi = any(len(s) > 1 for s in streams)
    rec.nontrivial(multi and len(item) > 1 and any(
        len(S.expand(c)) > 1 for c in pool))
    used = sorted({i for s in streams for i in s})
    # known findings: alias and slice codes break the first encoder, and slice
    # codes the per-stream locations
    strict = case.get('strict', [])
    coded = any(S.expand(pool[i]) != [names[i]] for i in used)
    mode0 = not coded or 'mode0' in strict
    fused = spec.encode(item, axis=axis, mode=case['mode'] if mode0 else 1)
    want = {'|'.join(names[i] for i in s): np.concatenate(
        [comps[i] for i in s], axis=axis) for s in streams}
    equal(set(fused), set(want), 'encoded stream names')
    for k in want:
        ensure(fused[k].shape == want[k].shape and np.array_equal(
            fused[k], want[k]), 'encoded stream {!r} differs', k)
    other = spec.encode(item, axis=axis, mode=1 - case['mode'] if mode0 else 1)
    for k in want:
        ensure(np.array_equal(other[k], want[k]),
               'stream {!r} differs between the two encoders', k)
    # decode gives every component back
    dec = spec.decode(fused, axis=axis)
    equal(set(dec), {names[i] for i in used}, 'decoded component names')
    for i in used:
        ensure(np.array_equal(dec[names[i]], comps[i]),
               'decoded component {!r} differs', names[i])
    # component_indices locates each component
    idxs = spec.component_indices(axis=axis)
    equal(set(idxs), {names[i] for i in used}, 'located components')
    for i in used:
        key, sl = idxs[names[i]]
        ensure(np.array_equal(fused[key][sl], comps[i]),
               'location of component {!r} is wrong', names[i])
    for s in spec.streams():
        if 'slices' not in strict and any(
                ':' in nm for nm in s.parsed):
            continue
        sub = s.component_indices(axis=axis)
        equal(set(sub), set(s.parsed), 'components located in one stream')
        for nm, sl in sub.items():
            ensure(np.array_equal(want[s.spec][sl], comps[names.index(nm)]),
                   'location of {!r} in its stream is wrong', nm)
    for k in before:
        ensure(np.array_equal(before[k], item[k]), 'input item was modified')


CHECK = CheckModule('C19', [
    Facet('arrays', cases, run, 8000, rule=(
        'labelled constant planes grouped arbitrarily into items and fused '
        'into arbitrary streams along any axis, compared with plain '
        'concatenation, then decoded; non-trivial = 2+ items, a stream of 2+ '
        'components and a component of 2+ channels')),
], assumptions=['every requested component is present exactly once in the item'])
