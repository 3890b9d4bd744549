"""Set algebra and late/early fusion of channel specifications."""
from hypothesis import strategies as st
from vh import specs as S
from vh.core import CheckModule, Facet, ensure, equal


def related_pair():
    """Two specs built from one pool, so they overlap in generated ways."""
    def build(t):
        pool, picks_a, picks_b, extra = t
        a = [pool[i] for i in dict.fromkeys(i % len(pool) for i in picks_a)]
        b = [pool[i] for i in dict.fromkeys(i % len(pool) for i in picks_b)]
        # the second operand may spell the same channels differently
        b2 = []
        for k, c in enumerate(b):
            if extra[k % len(extra)] == 1:
                b2 += [_as_code(n) for n in S.expand(c)]
            elif extra[k % len(extra)] == 2:
                b2 += [_as_code(n) for n in S.expand(c)[1:]]
            elif extra[k % len(extra)] == 3:
                b2 += [_as_code(n) for n in reversed(S.expand(c))]
            else:
                b2.append(c)
        return {'a': a, 'b': b2}
    return st.tuples(
        S.fused_strategy(2, 6), st.lists(st.integers(0, 9), min_size=1, max_size=6),
        st.lists(st.integers(0, 9), max_size=6),
        st.lists(st.integers(0, 3), min_size=1, max_size=4)).map(build)


def _as_code(name):
    if '.' in name:
        r, i = name.split('.')
        return ['i', r, int(i)]
    return ['n', name]


def run_fused(case, rec):
    from delayed_image import FusedChannelSpec
    A = S.expand_all(case['a'])
    B = S.expand_all(case['b'])
    fa = FusedChannelSpec.coerce(S.fused_text(case['a']))
    fb = FusedChannelSpec.coerce(S.fused_text(case['b']))
    kind = case['operand']
    rec.label('operand-' + kind)
    other = {'spec': fb, 'set': set(B), 'normed': fb.normalize()}[kind]
    both = [x for x in A if x in set(B)]
    only = [x for x in A if x not in set(B)]
    rec.nontrivial(bool(both) and bool(only))
    equal(list(fa.difference(other).parsed), only, 'difference')
    equal(list((fa - other).parsed), only, 'difference operator')
    equal(list(fa.intersection(other).parsed), both, 'intersection')
    equal(list((fa & other).parsed), both, 'intersection operator')
    equal(fa.issubset(other), set(A) <= set(B), 'issubset')
    equal(fa.issuperset(other), set(A) >= set(B), 'issuperset')
    un = list(fa.union(other).parsed)
    un2 = list((fa | other).parsed)
    if kind == 'set':
        equal(un[:len(A)], A, 'union starts with the left operand')
        equal(sorted(un), sorted(set(A) | set(B)), 'union members')
        equal(sorted(un2), sorted(set(A) | set(B)), 'union operator')
    else:
        want = A + [x for x in B if x not in set(A)]
        equal(un, want, 'union')
        equal(un2, want, 'union operator')
        equal(list(fb.union(fa).parsed), B + [x for x in A if x not in set(B)],
              'union the other way')
        equal(list(fb.difference(fa).parsed), [x for x in B if x not in set(A)],
              'difference the other way')
    # every result counts and expands like an ordinary spec
    for res in [fa - other, fa & other, fa | other]:
        equal(res.numel(), len(res.parsed), 'count of a result')
        equal(res.normalize().spec, '|'.join(res.parsed), 'result is expanded')
        equal(res.spec, '|'.join(res.parsed), 'text of a result')
    # operands are left alone
    equal(fa.spec, S.fused_text(case['a']), 'left operand afterwards')
    equal(fb.spec, S.fused_text(case['b']), 'right operand afterwards')
    equal(list(fa.normalize().parsed), A, 'left operand expands as before')
    equal(list(fb.normalize().parsed), B, 'right operand expands as before')


def fused_cases():
    return st.tuples(related_pair(), st.sampled_from(
        ['spec', 'set', 'normed'])).map(
        lambda t: {'a': t[0]['a'], 'b': t[0]['b'], 'operand': t[1]})


def stream_pairs():
    def build(t):
        pool, groups_a, groups_b, operand = t

        def mk(groups):
            out = []
            for g in groups:
                s = [pool[i] for i in dict.fromkeys(i % len(pool) for i in g)]
                out.append(s)
            return S._dedupe_streams(out)
        return {'a': mk(groups_a), 'b': mk(groups_b), 'operand': operand}
    grp = st.lists(st.integers(0, 9), min_size=1, max_size=4)
    return st.tuples(S.fused_strategy(2, 7),
                     st.lists(grp, min_size=1, max_size=4),
                     st.lists(grp, min_size=1, max_size=3),
                     st.sampled_from(['spec', 'str', 'set', 'fused'])).map(build)


def run_streams(case, rec):
    from delayed_image import ChannelSpec, FusedChannelSpec
    ta, tb = S.channel_text(case['a']), S.channel_text(case['b'])
    A = [S.expand_all(s) for s in case['a']]
    B = [S.expand_all(s) for s in case['b']]
    kind = case['operand']
    if kind == 'fused':
        tb = S.fused_text(case['b'][0])
        B = B[:1]
    rec.label('operand-' + kind)
    flatB = set(x for s in B for x in s)
    a = ChannelSpec.coerce(ta)
    b = ChannelSpec.coerce(tb)
    other = {'spec': b, 'str': tb, 'set': set(flatB),
             'fused': FusedChannelSpec.coerce(tb) if kind == 'fused' else None}[kind]
    dif = [[x for x in s if x not in flatB] for s in A]
    inter = [[x for x in s if x in flatB] for s in A]
    dif = [s for s in dif if s]
    inter = [s for s in inter if s]
    rec.nontrivial(bool(dif) and bool(inter) and len(A) > 1)
    equal(a.difference(other).spec, ','.join(map('|'.join, dif)), 'difference')
    equal((a - other).spec, ','.join(map('|'.join, dif)), 'difference operator')
    equal(a.intersection(other).spec, ','.join(map('|'.join, inter)),
          'intersection')
    equal((a & other).spec, ','.join(map('|'.join, inter)),
          'intersection operator')
    if kind != 'set':
        want = ','.join(map('|'.join, A + B))
        equal(a.union(other).spec, want, 'union keeps every stream')
        equal((a | other).spec, want, 'union operator')
    # late fusion is concatenation of the streams
    strict = case.get('strict')
    # known finding: late fusion with a text operand fails
    if kind != 'set' and (kind != 'str' or strict):
        lf = a.late_fuse(other)
        equal(lf.spec, ta + ',' + tb, 'late fusion')
        equal((a + other).spec, ta + ',' + tb, 'late fusion operator')
        equal([list(s.as_list()) for s in lf.streams()], A + B,
              'streams after late fusion')
    empty = ChannelSpec.coerce('')
    equal(empty.numel(), 0, 'empty spec has no channels')
    equal(a.late_fuse(empty).spec, ta, 'late fusion with nothing')
    equal(empty.late_fuse(a).spec, ta, 'late fusion of nothing')
    if strict:
        equal(empty.late_fuse(ta).spec, ta, 'late fusion of nothing with text')
    equal(sum([a, empty, b]).spec, ta + ',' + tb, 'sum of specs')
    equal(a.spec, ta, 'left operand afterwards')
    equal(a.normalize().spec, ','.join(map('|'.join, A)),
          'left operand expands as before')


def run_subseq(case, rec):
    import ubelt as ub
    from delayed_image.channel_spec import (
        oset_delitem, oset_insert, subsequence_index)
    items = list(dict.fromkeys(case['items']))
    sub = list(dict.fromkeys(case['sub']))
    if case['cut'] is not None and items:
        a = case['cut'][0] % len(items)
        sub = items[a:a + case['cut'][1]]
    got = subsequence_index(ub.oset(items), ub.oset(sub))
    want = None
    for k in range(len(items) + 1):
        if items[k:k + len(sub)] == sub and len(sub):
            want = slice(k, k + len(sub))
            break
    rec.nontrivial(want is not None and len(sub) > 1)
    if sub:
        equal(got, want, 'position of the run')
    # insertion / deletion on an ordered set keep order and lookup in step
    o = ub.oset(items)
    model = list(items)
    for op in case['ops']:
        if op[0] == 'ins':
            i = op[1] % (len(model) + 1)
            oset_insert(o, i, op[2])
            if op[2] not in model:
                model.insert(i, op[2])
        elif op[0] == 'del' and model:
            i = op[1] % len(model)
            oset_delitem(o, slice(i, i + op[2]))
            del model[i:i + op[2]]
        equal(list(o), model, 'ordered set after {}'.format(op))
        for pos, x in enumerate(model):
            equal(o.index(x), pos, 'lookup of {!r} after {}'.format(x, op))


def subseq_cases():
    item = st.integers(0, 9)
    return st.fixed_dictionaries({
        'items': st.lists(item, max_size=8),
        'sub': st.lists(item, max_size=4),
        'cut': st.one_of(st.none(), st.tuples(st.integers(0, 9), st.integers(0, 5))),
        'ops': st.lists(st.one_of(
            st.tuples(st.just('ins'), st.integers(0, 9), st.integers(10, 15)),
            st.tuples(st.just('del'), st.integers(0, 9), st.integers(1, 3))),
            max_size=5),
    })


CHECK = CheckModule('C18', [
    Facet('fused', fused_cases, run_fused, 9000, rule=(
        'two overlapping fused specs, differently spelled, against ordered-list '
        'algebra; non-trivial = both a shared and an unshared channel')),
    Facet('streams', stream_pairs, run_streams, 6000, rule=(
        'two overlapping late-fused specs; non-trivial = 2+ streams, some '
        'channels removed and some kept')),
    Facet('ordered', subseq_cases, run_subseq, 4000, rule=(
        'contiguous-run lookup and ordered-set edits against lists; '
        'non-trivial = a run of 2+ found')),
], assumptions=['no channel is named twice inside one fused spec'])
