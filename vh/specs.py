"""
Reference model and generators for channel / sensor-channel specifications.

A code is a JSON list:
    ['n', name]              a plain channel
    ['i', root, i]           root.i
    ['0', root, b]           root:b           channels 0..b-1
    ['s', root, a, b, form]  root.a:b or root:a:b
    ['t', root, a, b, step, form]   with a step
    ['a', alias]             rgb, rgba, dxdy, fxfy
A fused spec is a list of codes.
"""
from hypothesis import strategies as st

ALIAS = {
    'rgb': ['r', 'g', 'b'],
    'rgba': ['r', 'g', 'b', 'a'],
    'dxdy': ['dx', 'dy'],
    'fxfy': ['fx', 'fy'],
}

PLAIN = ['r', 'g', 'b', 'a', 'dx', 'dy', 'fx', 'fy', 'nir', 'pan', 'B1',
         'B8a', 'red edge', '_x', 'c_1', 'Z', 'r1', 'rgbx', 'x 2 y', 'no rgb']
ROOTS = ['B', 'm', 'feat', 'r', 'land_2', 'x y', 'B1', 'q', 'u', 'rgb']


def render(code):
    k = code[0]
    if k == 'n' or k == 'a':
        return code[1]
    if k == 'i':
        return '{}.{}'.format(code[1], code[2])
    if k == '0':
        return '{}:{}'.format(code[1], code[2])
    if k == 's':
        return '{}{}{}:{}'.format(code[1], code[4], code[2], code[3])
    if k == 't':
        return '{}{}{}:{}:{}'.format(code[1], code[5], code[2], code[3], code[4])
    raise KeyError(k)


def expand(code, aliases=True):
    k = code[0]
    if k == 'n':
        return [code[1]]
    if k == 'a':
        return list(ALIAS[code[1]]) if aliases else [code[1]]
    if k == 'i':
        return ['{}.{}'.format(code[1], code[2])]
    if k == '0':
        return ['{}.{}'.format(code[1], j) for j in range(code[2])]
    if k == 's':
        return ['{}.{}'.format(code[1], j) for j in range(code[2], code[3])]
    if k == 't':
        return ['{}.{}'.format(code[1], j)
                for j in range(code[2], code[3], code[4])]
    raise KeyError(k)


def expand_all(codes, aliases=True):
    out = []
    for c in codes:
        out += expand(c, aliases)
    return out


def fused_text(codes):
    return '|'.join(render(c) for c in codes)


def concise_model(names):
    """Greedy maximal runs of root.k, root.k+1, ... written as slices."""
    out = []
    i = 0
    while i < len(names):
        n = names[i]
        if '.' not in n:
            out.append(n)
            i += 1
            continue
        root, k = n.split('.')
        k = int(k)
        j = i + 1
        while j < len(names) and names[j] == '{}.{}'.format(root, k + j - i):
            j += 1
        stop = k + (j - i)
        if stop == k + 1:
            out.append('{}.{}'.format(root, k))
        elif k == 0:
            out.append('{}:{}'.format(root, stop))
        else:
            out.append('{}.{}:{}'.format(root, k, stop))
        i = j
    return out


def code_strategy(steps=True, allow_empty=False):
    idx = st.integers(0, 6)
    lo = 0 if allow_empty else 1
    opts = [
        st.tuples(st.just('n'), st.sampled_from(PLAIN)),
        st.tuples(st.just('n'), st.text('abrgxyB_019', min_size=1, max_size=4)
                  .filter(lambda s: not s[0].isdigit() and s not in ALIAS)),
        st.tuples(st.just('i'), st.sampled_from(ROOTS),
                  st.one_of(idx, st.integers(0, 120))),
        st.tuples(st.just('0'), st.sampled_from(ROOTS), st.integers(lo, 12)),
        st.tuples(st.just('s'), st.sampled_from(ROOTS), idx,
                  st.integers(lo, 12), st.sampled_from(['.', ':'])).map(
            lambda t: (t[0], t[1], t[2], t[2] + t[3], t[4])),
        st.tuples(st.just('a'), st.sampled_from(sorted(ALIAS))),
    ]
    if steps:
        opts.append(
            st.tuples(st.just('t'), st.sampled_from(ROOTS), idx,
                      st.integers(1, 9), st.integers(1, 4),
                      st.sampled_from(['.', ':'])).map(
                lambda t: (t[0], t[1], t[2], t[2] + t[3], t[4], t[5])))
    return st.one_of(*opts).map(list)


def _dedupe(codes):
    """Documented precondition: a fused spec never names a channel twice."""
    seen = set()
    out = []
    for c in codes:
        ex = expand(c)
        if any(e in seen for e in ex) or len(set(ex)) != len(ex):
            continue
        # a code and its own text must not collide either ("rgb" the root)
        seen.update(ex)
        out.append(c)
    return out


def fused_strategy(min_size=1, max_size=6, steps=True):
    base = st.lists(code_strategy(steps), min_size=min_size, max_size=max_size)

    def runs(t):
        root, start, n, rest = t
        return [['i', root, start + k] for k in range(n)] + rest
    streaky = st.tuples(st.sampled_from(ROOTS), st.integers(0, 3),
                        st.integers(2, 5),
                        st.lists(code_strategy(steps), max_size=3)).map(runs)
    broken = st.tuples(streaky, streaky).map(lambda t: t[0] + t[1])
    return st.one_of(base, streaky, broken).map(_dedupe).filter(
        lambda c: len(c) >= min_size)


def stream_key(codes):
    return tuple(expand_all(codes))


def _dedupe_streams(streams):
    seen = set()
    out = []
    for s in streams:
        k = stream_key(s)
        if k in seen:
            continue
        seen.add(k)
        out.append(s)
    return out


def channelspec_strategy(min_size=1, max_size=4, steps=True):
    """Late-fused streams; a channel may appear in several streams, but no
    two streams are the same."""
    return st.lists(fused_strategy(1, 4, steps), min_size=min_size,
                    max_size=max_size).map(_dedupe_streams)


def channel_text(streams):
    return ','.join(fused_text(s) for s in streams)


SENSORS = ['S1', 'S2', 'L8', 'WV', '*', 'Cam 1', 'a-b', 'sen_3']
