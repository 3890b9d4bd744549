"""Channel specifications: expansion, shortening, counting, indexing."""
from hypothesis import strategies as st
from vh import specs as S
from vh.core import CheckModule, Facet, ensure, equal


def _fused_checks(f, want, tag):
    equal(f.normalize().spec, '|'.join(want), tag + ': expanded form')
    equal(f.normalize().normalize().spec, '|'.join(want),
          tag + ': expanding twice')
    equal(f.numel(), len(want), tag + ': channel count')
    equal(f.normalize().numel(), len(want), tag + ': count of expanded form')
    equal(len(f.normalize()), len(want), tag + ': len of expanded form')
    con = f.concise()
    equal(con.spec, '|'.join(S.concise_model(want)), tag + ': short form')
    equal(con.normalize().spec, '|'.join(want), tag + ': short form expands back')
    equal(con.concise().spec, con.spec, tag + ': shortening twice')
    equal(con.numel(), len(want), tag + ': count of short form')
    equal(list(f.as_list()), want, tag + ': as_list')
    equal(list(f.as_oset()), want, tag + ': as_oset')
    equal(set(f.as_set()), set(want), tag + ': as_set')
    equal(list(f.to_list()), want, tag + ': to_list')
    equal(list(f.to_oset()), want, tag + ': to_oset')
    equal(set(f.to_set()), set(want), tag + ': to_set')


def run_fused(case, rec):
    from delayed_image import ChannelSpec, FusedChannelSpec
    codes = case['codes']
    want = S.expand_all(codes)
    text = S.fused_text(codes)
    via = case['via']
    rec.label('via-' + via)
    rec.label(*('code-' + c[0] for c in codes))
    if via == 'str':
        f = FusedChannelSpec.coerce(text)
    elif via == 'list':
        f = FusedChannelSpec.coerce([S.render(c) for c in codes])
    elif via == 'parse':
        f = FusedChannelSpec.parse(text)
    elif via == 'chan':
        f = FusedChannelSpec.coerce(ChannelSpec.coerce(text))
    elif via == 'fuse':
        f = ChannelSpec.coerce(text).fuse()
    elif via == 'concat':
        k = len(codes) // 2
        f = FusedChannelSpec.concat([
            FusedChannelSpec.coerce(S.fused_text(codes[:k])),
            FusedChannelSpec.coerce(S.fused_text(codes[k:]))])
    rec.nontrivial(len(want) > len(codes) or len(S.concise_model(want)) < len(want))
    equal(f.spec, text, 'text of the spec')
    equal(list(f.sizes()), [len(S.expand(c)) for c in codes], 'per-code sizes')
    equal(sum(f.sizes()), f.numel(), 'sizes add up to the count')
    _fused_checks(f, want, 'fused')
    ensure(FusedChannelSpec.coerce(f.spec) == f, 'text round trip')
    ensure(FusedChannelSpec.coerce(f) == f, 'coerce of itself')
    # membership is by written code
    for c in codes:
        ensure(S.render(c) in f, 'written code {!r} not contained', S.render(c))
    # indexing is by expanded channel
    n = len(want)
    for i in case['idx']:
        j = i % (2 * n) - n
        equal(f[j], want[j], 'index {}'.format(j))
    a, b, stp = case['slice']
    sl = slice(a, b, stp)
    equal(list(f[sl].parsed), want[sl], 'slice {}'.format(sl))
    pick = [i % n for i in case['idx']]
    pick = list(dict.fromkeys(pick))
    equal(list(f[pick].parsed), [want[i] for i in pick], 'list index')
    # split: one stream per channel
    sp = f.split()
    equal([s.spec for s in sp.streams()], want, 'split into single channels')
    equal([s.spec for s in f.streams()], [text], 'streams of a fused spec')
    _fused_checks(f, want, 'fused, asked again')


def fused_cases():
    return st.fixed_dictionaries({
        'codes': S.fused_strategy(),
        'via': st.sampled_from(['str', 'list', 'parse', 'chan', 'fuse', 'concat']),
        'idx': st.lists(st.integers(0, 60), min_size=1, max_size=4),
        'slice': st.tuples(st.one_of(st.none(), st.integers(-8, 12)),
                           st.one_of(st.none(), st.integers(-8, 12)),
                           st.sampled_from([None, 1, 2, -1])),
    })


def run_streams(case, rec):
    from delayed_image import ChannelSpec
    streams = case['streams']
    text = S.channel_text(streams)
    want = [S.expand_all(s) for s in streams]
    c = ChannelSpec.coerce(text)
    rec.label('streams-{}'.format(len(streams)))
    total = sum(len(w) for w in want)
    rec.nontrivial(len(streams) > 1 and total > sum(len(s) for s in streams))
    norm = ','.join('|'.join(w) for w in want)
    equal(c.spec, text, 'text')
    equal(c.normalize().spec, norm, 'expanded form')
    equal(c.normalize().normalize().spec, norm, 'expanding twice')
    equal(c.numel(), total, 'channel count')
    equal(c.normalize().numel(), total, 'count of expanded form')
    con = ','.join('|'.join(S.concise_model(w)) for w in want)
    equal(c.concise().spec, con, 'short form')
    equal(c.concise().concise().spec, con, 'shortening twice')
    equal(c.concise().normalize().spec, norm, 'short form expands back')
    equal(c.normalize().concise().spec, con, 'expanded form shortens')
    equal(ChannelSpec.coerce(con).normalize().spec, norm, 'short text re-read')
    equal(c.concise().numel(), total, 'count of short form')
    equal(dict(c.sizes()), {S.fused_text(s): len(w)
                            for s, w in zip(streams, want)}, 'stream sizes')
    equal([s.spec for s in c.streams()], [S.fused_text(s) for s in streams],
          'streams')
    equal([list(s.normalize().parsed) for s in c.streams()], want,
          'expanded streams')
    equal(list(c.keys()), [S.fused_text(s) for s in streams], 'keys')
    equal([v.spec for v in c.values()], [S.fused_text(s) for s in streams],
          'values')
    equal({k: v.spec for k, v in c.items()},
          {S.fused_text(s): S.fused_text(s) for s in streams}, 'items')
    flat = [x for w in want for x in w]
    equal(set(c.unique()), set(flat), 'unique channels')
    for name in flat[:3]:
        ensure(name in c, 'channel {!r} not contained', name)
    ensure('no such channel' not in c, 'contains an unnamed channel')
    equal(list(c.fuse().normalize().parsed), flat, 'early fusing all streams')
    equal([s.spec for s in c.split().streams()], flat, 'split')
    ensure(ChannelSpec.coerce(c) is c or ChannelSpec.coerce(c).spec == text,
           'coerce of itself')
    equal(c.spec, text, 'text afterwards')
    equal(c.normalize().spec, norm, 'expanded form, asked again')


def stream_cases():
    return st.fixed_dictionaries({'streams': S.channelspec_strategy()})


def run_int(case, rec):
    from delayed_image import ChannelSpec, FusedChannelSpec
    n = case['n']
    want = ['u{}'.format(i) for i in range(n)]
    f = FusedChannelSpec.coerce(n)
    rec.nontrivial(n > 1)
    equal(list(f.as_list()), want, 'names from a count')
    equal(f.numel(), n, 'count')
    c = ChannelSpec.coerce(n)
    equal(c.numel(), n, 'late-fused count')
    if n:
        equal([list(s.as_list()) for s in c.streams()], [want], 'streams')
    equal(c.spec, f.spec, 'both kinds agree')


CHECK = CheckModule('C17', [
    Facet('fused', fused_cases, run_fused, 9000, rule=(
        'random unique-channel fused spec (plain, item, slice, stepped, alias '
        'codes) built six ways against a list model; non-trivial = expansion '
        'or shortening changes the text')),
    Facet('streams', stream_cases, run_streams, 6000, rule=(
        'random late-fused spec; non-trivial = 2+ streams and some code '
        'standing for 2+ channels')),
    Facet('count', lambda: st.fixed_dictionaries({'n': st.integers(0, 300)}),
          run_int, 400, rule='spec made from a channel count; non-trivial = 2+'),
], assumptions=[
    'no channel is named twice inside one fused spec (documented rule) and no '
    'two late-fused streams are equal',
    'item indexes carry no leading zeros'])
