"""Sensor / channel specifications."""
import re

from hypothesis import strategies as st
from vh import specs as S
from vh.core import CheckModule, Facet, ensure, equal

# A case is a list of items {'sensors': None | [names], 'paren': bool,
#   'chans': None | [fused,...]}; fused codes use no steps (the sensor grammar
# has none).


def item_text(it):
    txt = ''
    if it['sensors'] is not None:
        ss = it['sensors']
        if len(ss) > 1 or it['sparen']:
            txt += '({}):'.format(','.join(ss))
        else:
            txt += ss[0] + ':'
    ch = it['chans']
    if ch:
        if it['sensors'] is None:
            # "(a,b)" without a sensor is ambiguous; written out instead
            txt += ','.join(S.fused_text(f) for f in ch)
        elif len(ch) > 1 or it['cparen']:
            txt += '({})'.format(','.join(S.fused_text(f) for f in ch))
        else:
            txt += S.fused_text(ch[0])
    return txt


def spec_text(items):
    return ','.join(item_text(it) for it in items)


def pairs(items, aliases=False):
    """The (sensor, channel list) streams, in written order."""
    out = []
    for it in items:
        sensors = it['sensors'] if it['sensors'] is not None else ['*']
        chans = it['chans'] or [[]]
        for s in sensors:
            for f in chans:
                out.append((s, S.expand_all(f, aliases)))
    return out


def norm_text(prs):
    return ','.join('{}:{}'.format(s, '|'.join(c)) for s, c in prs)


def item_strategy(empty=True):
    fused = S.fused_strategy(1, 4, steps=False)
    chans = st.lists(fused, min_size=1, max_size=3)
    sensors = st.lists(st.sampled_from(S.SENSORS), min_size=1, max_size=3,
                       unique=True)
    full = st.fixed_dictionaries({
        'sensors': st.one_of(sensors, sensors, st.none()),
        'chans': chans, 'sparen': st.booleans(), 'cparen': st.booleans()})
    if not empty:
        return full
    none = st.fixed_dictionaries({
        'sensors': sensors, 'chans': st.none(), 'sparen': st.booleans(),
        'cparen': st.just(False)})
    return st.one_of(full, full, full, full, none)


def shared_items(empty=True):
    """Items that reuse a small pool of fused specs, so sensors share them."""
    def build(t):
        pool, shape = t
        out = []
        for sensors, picks, sp, cp in shape:
            out.append({'sensors': sensors, 'sparen': sp, 'cparen': cp,
                        'chans': [pool[i % len(pool)] for i in dict.fromkeys(picks)]})
        return out
    return st.tuples(
        st.lists(S.fused_strategy(1, 3, steps=False), min_size=1, max_size=3),
        st.lists(st.tuples(
            st.lists(st.sampled_from(S.SENSORS[:5]), min_size=1, max_size=3, unique=True),
            st.lists(st.integers(0, 2), min_size=1, max_size=3),
            st.booleans(), st.booleans()), min_size=1, max_size=4)).map(build)


def run_forms(case, rec):
    from delayed_image import SensorChanSpec
    from delayed_image.sensorchan_spec import FusedSensorChanSpec
    items = case['items']
    text = spec_text(items)
    prs = pairs(items)
    full = pairs(items, aliases=True)
    rec.label('items-{}'.format(len(items)))
    has_empty = any(not c for _, c in prs)
    rec.label('empty-chans' if has_empty else 'all-chans')
    rec.nontrivial(len(prs) > len(items) and len(prs) > 2)
    sc = SensorChanSpec.coerce(text)
    equal(sc.spec, text, 'text')
    equal(sc.normalize().spec, norm_text(prs), 'expanded form')
    equal(sc.normalize().normalize().spec, norm_text(prs), 'expanding twice')
    equal(sc.numel(), sum(len(c) for _, c in full), 'channel count')
    streams = sc.streams()
    equal([(s.sensor.spec, list(s.chans.parsed)) for s in streams], prs,
          'streams')
    for s, (sen, ch), (_, fch) in zip(streams, prs, full):
        equal(s.spec, '{}:{}'.format(sen, '|'.join(ch)), 'stream text')
        equal(s.numel(), len(fch), 'stream channel count')
        equal(s.normalize().spec, s.spec, 'a stream is expanded')
        if case.get('strict'):
            # known finding: the short form of one stream is not short
            equal(s.concise().spec, '{}:{}'.format(
                sen, '|'.join(S.concise_model(fch))), 'short form of a stream')
        equal(list(FusedSensorChanSpec.coerce(s.concise().spec).chans
                   .normalize().parsed), fch, 'short stream re-read')
        equal([(x.sensor.spec, x.chans.spec) for x in s.split().streams()],
              [(sen, c) for c in fch] or [(sen, '')], 'stream split')
    equal([(s.sensor.spec, s.chans.spec) for s in sc.split().streams()],
          [(sen, c) for sen, ch in full for c in (ch or [''])], 'split')
    con = sc.concise()
    want = sorted(set((s, '|'.join(c)) for s, c in full))

    def norm_set(x):
        return sorted(set((s.sensor.spec, '|'.join(s.chans.normalize().parsed))
                          for s in x.streams()))
    if not has_empty:
        # (a documented limit: the short form of channel-less items may not
        # be readable again)
        equal(norm_set(con), want, 'short form denotes the same streams')
        if len(set(want)) == len(full):
            # (with repeats the documented first result is "(S):x")
            equal(con.concise().spec, con.spec, 'shortening twice')
        equal(norm_set(con.concise()), want, 'shortening twice, streams')
        equal(norm_set(con.normalize()), want, 'short then expanded')
        ensure(sc.normalize().concise().spec is not None, 'expanded shortens')
        equal(norm_set(sc.normalize().concise()), want,
              'expanded then short denotes the same streams')
    equal(sc.spec, text, 'text afterwards')


def form_cases():
    return st.fixed_dictionaries({'items': st.one_of(
        st.lists(item_strategy(), min_size=1, max_size=4), shared_items())})


def run_ops(case, rec):
    from delayed_image import ChannelSpec, FusedChannelSpec, SensorChanSpec
    a, b = case['a'], case['b']
    sa, sb = SensorChanSpec.coerce(spec_text(a)), SensorChanSpec.coerce(spec_text(b))
    pa, pb = pairs(a), pairs(b)
    empty = SensorChanSpec.coerce('')
    both = spec_text(a) + ',' + spec_text(b)
    equal(sa.late_fuse(sb).spec, both, 'late fusion')
    equal((sa + sb).spec, both, 'late fusion operator')
    equal(sum([sa, sb]).spec, both, 'sum')
    equal(sa.late_fuse(empty, sb).spec, both, 'late fusion with nothing')
    equal((sa + sb).normalize().spec, norm_text(pa + pb), 'fused then expanded')
    equal((sa + sb).numel(), sa.numel() + sb.numel(), 'counts add up')
    equal(empty.normalize().spec, '*:', 'empty spec expanded')
    if case.get('strict'):
        # known finding: these fail for the empty spec
        equal(empty.numel(), 0, 'empty spec counts nothing')
        equal(empty.concise().spec, '*:', 'empty spec shortened')
    sensors = sorted(set(s for s, _ in pa) | {'nowhere', '*'})
    hit = False
    for sen in sensors:
        m = sa.matching_sensor(sen)
        if sen == '*':
            want = pa
        else:
            want = [(s, c) for s, c in pa if s == sen or s == '*']
        if want:
            got = [(s.sensor.spec, list(s.chans.parsed)) for s in m.streams()]
            equal(got, want, 'streams matching {!r}'.format(sen))
            hit = hit or len(want) < len(pa)
        else:
            equal(m.spec, sen + ':', 'no stream matches {!r}'.format(sen))
            equal(m.numel(), 0, 'no channel matches {!r}'.format(sen))
        names = [n for _, c in want for n in c]
        if want and len(set(s for s, _ in want)) == 1:
            ch = m.chans
            equal([list(s.parsed) for s in ch.streams() if s.parsed],
                  [c for _, c in want if c], 'channels of a one-sensor spec')
            equal(ch.fuse().spec.split('|') if names else [''],
                  names or [''], 'all channels of a one-sensor spec')
        elif want:
            try:
                m.chans
            except Exception:
                pass
            else:
                ensure(False, 'channels-only view given for several sensors')
    rec.nontrivial(hit)
    # channel specs without sensors mean "any sensor"
    streams = [f for it in a for f in (it['chans'] or []) if f]
    if streams:
        txt = S.channel_text(streams)
        for obj in (ChannelSpec.coerce(txt), txt):
            equal(SensorChanSpec.coerce(obj).normalize().spec, norm_text(
                [('*', S.expand_all(f, False)) for f in streams]),
                'spec without a sensor')
        f0 = FusedChannelSpec.coerce(S.fused_text(streams[0]))
        equal(SensorChanSpec.coerce(f0).normalize().spec, norm_text(
            [('*', S.expand_all(streams[0], False))]), 'fused spec as input')


def op_cases():
    it = st.one_of(st.lists(item_strategy(), min_size=1, max_size=3),
                   shared_items())
    return st.fixed_dictionaries({'a': it, 'b': it})


# ---- independent reader of the documented grammar --------------------------
IDEN = r'[A-Za-z_*][A-Za-z0-9_ *\-]*'
INT = r'[0-9]+'
CODE = '(?:{0}(?:\\.{1}:{1}|:{1}:{1}|:{1}|\\.{1})?)'.format(IDEN, INT)
FUSED = r'{0}(?:\|{0})*'.format(CODE)
SEQ = r'\({0}(?:,{0})*\)'.format(FUSED)
LHS = r'(?:{0}:|\({0}(?:,{0})*\):)'.format(IDEN)
RHS = r'(?:{}|{})'.format(FUSED, SEQ)
ITEM = r'(?:{0}{1}|{2}|{0})'.format(LHS, RHS, FUSED)
STREAM = re.compile(r'{0}(?:,{0})*'.format(ITEM))
# "(a,b)" without a sensor before or ":" behind: the grammar is ambiguous
# there, so neither reading nor refusing is demanded
LOOSE = re.compile(r'{0}(?:,{0})*'.format(
    r'(?:{0}{1}|{1}|{0})'.format(LHS, RHS)))


def accepts(text):
    return STREAM.fullmatch(text) is not None


def run_grammar(case, rec):
    from delayed_image import SensorChanSpec
    import contextlib
    import io
    text = case['text']
    ok = accepts(text)
    if not ok and LOOSE.fullmatch(text):
        rec.label('ambiguous')
        return
    rec.label('accepted' if ok else 'rejected')
    rec.nontrivial(not ok or ('(' in text and ',' in text))
    if ok:
        got = SensorChanSpec.coerce(text).normalize().spec
        ensure(accepts(got), 'expanded form {!r} is not readable', got)
        equal(SensorChanSpec.coerce(got).normalize().spec, got,
              'expanding twice')
    else:
        if text == '':
            return
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                got = SensorChanSpec.coerce(text).normalize().spec
        except Exception:
            return
        ensure(False, 'malformed text {!r} was read as {!r}', text, got)


def grammar_cases():
    def mutate(t):
        items, edits = t
        s = spec_text(items)
        for kind, pos, ch in edits:
            p = pos % (len(s) + 1)
            if kind == 'del':
                s = s[:p] + s[p + 1:]
            elif kind == 'ins':
                s = s[:p] + ch + s[p:]
            else:
                s = s[:p] + ch + s[p + 1:]
        return {'text': s}
    ch = st.sampled_from(list('|,:().*aB1 -_0'))
    return st.tuples(
        st.lists(item_strategy(), min_size=1, max_size=3),
        st.lists(st.tuples(st.sampled_from(['del', 'ins', 'sub']),
                           st.integers(0, 60), ch), max_size=3)).map(mutate)


CHECK = CheckModule('C20', [
    Facet('forms', form_cases, run_forms, 4000, rule=(
        'random sensor/channel spec from its abstract form; expanded, short, '
        'split, stream views against that form; non-trivial = grouping makes '
        '3+ streams out of fewer items')),
    Facet('ops', op_cases, run_ops, 2500, rule=(
        'late fusion and sensor matching against lists of (sensor, channels); '
        'non-trivial = matching keeps some streams and drops others')),
    Facet('grammar', grammar_cases, run_grammar, 4000, rule=(
        'mutated spec text against an independent reader of the documented '
        'grammar; non-trivial = malformed, or grouped')),
], assumptions=[
    'short forms are only re-read when every item names a channel (documented '
    'limit)', 'sensor names inside one parenthesis are distinct'])
