"""
Shared machinery of every check: seeds, facets, Hypothesis driving, shrinking,
replay files, evidence, saved-input tier.

A *facet* is one executable oracle of a property: a Hypothesis strategy that
generates a plain JSON-able case, and a function that builds the objects from
the case, runs the code under test, and raises if the property is broken.
Everything random lives in the strategy, so a case replays without Hypothesis.
"""
import gc
import hashlib
import json
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Broken(AssertionError):
    """The property does not hold for this case."""


class HarnessError(Exception):
    """The harness itself is at fault (never reported as a violation)."""


class CaseHang(BaseException):
    pass


def ensure(cond, msg, *args):
    if not cond:
        if callable(msg):
            msg = msg()
        raise Broken(msg.format(*args) if args else msg)


def equal(got, want, what):
    ok = got == want
    try:
        ok = bool(ok)
    except Exception:
        ok = False
    if not ok:
        raise Broken('{}: got {!r}, expected {!r}'.format(what, got, want))


class Rec:
    """What one case turned out to exercise."""
    __slots__ = ('labels', 'is_nontrivial')

    def __init__(self):
        self.labels = []
        self.is_nontrivial = False

    def label(self, *names):
        self.labels.extend(names)

    def nontrivial(self, flag=True):
        if flag:
            self.is_nontrivial = True


class Facet:
    def __init__(self, name, strategy, run, quick, thorough=None, rule=''):
        self.name = name
        self.strategy = strategy      # zero-arg callable giving a strategy
        self.run = run                # run(case, rec)
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12
        self.rule = rule


class CheckModule:
    def __init__(self, prop, facets, assumptions=()):
        self.prop = prop
        self.facets = facets
        self.assumptions = list(assumptions)

    def facet(self, name):
        for f in self.facets:
            if f.name == name:
                return f
        raise HarnessError('no facet {!r} in {}'.format(name, self.prop))


def canon(case):
    return json.dumps(case, sort_keys=True)


def derive_seed(*parts):
    txt = '/'.join(map(str, parts))
    return int.from_bytes(hashlib.sha256(txt.encode()).digest()[:8], 'big')


CPU_LIMIT_S = 90.0


def _on_alarm(signum, frame):
    raise CaseHang()


def run_case(facet, case, rec):
    """
    Run one case.  Any exception that reaches us out of a generated *valid*
    case is a violation, except errors the harness declares its own.
    """
    signal.signal(signal.SIGPROF, _on_alarm)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT_S)
    try:
        facet.run(case, rec)
    except CaseHang:
        raise Broken('no answer within {} s of CPU time (cases take '
                     'milliseconds)'.format(CPU_LIMIT_S)) from None
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def is_own_error(ex):
    import hypothesis.errors as he
    return isinstance(ex, (HarnessError, MemoryError, he.HypothesisException,
                           he.InvalidArgument))


def describe(ex):
    tb = traceback.extract_tb(ex.__traceback__)
    where = ''
    for fr in reversed(tb):
        if 'delayed_image' in fr.filename:
            where = ' at {}:{} in {}'.format(
                os.path.basename(fr.filename), fr.lineno, fr.name)
            break
    try:
        txt = str(ex)
    except Exception:
        txt = '<unprintable>'
    return '{}: {}{}'.format(type(ex).__name__, txt[:1500], where)


class FacetStats:
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.seen = 0

    def note(self, key, case, rec):
        self.evaluations += 1
        for name in set(rec.labels):
            self.labels[name] = self.labels.get(name, 0) + 1
        if rec.is_nontrivial:
            h = hashlib.sha1(key.encode()).hexdigest()[:20]
            if h not in self.nontrivial:
                self.nontrivial.add(h)
                n = len(self.nontrivial)
                # the 1st, then ever sparser, so samples are not all tiny
                if n in (1, 4, 16, 64, 256) and len(key) < 3000:
                    self.samples.append(case)


def drive(facet, prop, seed, shard, count, deadline_at, on_fail):
    """
    Run ``count`` generated cases of one facet.  Returns (stats, failure)
    with failure = None or (case, message).
    """
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.internal.conjecture import engine as _engine
    _engine.MAX_SHRINKING_SECONDS = 60

    stats = FacetStats()
    last = {}
    state = {'n': 0, 'truncated': False}

    def body(case):
        if time.time() > deadline_at and not last:
            state['truncated'] = True
            return
        key = canon(case)
        rec = Rec()
        state['n'] += 1
        if state['n'] % 200 == 0:
            gc.collect()
        try:
            run_case(facet, case, rec)
        except Exception as ex:
            if is_own_error(ex):
                raise
            first = not last
            last['case'] = json.loads(key)
            last['msg'] = describe(ex)
            if first:
                on_fail(last['case'], last['msg'])
            raise
        finally:
            stats.note(key, case, rec)

    test = given(facet.strategy())(body)
    test = settings(
        max_examples=max(1, count), database=None, deadline=None,
        derandomize=False, phases=(Phase.generate, Phase.shrink),
        suppress_health_check=list(HealthCheck),
        report_multiple_bugs=False, print_blob=False,
        verbosity=hypothesis.Verbosity.quiet,
    )(test)
    test = hypothesis.seed(derive_seed(seed, prop, facet.name, shard))(test)
    failure = None
    try:
        test()
    except BaseException as ex:
        if last:
            failure = (last['case'], last['msg'])
        elif isinstance(ex, (KeyboardInterrupt, SystemExit)):
            raise
        else:
            raise HarnessError('facet {} of {}: {}\n{}'.format(
                facet.name, prop, describe(ex),
                traceback.format_exc())) from ex
    return stats, failure, state['truncated']
