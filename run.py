#!/usr/bin/env python
"""
run.py <ID>                     run the check of one property
run.py <ID> --replay FILE       run one saved case, without the library
run.py <ID> --facet NAME        only one facet (development)
"""
import argparse
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = sys.executable


def setup_path():
    sys.dont_write_bytecode = True
    sys.path[:0] = [VERIF, os.path.join(VERIF, 'vendor'), REPO]
    import warnings
    warnings.simplefilter('ignore')
    import delayed_image
    got = os.path.realpath(os.path.dirname(delayed_image.__file__))
    want = os.path.realpath(os.path.join(REPO, 'delayed_image'))
    if got != want:
        raise SystemExit('delayed_image came from {} not {}'.format(got, want))
    try:
        import cv2
        cv2.setNumThreads(1)
    except ImportError:
        pass


def load(prop):
    mod = importlib.import_module('checks.' + prop.lower())
    return mod.CHECK


def replay_path(prop, facet, worker):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, '{}-{}-{}.json'.format(prop, facet, worker))


def write_json(path, obj):
    tmp = path + '.tmp{}'.format(os.getpid())
    with open(tmp, 'w') as f:
        json.dump(obj, f, indent=1)
        f.write('\n')
    os.replace(tmp, path)


def saved_cases(prop):
    d = os.path.join(VERIF, 'regress', prop)
    if not os.path.isdir(d):
        return []
    out = []
    for fn in sorted(os.listdir(d)):
        if fn.endswith('.json'):
            with open(os.path.join(d, fn)) as f:
                out.append((os.path.join(d, fn), json.load(f)))
    return out


def known_findings(prop):
    """{abs replay path: text} of the listed, unrepaired findings."""
    path = os.path.join(VERIF, 'known_findings.txt')
    out = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding:'):
                head, _, what = line[len('finding:'):].strip().partition(' :: ')
                kv = dict(p.split('=', 1) for p in head.split())
                if kv.get('property') == prop:
                    out[os.path.join(VERIF, kv['replay'])] = what
    return out


def worker(args):
    setup_path()
    from vh import core
    prop = args.prop
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    check = load(prop)
    res = {'facets': {}, 'failure': None, 'truncated': False}
    deadline_at = args.started + float(os.environ.get(
        'VERIF_BUDGET_S', '420' if tier == 'quick' else '10000000'))
    shard, nsh = args.worker, args.nworkers

    def report(facet, case, msg, shrunk):
        path = replay_path(prop, facet, shard)
        write_json(path, {'property': prop, 'facet': facet, 'case': case,
                          'message': msg, 'shrunk': shrunk,
                          'how': 'run.py {} --replay <this file>'.format(prop)})
        res['failure'] = {'facet': facet, 'path': path, 'msg': msg}
        write_json(args.out, res)

    for facet in check.facets:
        if args.facet and facet.name != args.facet:
            continue
        total = facet.quick if tier == 'quick' else facet.thorough
        total = int(total * float(os.environ.get('VERIF_SCALE', '1')))
        count = total // nsh + (1 if shard < total % nsh else 0)
        if count <= 0:
            continue
        t0 = time.time()
        stats, failure, trunc = core.drive(
            facet, prop, seed, shard, count, deadline_at,
            lambda case, msg: report(facet.name, case, msg, False))
        res['facets'][facet.name] = {
            'evaluations': stats.evaluations,
            'nontrivial': sorted(stats.nontrivial),
            'labels': stats.labels,
            'samples': stats.samples,
            'seconds': round(time.time() - t0, 2),
        }
        res['truncated'] = res['truncated'] or trunc
        if failure is not None:
            report(facet.name, failure[0], failure[1], True)
            break
    res['done'] = True
    write_json(args.out, res)


def run_saved(args):
    """The saved-input tier; prints one JSON line of results."""
    setup_path()
    from vh import core
    check = load(args.prop)
    known = known_findings(args.prop)
    out = {'n': 0, 'failed': [], 'known': []}
    todo = [(p, r) for p, r in saved_cases(args.prop)]
    for p in known:
        with open(p) as f:
            todo.append((p, json.load(f)))
    for path, rep in todo:
        facet = check.facet(rep['facet'])
        out['n'] += 1
        try:
            core.run_case(facet, rep['case'], core.Rec())
        except Exception as ex:
            if core.is_own_error(ex):
                raise
            msg = core.describe(ex)
            listed = path in known and rep.get('expect', '') in msg
            (out['known'] if listed else out['failed']).append([path, msg])
    write_json(args.out, out)


def child_env(tmp):
    env = dict(os.environ)
    env.update({
        'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1',
        'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
        'MKL_NUM_THREADS': '1', 'OPENCV_FOR_THREADS_NUM': '1',
        'GDAL_NUM_THREADS': '1',
        'XDG_CACHE_HOME': os.path.join(tmp, 'xdg'),
        'HOME': tmp, 'TMPDIR': tmp, 'VERIF_TMP': tmp,
        'HYPOTHESIS_STORAGE_DIRECTORY': os.path.join(tmp, 'hypo'),
        'PYTHONWARNINGS': 'ignore',
    })
    for k in list(env):
        if k.startswith(('DELAYED_IMAGE_', 'GDAL_DISABLE')):
            del env[k]
    return env


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--replay')
    ap.add_argument('--facet')
    ap.add_argument('--worker', type=int)
    ap.add_argument('--saved', action='store_true')
    ap.add_argument('--nworkers', type=int, default=int(
        os.environ.get('VERIF_WORKERS', '8')))
    ap.add_argument('--out')
    ap.add_argument('--started', type=float, default=None)
    args = ap.parse_args()
    if args.worker is not None:
        return worker(args)
    if args.saved:
        return run_saved(args)

    if args.replay:
        tmp = tempfile.mkdtemp(prefix='verif-')
        try:
            os.environ.update(child_env(tmp))
            tempfile.tempdir = tmp
            setup_path()
            from vh import core
            check = load(args.prop)
            with open(args.replay) as f:
                rep = json.load(f)
            try:
                core.run_case(check.facet(rep['facet']), rep['case'], core.Rec())
            except Exception as ex:
                if core.is_own_error(ex):
                    raise
                import traceback
                traceback.print_exc()
                print('VIOLATION property={} replay={}'.format(
                    args.prop, os.path.abspath(args.replay)))
                return 1
            print('held on the replayed case')
            return 0
        finally:
            shutil.rmtree(tmp, ignore_errors=True)

    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    hard = float(os.environ.get('VERIF_HARD_S',
                                '720' if tier == 'quick' else '10000000'))
    tmp = tempfile.mkdtemp(prefix='verif-')
    procs = []
    try:
        rdir = os.path.join(VERIF, 'replays')
        if os.path.isdir(rdir):
            for fn in os.listdir(rdir):
                if fn.startswith(args.prop + '-'):
                    os.unlink(os.path.join(rdir, fn))
        base = [PY, os.path.join(VERIF, 'run.py'), args.prop,
                '--started', str(t0)]
        outs = []

        def start(extra, name):
            wtmp = os.path.join(tmp, name)
            os.makedirs(wtmp)
            out = os.path.join(wtmp, 'result.json')
            err = open(os.path.join(wtmp, 'err.txt'), 'w')
            p = subprocess.Popen(base + extra + ['--out', out], cwd=VERIF,
                                 env=child_env(wtmp), stdout=err, stderr=err,
                                 start_new_session=True)
            procs.append(p)
            outs.append((name, out, os.path.join(wtmp, 'err.txt'), p))

        if not args.facet:
            start(['--saved'], 'saved')
        extra = ['--facet', args.facet] if args.facet else []
        for i in range(args.nworkers):
            start(['--worker', str(i), '--nworkers', str(args.nworkers)]
                  + extra, 'w{}'.format(i))
        killed = False
        fail_seen = None
        while any(p.poll() is None for p in procs):
            time.sleep(0.1)
            now = time.time()
            if fail_seen is None:
                for name, out, _, p in outs:
                    if name != 'saved' and os.path.exists(out):
                        try:
                            d = json.load(open(out))
                        except ValueError:
                            continue
                        if d.get('failure'):
                            fail_seen = now
            if now - t0 > hard or (fail_seen and now - fail_seen > 100):
                killed = True
                for p in procs:
                    if p.poll() is None:
                        os.killpg(p.pid, 9)
        merged = {}
        failures = []
        known = []
        errors = []
        truncated = False
        nsaved = 0
        for name, out, err, p in outs:
            d = None
            if os.path.exists(out):
                d = json.load(open(out))
            if name == 'saved':
                if d is None:
                    errors.append((name, open(err).read()[-4000:]))
                    continue
                nsaved = d['n']
                failures += [(pth, msg, 'saved') for pth, msg in d['failed']]
                known += d['known']
                continue
            if d is not None and d.get('failure'):
                f = d['failure']
                failures.append((f['path'], f['msg'], f['facet']))
            if d is None or not d.get('done'):
                if d is None or not d.get('failure'):
                    if killed:
                        truncated = True
                    else:
                        errors.append((name, open(err).read()[-4000:]))
            if d is None:
                continue
            truncated = truncated or d['truncated']
            for fname, fs in d['facets'].items():
                m = merged.setdefault(fname, {
                    'evaluations': 0, 'nontrivial': set(), 'labels': {},
                    'samples': [], 'seconds': 0})
                m['evaluations'] += fs['evaluations']
                m['nontrivial'].update(fs['nontrivial'])
                m['seconds'] += fs['seconds']
                for k, v in fs['labels'].items():
                    m['labels'][k] = m['labels'].get(k, 0) + v
                m['samples'] += fs['samples']
        setup_path()
        check = load(args.prop)
        rules = {f.name: f.rule for f in check.facets}
        samples = []
        for fname, m in merged.items():
            pool = m['samples']
            picks = pool[-1:] + pool[:1]
            samples += [{'facet': fname, 'case': c} for c in picks]
        evaluations = sum(m['evaluations'] for m in merged.values())
        distinct = sum(len(m['nontrivial']) for m in merged.values())
        wall = round(time.time() - t0, 2)
        evidence = {
            'property': args.prop, 'tier': tier if tier in (
                'quick', 'thorough') else 'quick',
            'seed': seed, 'level': 'exploration',
            'coverage': {
                'evaluations': evaluations,
                'distinct_nontrivial': distinct,
                'rule': ' | '.join('{}: {}'.format(k, v)
                                   for k, v in rules.items() if k in merged),
                'samples': samples,
                'facets': {k: {
                    'evaluations': m['evaluations'],
                    'distinct_nontrivial': len(m['nontrivial']),
                    'labels': dict(sorted(m['labels'].items())),
                    'cpu_s': round(m['seconds'], 1)}
                    for k, m in merged.items()},
                'saved_inputs_replayed': nsaved,
                'workers': args.nworkers,
                'stopped_by_time_budget': truncated,
            },
            'assumptions': check.assumptions,
            'wall_s': wall,
            'violations': len(failures),
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        write_json(os.path.join(VERIF, 'evidence', args.prop + '.json'),
                   evidence)
        for path, msg in known:
            print('KNOWN-FINDING: property={} {}'.format(
                args.prop, known_findings(args.prop).get(path, msg)))
        if failures:
            for path, msg, facet in failures:
                print('VIOLATION property={} replay={}'.format(
                    args.prop, path))
                print('    facet={} {}'.format(facet, msg[:600]))
            return 1
        if errors:
            for name, txt in errors:
                print('HARNESS-ERROR {}\n{}'.format(name, txt),
                      file=sys.stderr)
            return 3
        if evaluations == 0:
            print('HARNESS-ERROR nothing was evaluated', file=sys.stderr)
            return 3
        print('{}: held on {} cases ({} distinct non-trivial) in {} s{}'.format(
            args.prop, evaluations, distinct, wall,
            ' [stopped by time budget]' if truncated else ''))
        if os.environ.get('VERIF_VERBOSE'):
            print(json.dumps(evidence['coverage']['facets'], indent=1))
        return 0
    finally:
        for p in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
        for p in procs:
            p.wait()
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
