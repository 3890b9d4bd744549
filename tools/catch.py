"""Run the checks against the planted bugs in seeded/ (in scratch copies).

    python tools/catch.py [--jobs N] [ID ...]

For each planted bug: which check is asked (its property), and whether it
reports a violation.
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(bug):
    src = os.path.join(VERIF, 'seeded', bug)
    prop = json.load(open(src + '/meta.json'))['property']
    tmp = tempfile.mkdtemp(prefix='catch_')
    try:
        repo = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', repo, symlinks=True)
        subprocess.run(['git', '-C', repo, 'apply', src + '/patch.diff'], check=True)
        env = dict(os.environ, VERIF_REPO=repo)
        r = subprocess.run([sys.executable, 'run.py', prop], cwd=VERIF, env=env,
                           capture_output=True, text=True)
        hit = [l for l in r.stdout.splitlines() if 'VIOLATION' in l]
        msg = [l.strip() for l in r.stdout.splitlines() if 'facet=' in l]
        return bug, prop, r.returncode, len(hit), (msg or [''])[0][:110]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    p = argparse.ArgumentParser()
    p.add_argument('--jobs', type=int, default=1)
    p.add_argument('ids', nargs='*')
    a = p.parse_args()
    ids = a.ids or sorted(os.listdir(os.path.join(VERIF, 'seeded')))
    with ThreadPoolExecutor(a.jobs) as pool:
        for bug, prop, rc, n, msg in pool.map(one, ids):
            print('{:38s} {} {} {}'.format(
                bug, prop, 'caught' if rc == 1 and n else 'MISSED', msg), flush=True)


if __name__ == '__main__':
    main()
