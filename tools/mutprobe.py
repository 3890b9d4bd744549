"""All checks with few cases in one process; stops at the first failure."""
import os
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import run as R     # noqa: E402

ids = sys.argv[1].split(',')
frac = float(sys.argv[2])
seed = int(sys.argv[3])
tmp = tempfile.mkdtemp(prefix='verif-')
os.environ.update(R.child_env(tmp))
tempfile.tempdir = tmp
R.setup_path()
from vh import core     # noqa: E402
out = os.dup(1)
sys.stdout.flush()
null = os.open(os.devnull, os.O_WRONLY)
os.dup2(null, 1)
os.dup2(null, 2)


def done(text, rc):
    os.write(out, (text + '\n').encode())
    import shutil
    shutil.rmtree(tmp, ignore_errors=True)
    os._exit(rc)


for i in ids:
    t0 = time.time()
    try:
        check = R.load(i)
        for facet in check.facets:
            n = max(40, int(facet.quick * frac))

            def report(case, msg):
                done('{} {} {}'.format(i, facet.name, msg[:250]), 1)
            _, failure, _ = core.drive(facet, i, seed, 0, n,
                                       time.time() + 600, report)
            if failure is not None:
                report(*failure)
    except Exception as ex:
        done('{} error {!r}'.format(i, ex)[:300], 1)
    os.write(out, '{} {:.1f}\n'.format(i, time.time() - t0).encode())
done('held', 0)
