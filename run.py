#!/usr/bin/env python3
"""run.py ID [--tier quick|thorough] [--seed N] [--replay FILE]

Runs the monitors of one property against /repo's working tree."""
import os
import sys

PY = '/opt/venv/bin/python'
ENV = dict(PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OMP_NUM_THREADS='1',
           OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1',
           NUMEXPR_NUM_THREADS='1', BLOSC_NTHREADS='1', PYTHONHASHSEED='0',
           TZ='America/New_York', LC_ALL='C.UTF-8', VERIF_WRAPPED='1')


def boot():
    """Re-execute under the package's interpreter, with a private scratch
    directory that is removed at the end."""
    import shutil
    import subprocess
    import tempfile
    tmp = tempfile.mkdtemp(prefix='verif-')
    env = dict(os.environ, **ENV)
    if 'C30' in [a.upper() for a in sys.argv[1:2]]:
        env['TZ'] = 'UTC'      # the reference of the runs in other zones
    env.update(MPLCONFIGDIR=os.path.join(tmp, 'mpl'), TMPDIR=tmp,
               VERIF_TMP=tmp,
               PYTHONPATH='/repo/src' + os.pathsep
               + os.path.dirname(os.path.abspath(__file__)))
    try:
        return subprocess.call([PY, '-W', 'ignore::SyntaxWarning',
                                os.path.abspath(__file__)] + sys.argv[1:],
                               env=env)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--nproc', type=int)
    o = ap.parse_args()
    import glob
    here = os.path.dirname(os.path.abspath(__file__))
    hits = glob.glob(os.path.join(here, 'checks', o.id.lower() + '_*.py'))
    if len(hits) != 1:
        print('no such check:', o.id)
        return 3
    import solarspatialtools
    f = os.path.realpath(solarspatialtools.__file__)
    if not f.startswith('/repo/src/'):
        print('the package is not the one of /repo:', f)
        return 3
    from mon import core
    mod = 'checks.' + os.path.basename(hits[0])[:-3]
    return core.main(mod, o.tier, o.seed, o.replay, o.nproc)


if __name__ == '__main__':
    if os.environ.get('VERIF_WRAPPED') != '1':
        sys.exit(boot())
    sys.exit(main())
