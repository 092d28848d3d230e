#!/usr/bin/env python3
"""Entry point of every check:  python3 run.py <property-id> [--tier quick|thorough] [--replay FILE]

Re-executes itself with flavio's own interpreter in a hermetic environment
(fresh byte-code prefix, scratch HOME, one BLAS thread, fixed hash seed) and
then hands over to lib/harness.py.
"""
import os
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VENV_PY = '/opt/venv/bin/python'


def main():
    if os.environ.get('VERIF_CHILD') != '1':
        scratch = tempfile.mkdtemp(prefix='verif_')
        env = dict(os.environ)
        env.update({
            'VERIF_CHILD': '1', 'VERIF_SCRATCH': scratch,
            'PYTHONHASHSEED': '0', 'PYTHONPYCACHEPREFIX': os.path.join(scratch, 'pyc'),
            'MPLBACKEND': 'Agg', 'MPLCONFIGDIR': os.path.join(scratch, 'mpl'),
            'HOME': scratch, 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
            'MKL_NUM_THREADS': '1', 'PYTHONWARNINGS': 'ignore',
            'TMPDIR': scratch,
        })
        env.pop('PYTHONPATH', None)
        py = VENV_PY if os.path.exists(VENV_PY) else sys.executable
        import subprocess
        try:
            rc = subprocess.call([py, os.path.abspath(__file__)] + sys.argv[1:], env=env, cwd=HERE)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        sys.exit(rc)
    sys.path.insert(0, os.path.join(HERE, 'lib'))
    import harness
    sys.exit(harness.main(sys.argv[1:]))


if __name__ == '__main__':
    main()
