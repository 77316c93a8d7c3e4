#!/usr/bin/env python3
"""check.py ID            run the check of property ID (VERIF_SEED, VERIF_TIER)
   check.py --replay FILE re-run one replay file
   check.py all           run every check, one after another"""
import glob
import importlib
import os
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
ENV = dict(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONWARNINGS='ignore', MPLBACKEND='Agg',
           OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1')


def bootstrap():
    if os.environ.get('VERIF_BOOT') != '1':
        env = dict(os.environ, VERIF_BOOT='1', **ENV)
        env.pop('PYTHONPATH', None)
        os.execve(PY, [PY, '-s', os.path.abspath(__file__)] + sys.argv[1:], env)


def main():
    bootstrap()
    repo = os.environ.get('VERIF_REPO', '/repo')
    sys.path.insert(0, os.path.join(HERE, 'vendor'))
    sys.path.insert(0, HERE)
    sys.path.insert(0, repo)      # the library is always imported from the working tree
    sys.dont_write_bytecode = True
    with tempfile.TemporaryDirectory(prefix='verif_') as tmp:
        os.environ['MPLCONFIGDIR'] = tmp
        os.environ['VERIF_TMP'] = tmp
        os.chdir(tmp)             # anything a stray call writes by relative name lands in the scratch directory
        import quantificationlib
        assert os.path.abspath(quantificationlib.__file__).startswith(os.path.abspath(repo) + os.sep), \
            quantificationlib.__file__
        from pbt import core
        if sys.argv[1] == '--replay':
            import json
            path = os.path.join(HERE, sys.argv[2]) if not os.path.isabs(sys.argv[2]) else sys.argv[2]
            importlib.import_module('checks.' + json.load(open(path))['property'].lower())
            return core.replay(path)
        if sys.argv[1] == 'all':
            ids = sorted(os.path.basename(p)[:-3].upper() for p in glob.glob(os.path.join(HERE, 'checks', 'c[0-9]*.py')))
        else:
            ids = sys.argv[1:]
        rc = 0
        for i in ids:
            importlib.import_module('checks.' + i.lower())
            rc = max(rc, core.run_property(i))
        os.chdir(HERE)
        return rc


if __name__ == '__main__':
    sys.exit(main())
