#!/usr/bin/env python3
"""run.py <ID> [--tier quick|thorough] [--facet NAME] [--replay FILE]"""
import os
import sys

PY = '/opt/venv/bin/python'
ENV = {'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0',
       'MPLBACKEND': 'Agg', 'OPENBLAS_NUM_THREADS': '1',
       'OMP_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1', 'TZ': 'UTC'}
if os.environ.get('VERIF_REEXEC') != '1':
    env = dict(os.environ)
    env.update(ENV)
    env.pop('PYTHONPATH', None)
    env['VERIF_REEXEC'] = '1'
    os.execve(PY, [PY, os.path.abspath(__file__)]+sys.argv[1:], env)

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, '/repo/src')
sys.path.insert(0, here)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import tempfile  # noqa: E402
os.environ.setdefault('HYPOTHESIS_STORAGE_DIRECTORY',
                      os.path.join(tempfile.gettempdir(), 'hyp'))
from vlib import core  # noqa: E402

if __name__ == '__main__':
    sys.modules['vlib.core'] = core
    sys.exit(core.main())
