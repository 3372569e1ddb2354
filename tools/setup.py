#!/usr/bin/env python3
"""sanity of the offline environment; nothing to build (pure Python)"""
import subprocess
import sys
code = ("import sys; sys.path.insert(0,'/repo/src'); "
        "sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages');"
        "import hypothesis, numpy, scipy, bitstruct; print('ok', hypothesis.__version__)")
sys.exit(subprocess.call(['/opt/venv/bin/python', '-B', '-c', code]))
