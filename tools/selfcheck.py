#!/usr/bin/env python3
"""setup_cmd: nothing has to be built; verify that the interpreter and the libraries the checks need are there."""
import subprocess
import sys
code = ("import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); "
        "import jax, numpy, scipy, objax, flax, haiku, torch, plum, hypothesis; print('ok')")
sys.exit(subprocess.call(["/opt/venv/bin/python", "-c", code], env={"PATH": "/usr/bin:/bin", "JAX_PLATFORMS": "cpu",
                                                                     "HYPOTHESIS_NO_PLUGINS": "1"}))
