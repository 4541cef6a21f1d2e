"""Import environment: the code under test is /repo's working tree; nothing is written there."""
import os
import sys

REPO = os.environ.get('PYVC_REPO', '/repo')
sys.dont_write_bytecode = True


def setup():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    sp = '/opt/venv/lib/python3.12/site-packages'
    if sp not in sys.path and os.path.isdir(sp):
        sys.path.append(sp)
    import warnings
    warnings.simplefilter("ignore")
    sys.setrecursionlimit(20000)
