"""Interpreter bootstrap: seams first, then the repository on sys.path."""
import os, sys, types, tempfile
REPO = os.environ.get("VERIF_REPO", "/repo")
def boot():
    sys.dont_write_bytecode = "PYTHONPYCACHEPREFIX" not in os.environ
    from . import osim
    osim.install()
    if REPO not in sys.path: sys.path.insert(0, REPO)
    sp = "/opt/venv/lib/pypy3.9/site-packages"
    if sp not in sys.path: sys.path.append(sp)
    sys.setrecursionlimit(1500)
