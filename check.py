#!/opt/venv/bin/python
"""check.py <property> [--replay FILE] [--cases N] [--seed N] [--selftest]"""
import importlib
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"


def reexec():
    """A clean environment: fixed hash seed, one numeric thread, the disk shim."""
    sys.path.insert(0, HERE)
    from dst import build
    shim = build.shim()
    env = dict(os.environ)
    env.update(PYTHONHASHSEED=env.get("DST_HASHSEED", "0"), PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               MKL_NUM_THREADS="1", BROWSER="true", MPLBACKEND="Agg", DST_STAGE="2", LD_PRELOAD=shim, TZ="UTC",
               COLUMNS="200", PYTHONWARNINGS="ignore")
    env.pop("PYTHONPATH", None)
    os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)


def main():
    if sys.argv[1:2] == ["setup"]:
        sys.path.insert(0, HERE)
        from dst import build
        build.setup()
        return
    if os.environ.get("DST_STAGE") != "2":
        reexec()
    sys.path.insert(0, HERE)
    repo = os.environ.get("DST_REPO", "/repo")
    sys.path.insert(0, repo)
    sys.dont_write_bytecode = True
    prop = sys.argv[1]
    from dst import harness
    try:
        mod = importlib.import_module("checks." + prop.lower())
        rc = harness.main(mod, sys.argv[2:])
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


main()
