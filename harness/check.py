#!/opt/venv/bin/python
"""check.py <PROPERTY> [--replay FILE]   (tier and seed from VERIF_TIER / VERIF_SEED)"""
import os
import sys

FORCED = {
    "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
    "SPEY_CHECKUPDATE": "OFF",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "TQDM_DISABLE": "1",
}
PY = "/opt/venv/bin/python"

if __name__ == "__main__":
    env = dict(os.environ)
    if any(env.get(k) != v for k, v in FORCED.items()) or "SPEY_OPTIMISER" in env or "SPEY_LOGLEVEL" in env:
        env.update(FORCED)
        env.pop("SPEY_OPTIMISER", None)
        env.pop("SPEY_LOGLEVEL", None)
        os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    src = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src")
    sys.path.insert(0, src)
    import warnings

    warnings.filterwarnings("ignore")
    import spey

    assert spey.__file__.startswith(src + "/"), spey.__file__
    spey.set_log_level(0)
    import vlib

    args = sys.argv[1:]
    replay = args[args.index("--replay") + 1] if "--replay" in args else None
    sys.exit(vlib.main(args[0], replay))
