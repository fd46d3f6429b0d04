"""Worker process: reads case requests (JSON lines) on stdin, writes results on fd 3."""
import importlib
import json
import os
import sys
import time
import traceback
import warnings

warnings.filterwarnings("ignore")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
sys.path.insert(0, REPO)
sys.path.insert(1, os.path.join(REPO, "scripts"))
sys.setrecursionlimit(100000)


def setup():
    import logging

    logging.disable(logging.WARNING)
    import jax

    jax.config.update("jax_enable_x64", True)


def main():
    out = os.fdopen(int(os.environ["JSMT_FD"]), "w")
    sys.stdout = open(os.devnull, "w")
    setup()
    for line in sys.stdin:
        req = json.loads(line)
        try:
            mod = importlib.import_module("checks." + req["module"])
            t = time.time()
            r = mod.run(req["case"], req["seed"], time.time() + req["limit"])
            r.setdefault("wall_s", round(time.time() - t, 2))
        except Exception as e:
            r = dict(status="error", errors=[f"{type(e).__name__}: {e}\n{traceback.format_exc()[-3000:]}"])
        out.write(json.dumps(r) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
