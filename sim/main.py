"""Entry point: python -m sim.main check|replay|digests|one ..."""

import importlib
import os
import sys
import warnings


def load(prop):
    """Import the library behind the seams, then the property's module."""
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
    from . import kernel
    import ctypes
    try:
        ctypes.CDLL(None).shim_present
    except AttributeError:
        print("storage seam is not loaded", file=sys.stderr)
        sys.exit(2)
    kernel.install_lock_seam()
    warnings.simplefilter("ignore")
    import torch
    torch.set_num_threads(1)
    torch.set_num_interop_threads(1)
    torch.manual_seed(0)
    import tqdm
    tqdm.tqdm.monitor_interval = 0
    import numpy  # noqa: F401
    import scipy.signal  # noqa: F401
    import ramannoodle.io.generic  # noqa: F401
    import ramannoodle.io.pymatgen  # noqa: F401
    import ramannoodle.pmodel.torch  # noqa: F401
    import ramannoodle.pmodel  # noqa: F401
    import ramannoodle.dataset.torch  # noqa: F401
    import ramannoodle.structure  # noqa: F401
    import ramannoodle.spectrum  # noqa: F401
    import ramannoodle
    if not os.path.abspath(ramannoodle.__file__).startswith(kernel.PACKAGE_DIR):
        print("not running the code in /repo", file=sys.stderr)
        sys.exit(2)
    kernel.install_clock_seam()
    kernel.install_numeric_seams()
    return importlib.import_module("checks." + prop.lower())


def main(argv):
    from . import runner
    command = argv[0]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if command == "check":
        if len(argv) > 2:
            tier = argv[2]
        return runner.check(load(argv[1]), tier, seed)
    if command == "replay":
        import json
        with open(argv[1], encoding="utf-8") as f:
            prop = json.load(f)["property"]
        return runner.replay(load(prop), argv[1])
    if command == "digests":      # digests ID seed runs workers
        import shutil
        mod = load(argv[1])
        base = runner.scratch_base()
        try:
            collected, _ = runner.search(mod, int(argv[2]), tier, int(argv[3]), 3600,
                                         int(argv[4]), base)
        finally:
            shutil.rmtree(base, ignore_errors=True)
        merged = {}
        for a in collected:
            merged.update(a["digests"])
            for v in a["violations"] + a["errors"]:
                print("PROBLEM", v)
        for i in sorted(merged):
            print(i, merged[i])
        return 0
    if command == "one":          # one ID index: run one index and show its log
        import json
        import shutil
        mod = load(argv[1])
        base = runner.scratch_base()
        try:
            sc = runner.scenario_for(mod, seed, int(argv[2]), tier)
            print(json.dumps(sc)[:3000])
            result = runner.run_scenario(mod, sc, base, want_log=True)
        finally:
            shutil.rmtree(base, ignore_errors=True)
        for line in (result.pop("log", None) or [])[-80:]:
            print("  " + line)
        print(json.dumps(result, indent=1)[:4000])
        return 0
    print("unknown command", file=sys.stderr)
    return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
