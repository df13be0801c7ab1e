"""Import order matters: seams, then third-party, then the code under test from /repo."""
from __future__ import annotations

import logging
import os
import sys
import warnings

REPO = os.environ.get("NEPS_SIM_REPO", "/repo")
sys.dont_write_bytecode = True
for k in ("OMP_NUM_THREADS", "MKL_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
    os.environ.setdefault(k, "1")
os.environ.setdefault("MPLBACKEND", "Agg")

from . import seams  # noqa: E402

_ctx = None


def boot():
    """Returns (neps, Context). Idempotent."""
    global _ctx
    if _ctx is not None:
        return _ctx
    seams.install()
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    import numpy  # noqa: F401
    import pandas  # noqa: F401
    import portalocker  # noqa: F401
    import torch
    import yaml  # noqa: F401

    torch.set_num_threads(1)
    seams.install_late()
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import neps

    assert os.path.realpath(neps.__file__).startswith(os.path.realpath(REPO) + "/"), neps.__file__
    import importlib

    for m in ("neps.runtime", "neps.status.status", "neps.state.filebased", "neps.state.neps_state",
              "neps.state.protocols", "neps.utils.common", "neps.utils.cli", "neps.plot.tensorboard_eval",
              "neps.optimizers.grid_search.optimizer", "neps.optimizers.random_search.optimizer",
              "neps.optimizers.multi_fidelity.hyperband", "neps.optimizers.bayesian_optimization.optimizer"):
        try:
            importlib.import_module(m)
        except ModuleNotFoundError:
            pass
    from . import cliobs, tbsim
    from .core import Context

    cliobs.install()
    tbsim.install()
    mods = [m for n, m in sorted(sys.modules.items())
            if (n == "neps" or n.startswith("neps.")) and m is not None]
    warnings.simplefilter("ignore")
    _ctx = (neps, Context(mods))
    return _ctx
