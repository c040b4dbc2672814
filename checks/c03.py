"""C03: the Frechet measure is the min over paths of the max local distance."""
import itertools

import numpy as np

from mc import paths as P
from mc.core import close, raises
from mc.elastic import CONSTRAINTS, Measure, series
from . import c01

LEVEL = "model_checking"
RULE = c01.RULE
ASSUMPTIONS = c01.ASSUMPTIONS

SQ = Measure("max", True)
PLAIN = Measure("max", False)


def run(ctx):
    from tslearn import metrics as M
    ctx.states += P.self_check()
    c01.drive(ctx, M.frechet, M.frechet_path, M.frechet_path_from_metric, SQ, PLAIN)
    # matrix variant under every constraint
    data = [series(3, 4), series(4, 3), series(5, 5), series(6, 4)]
    for kw in CONSTRAINTS:
        with ctx.case("cdist", kw=kw):
            ref, infeasible = np.zeros((4, 4)), False
            for i, j in itertools.product(range(4), repeat=2):
                a, b = (i, j) if i <= j else (j, i)
                v, _ = SQ.best(P.sq_local(data[a], data[b]), P.constraint_mask(len(data[a]), len(data[b]), kw))
                if v is None:
                    infeasible = True
                    continue
                ref[i, j] = 0 if i == j else np.sqrt(v)
            if infeasible:
                raises(RuntimeWarning, lambda: M.cdist_frechet(data, **kw), "infeasible constraint")
                continue
            close(M.cdist_frechet(data, **kw), ref, "self matrix")
            close(M.cdist_frechet(data, data, **kw)[np.triu_indices(4)], ref[np.triu_indices(4)], "cross matrix")
            close(M.cdist_frechet(data, n_jobs=2, be="pytorch", **kw), ref, "self matrix, PyTorch")
