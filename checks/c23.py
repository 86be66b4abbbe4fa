"""Mean over the nearest neighbours, with missing vectors.

The real function is run on a symbolic grid (values and NaN flags symbolic) and
compared, for all values, with the definition (mean over the non-missing vectors of
the 8 surrounding points).
"""

import itertools

import fluidimage.calcul.mean_neighbors
import numpy as np

from symx.core import land, lnot, ite, is_sym, lor, NAN
from symx.runner import Harness

ASSUMPTIONS = [
    "float32 arithmetic modelled with real numbers (no rounding, no overflow)",
    "the Python source of the boosted function is run, not the Pythran binary",
]


def isnan(x):
    return np.isnan(x)


def mean_neighbors(eng, shape, nan_points=None):
    from fluidimage.calcul.mean_neighbors import mean_neighbors_xy

    ny, nx = shape
    # at most len(nan_points) points may be missing, the others are plain values
    dxs = []
    dys = []
    for i in range(ny * nx):
        may = nan_points is None or i in nan_points
        dxs.append(eng.real(f"dx_{i}", nan=may))
        dys.append(eng.real(f"dy_{i}", nan=may))
    dxs = eng.array(dxs)
    dys = eng.array(dys)
    iy = np.arange(ny) * 8
    ix = np.arange(nx) * 8
    mx, my = mean_neighbors_xy(dxs.copy(), dys.copy(), iy, ix)
    eng.check(len(mx) == nx * ny and len(my) == nx * ny, "shape")
    missing = [bool(lor(isnan(a), isnan(b))) for a, b in zip(dxs, dys)]
    for i0 in range(ny):
        for i1 in range(nx):
            i = i0 * nx + i1
            neigh = [
                (i0 + a) * nx + i1 + b
                for a, b in itertools.product((-1, 0, 1), repeat=2)
                if (a, b) != (0, 0) and 0 <= i0 + a < ny and 0 <= i1 + b < nx
            ]
            good = [j for j in neigh if not missing[j]]
            for comp, out, vals in (("x", mx, dxs), ("y", my, dys)):
                if missing[i] or not good:
                    eng.check(isnan(out[i]), "missing -> no mean")
                else:
                    expected = sum(vals[j] for j in good) / len(good)
                    eng.check_close(out[i], expected, "mean of the valid neighbours")


def _cases(shapes):
    cases = []
    for ny, nx in shapes:
        n = ny * nx
        if n <= 4:
            cases.append(dict(shape=(ny, nx)))
        else:
            # the missing vectors are around any corner / edge / core point
            for c in range(n):
                i0, i1 = divmod(c, nx)
                pts = [c]
                for a, b in itertools.product((-1, 0, 1), repeat=2):
                    if (a, b) != (0, 0) and 0 <= i0 + a < ny and 0 <= i1 + b < nx:
                        pts.append((i0 + a) * nx + i1 + b)
                cases.append(dict(shape=(ny, nx), nan_points=tuple(pts[:3])))
    return cases


HARNESSES = [
    Harness(
        mean_neighbors,
        quick=_cases([(2, 2), (2, 3), (3, 3), (4, 3)]),
        thorough=_cases([(2, 2), (2, 3), (3, 3), (3, 4), (4, 4), (5, 4)]),
        labels=["mean of the valid neighbours", "missing -> no mean"],
        bounds="grids 2x2 (all missing patterns) to 4x3 (quick) or 5x4; any values; "
        "3 possibly missing points",
    )
]
