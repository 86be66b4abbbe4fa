"""Subpixel refinement.

`SubPix.compute_subpix` (and `apply_subpix` of a correlation object) is run on maps with
symbolic values, at symbolic integer positions.
"""

import fluidimage.calcul.correl
import fluidimage.calcul.subpix
import numpy as np

from symx.core import close, is_sym, land, lnot, lor, poly_close, to_real
from symx.runner import Harness

ASSUMPTIONS = [
    "real arithmetic; exp and log are uninterpreted functions with log(exp(x)) = x and "
    "exp(x) > 0",
    "numpy.linalg.pinv is computed exactly (rationals) in the symbolic runs",
    "neighbourhoods for which a method divides a non-zero number by zero (infinite "
    "displacement) are outside of the encoding",
]


def get_subpix(method, n):
    from fluidimage.calcul.subpix import SubPix

    return SubPix(method=method, nsubpix=n)


def to32(eng, a):
    return a if eng.symbolic else a.astype("float32")


def gaussian(eng, n, pos, shape):
    """exact on a Gaussian peak with its axes along the grid"""
    x0, y0 = eng.real("x0", -1, 1), eng.real("y0", -1, 1)
    amp = eng.real("log_amp", -3, 3)
    bx, by = eng.real("bx", 0.1, 3), eng.real("by", 0.1, 3)
    iy, ix = pos
    values = []
    for j in range(shape[0]):
        row = []
        for i in range(shape[1]):
            dx, dy = i - ix, j - iy
            # exp(amp - bx (dx - x0)**2 - by (dy - y0)**2)
            e = amp - bx * ((dx - x0) * (dx - x0)) - by * ((dy - y0) * (dy - y0))
            row.append(np.exp(e))
        values.append(row)
    correl = eng.array(values)
    subpix = get_subpix("2d_gaussian", n)
    x, y = subpix.compute_subpix(correl, ix, iy)
    eng.check(close(x, ix + x0, 1e-5), "exact on a Gaussian peak")
    eng.check(close(y, iy + y0, 1e-5), "exact on a Gaussian peak")


LOG_MIN = float(np.log(1e-8))


def neighbourhood(eng, values, pos=(1, 1), shape=(3, 3)):
    """map with the 3x3 values around pos"""
    iy, ix = pos
    a = [[0.5] * shape[1] for _ in range(shape[0])]
    for j in range(3):
        for i in range(3):
            a[iy - 1 + j][ix - 1 + i] = values[j][i]
    return eng.array(a)


def gaussian2(eng, center, pos=(1, 1), shape=(3, 3)):
    """exact on a Gaussian peak (any orientation) that falls to 1e-8 of its maximum"""
    x0, y0 = center
    if eng.symbolic:
        eng.canonical_quotients = eng.split_minmax = True
    # the minimum: corner opposite to the centre
    sx, sy = (-1 if x0 > 0 else 1), (-1 if y0 > 0 else 1)
    b, c = eng.real("b", 0.5, 30), eng.real("c", -20, 20)

    def coefs(x, y):
        dx, dy = x - x0, y - y0
        return x0 * x0 - dx * dx, y0 * y0 - dy * dy, x0 * y0 - dx * dy

    ca, cb, cc = coefs(sx, sy)
    a = (LOG_MIN - b * cb - c * cc) / ca
    eng.assume(a > 0.5)
    eng.assume(a < 30)
    eng.assume(4 * a * b > c * c + 1)

    def q(x, y):
        ca, cb, cc = coefs(x, y)
        return a * ca + b * cb + c * cc

    values = [[None] * 3 for _ in range(3)]
    for y in (-1, 0, 1):
        for x in (-1, 0, 1):
            if (x, y) == (0, 0):
                v = 1.0
            elif (x, y) == (sx, sy):
                v = 0.0
            else:
                eng.assume(q(x, y) < -0.01)
                eng.assume(q(x, y) > LOG_MIN + 0.01)
                v = np.exp(q(x, y))
            values[y + 1][x + 1] = v
    correl = neighbourhood(eng, values, pos, shape)
    iy, ix = pos
    subpix = get_subpix("2d_gaussian2", None)
    x, y = subpix.compute_subpix(to32(eng, correl), ix, iy)
    tol = 1e-4 if eng.symbolic else 1e-2
    eng.check(close(x, ix + x0, tol), "exact on a tilted Gaussian peak")
    eng.check(close(y, iy + y0, tol), "exact on a tilted Gaussian peak")


def gaussian2_symmetry(eng, transform, imin, nb=1):
    """2d_gaussian2: axes exchanged or reversed"""
    from fluidimage.calcul.subpix import compute_subpix_2d_gaussian2

    if eng.symbolic:
        eng.canonical_quotients = eng.assume_nonzero = eng.split_minmax = True
    values = [[None] * 3 for _ in range(3)]
    k = 0
    for j in range(3):
        for i in range(3):
            if (j, i) == (1, 1):
                v = 1.0
            elif (j, i) == imin:
                v = 0.0
            else:
                # nb symbolic values, the other ones are distinct
                k += 1
                ranges = [(1, (-2, -0.125)), (4, (-4, -2.125)), (6, (-8, -4.125))]
                ranges = dict(ranges[:nb])
                if k in ranges:
                    e = eng.real(f"log{j}{i}", *ranges[k])
                    v = np.exp(e)
                else:
                    v = to_real(-8 - k / 2).exp() if eng.symbolic else np.exp(-8 - k / 2)
            values[j][i] = v
    t = {
        "transpose": lambda m: [list(r) for r in zip(*m)],
        "flipx": lambda m: [r[::-1] for r in m],
        "flipy": lambda m: m[::-1],
        "rotate": lambda m: [r[::-1] for r in m[::-1]],
    }[transform]
    a0 = to32(eng, neighbourhood(eng, values))
    a1 = to32(eng, neighbourhood(eng, t(values)))
    x0, y0, _ = compute_subpix_2d_gaussian2(a0, 1, 1)
    x1, y1, _ = compute_subpix_2d_gaussian2(a1, 1, 1)
    spec = {
        "transpose": (y0, x0), "flipx": (-x0, y0), "flipy": (x0, -y0),
        "rotate": (-x0, -y0),
    }[transform]
    if eng.symbolic:
        tol = 1e-6
    else:
        # ill-conditioned quadratic functions in float32
        if not (abs(x0) < 3 and abs(y0) < 3):
            return
        tol = 1e-3
    eng.check(poly_close(x1, spec[0], tol), "symmetries of the refinement")
    eng.check(poly_close(y1, spec[1], tol), "symmetries of the refinement")


def positive_map(eng, shape, pos, symbolic):
    """exp of the quadratic functions: maxima, minima and saddle points"""
    c = [-0.75, -0.5, 0.5, -0.25, 0.0]
    for i in symbolic:
        c[i] = eng.real(f"coef_{i}", -3, 3)
    iy, ix = pos
    return eng.array(
        [
            [
                np.exp(
                    c[0] * (i - ix) ** 2 + c[1] * (j - iy) ** 2
                    + c[2] * (i - ix) + c[3] * (j - iy) + c[4]
                )
                for i in range(shape[1])
            ]
            for j in range(shape[0])
        ]
    )


def moments_map(eng, n, shape, pos, total):
    """any map: three of the values are deduced from the moments of the neighbourhood"""
    iy, ix = pos
    mx, my = eng.real("sum_x"), eng.real("sum_y")
    correl = eng.real_array("c", shape)
    near = [(b, a) for b in range(-n, n + 1) for a in range(-n, n + 1)]
    rest = [p for p in near if p not in ((0, 0), (0, 1), (1, 0))]
    right = mx - sum(a * correl[iy + b, ix + a] for b, a in rest)
    below = my - sum(b * correl[iy + b, ix + a] for b, a in rest)
    correl[iy, ix + 1] = right
    correl[iy + 1, ix] = below
    correl[iy, ix] = total - right - below - sum(correl[iy + b, ix + a] for b, a in rest)
    return correl, mx, my


def bounded(eng, method, n, shape, pos, positive=None):
    """the refined position is near the integer peak or an error is reported"""
    from fluidimage.calcul.errors import PIVError

    iy, ix = pos
    eng.split_minmax = eng.inverse_quotients = True
    if positive:
        correl = positive_map(eng, shape, pos, positive)
    else:
        correl, _, _ = moments_map(eng, n, shape, pos, eng.real("sum"))
    subpix = get_subpix(method, n)
    try:
        x, y = subpix.compute_subpix(correl, ix, iy)
    except PIVError as err:
        eng.check("subpix" in err.explanation, "error explained")
        return
    eng.check(lnot(lor(np.isnan(x), np.isnan(y))), "never a missing position")
    d2 = (x - ix) ** 2 + (y - iy) ** 2
    eng.check(d2 <= 2 * (0.5 + n) ** 2 + 1e-4, "close to the integer peak")


def centroid(eng, n, shape, pos):
    """centre of mass of the neighbourhood"""
    from fluidimage.calcul.errors import PIVError

    iy, ix = pos
    eng.inverse_quotients = True
    total = eng.real("sum")
    eng.assume(lor(total > 0.01, total < -0.01))
    correl, mx, my = moments_map(eng, n, shape, pos, total)
    before = correl.copy()
    subpix = get_subpix("centroid", n)
    try:
        x, y = subpix.compute_subpix(correl, ix, iy)
    except PIVError as err:
        eng.check(
            mx * mx + my * my >= 2 * (0.5 + n) ** 2 * total * total * (1 - 1e-6),
            "error only when too far",
        )
        return
    eng.check(close((x - ix) * total, mx, 1e-4), "centre of mass")
    eng.check(close((y - iy) * total, my, 1e-4), "centre of mass")
    eng.check(close(correl, before), "map unchanged")


def border(eng, method, shape, n):
    """any integer position: an error when the neighbourhood is not in the map"""
    from fluidimage.calcul.errors import PIVError

    ix = eng.int("ix", 0, shape[1] - 1)
    iy = eng.int("iy", 0, shape[0] - 1)
    rng = np.random.default_rng(0)
    correl = np.exp(
        -((np.arange(shape[0])[:, None] - 2.0) ** 2)
        - (np.arange(shape[1]) - 3.0) ** 2 / 2
    ).astype("float32")
    subpix = get_subpix(method, n)
    inside = land(ix >= n, ix + n < shape[1], iy >= n, iy + n < shape[0])
    try:
        x, y = subpix.compute_subpix(correl, ix, iy)
    except PIVError as err:
        if "boundary" in err.explanation:
            eng.check(lnot(inside), "error close to the border")
            eng.check(
                tuple(int(v) for v in err.result_compute_subpix) == (int(iy), int(ix)),
                "location of the error",
            )
        return
    eng.check(inside, "error close to the border")


def apply_subpix(eng, tag, shape, method):
    """the refinement is added with the sign of the displacement"""
    from fluidimage.calcul.correl import correlation_classes
    from fluidimage.calcul.errors import PIVError

    corr = correlation_classes[tag](
        im0_shape=shape, im1_shape=shape, method_subpix=method, nsubpix=1
    )
    ix = eng.int("ix", 1, shape[1] - 2)
    iy = eng.int("iy", 1, shape[0] - 2)
    ix, iy = int(ix), int(iy)
    correl, _, _ = moments_map(eng, 1, shape, (iy, ix), 2)
    dx, dy = corr.compute_displacement_from_indices(ix, iy)
    try:
        dx1, dy1 = corr.apply_subpix(dx, dy, correl.copy())
    except PIVError:
        raise eng.cut("wrong subpix")
    x, y = get_subpix(method, 1).compute_subpix(correl.copy(), ix, iy)
    eng.check(close(dx1, dx - (x - ix), 1e-5), "refined displacement")
    eng.check(close(dy1, dy - (y - iy), 1e-5), "refined displacement")


EX = dict(shims=dict(exact_linalg=True))
MERGE = dict(merge=["fluidimage.calcul.subpix"])

HARNESSES = [
    Harness(
        gaussian,
        quick=[
            dict(n=1, pos=(1, 1), shape=(3, 4)),
            dict(n=1, pos=(2, 3), shape=(4, 6)),
            dict(n=2, pos=(2, 3), shape=(5, 6)),
        ],
        labels=["exact on a Gaussian peak"],
        bounds="centre in [-1, 1]**2, inverse widths in [0.1, 3], any amplitude "
        "exp([-3, 3]); neighbourhoods 3x3 and 5x5",
        **EX,
    ),
    Harness(
        gaussian2,
        quick=[
            dict(center=(0.25, -0.375)),
            dict(center=(-0.125, -0.25), pos=(2, 1), shape=(4, 3)),
            dict(center=(0.375, 0.25), pos=(1, 2), shape=(3, 4)),
        ],
        labels=["exact on a tilted Gaussian peak"],
        bounds="3 centres, any widths and orientation such that the smallest value of the "
        "3x3 neighbourhood is 1e-8 times the largest",
        **EX,
    ),
    Harness(
        gaussian2_symmetry,
        quick=[
            dict(transform=t, imin=i, nb=3)
            for t, i in (
                ("transpose", (0, 0)), ("transpose", (2, 1)), ("flipx", (0, 2)),
                ("flipy", (2, 2)), ("rotate", (0, 1)),
            )
        ],
        thorough=[
            dict(transform=t, imin=(j, i), nb=3)
            for t in ("transpose", "flipx", "flipy")
            for j in range(3)
            for i in range(3)
            if (j, i) != (1, 1)
        ],
        labels=["symmetries of the refinement"],
        validate=False,
        bounds="3 symbolic values in the 3x3 neighbourhood, between the minimum (0) "
        "and the maximum (1, at the centre), logarithms in [-2, -0.1], [-4, -2.1], [-8, -4.1], "
        "denominators not zero",
        **EX,
    ),
    Harness(
        bounded,
        quick=[
            dict(method="centroid", n=1, shape=(3, 4), pos=(1, 2)),
            dict(method="centroid", n=2, shape=(5, 5), pos=(2, 2)),
            dict(method="2d_gaussian", n=1, shape=(3, 4), pos=(1, 1), positive=(0, 2)),
            dict(method="2d_gaussian", n=1, shape=(3, 4), pos=(1, 1), positive=(1, 2)),
            dict(method="no_subpix", n=1, shape=(3, 4), pos=(1, 1)),
        ],
        labels=["close to the integer peak", "never a missing position"],
        bounds="any values in 3x3 or 5x5 neighbourhoods (2d_gaussian: exp of quadratic "
        "function without cross term)",
        **EX,
    ),
    Harness(
        centroid,
        quick=[
            dict(n=1, shape=(3, 4), pos=(1, 2)),
            dict(n=1, shape=(4, 3), pos=(2, 1)),
            dict(n=2, shape=(5, 6), pos=(2, 3)),
        ],
        labels=["centre of mass", "error only when too far"],
        bounds="any values in 3x3 or 5x5 neighbourhoods",
        **EX,
    ),
    Harness(
        border,
        quick=[
            dict(method=m, shape=s, n=n)
            for m, n, s in (
                ("centroid", 1, (7, 5)), ("centroid", 2, (5, 7)), ("2d_gaussian", 1, (5, 7)),
                ("2d_gaussian", 2, (5, 7)), ("no_subpix", 1, (7, 5)),
                ("2d_gaussian2", 1, (5, 7)),
            )
        ],
        labels=["error close to the border"],
        bounds="all integer positions of a 5x7 map",
    ),
    Harness(
        apply_subpix,
        quick=[dict(tag="scipy.ndimage", shape=(4, 5), method="centroid"),
               dict(tag="np.fft", shape=(5, 4), method="centroid")],
        labels=["refined displacement"],
        bounds="4x5 map, all inner positions, any values such that "
        "their sum is 2 in the neighbourhood",
    ),
]
