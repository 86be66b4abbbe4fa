"""Thin-plate-spline interpolation.

The linear systems of the splines are solved exactly (rational numbers) for symbolic
values at the centres; target positions are symbolic.
"""

import types

import fluidimage.calcul.interpolate.thin_plate_spline
import fluidimage.calcul.interpolate.thin_plate_spline_subdom
import fluidimage.works.piv.multipass
import numpy as np

from symx.core import close, land, lnot, lor
from symx.core import poly_close as pclose
from symx.runner import Harness

ASSUMPTIONS = [
    "numpy.linalg.solve is computed exactly (rationals) in the symbolic runs",
    "the logarithms at concrete distances are the float64 ones; log is an uninterpreted "
    "function for symbolic positions",
    "the Python source is run, not the Pythran binary",
]

TOL = 1e-4


def positions(name):
    if name == "grid":
        x, y = np.meshgrid([4.0, 8.0, 12.0], [3.0, 9.0])
    elif name == "irregular":
        return np.array([[0.5, 7.0, 1.25, 9.0, 4.0, 6.5], [1.0, 0.0, 8.5, 9.0, 5.0, 3.0]])
    elif name == "grid43":
        x, y = np.meshgrid([4.0, 8.0, 12.0, 16.0], [3.0, 9.0, 15.0])
    elif name == "grid66":
        x, y = np.meshgrid(np.arange(6) * 4.0 + 2, np.arange(6) * 5.0 + 1)
    elif name == "grid45":
        x, y = np.meshgrid(np.arange(4) * 4.0 + 2, np.arange(5) * 5.0 + 1)
    return np.vstack([y.ravel(), x.ravel()])


def linear_field(eng, centers):
    a, b, c = (eng.real(n, -5, 5) for n in ("a", "bx", "by"))
    vals = [a + b * x + c * y for y, x in centers.T.tolist()]
    return (a, b, c), eng.array(vals)


def data(eng, centers, smoothing=0):
    """through the data without smoothing"""
    from fluidimage.calcul.interpolate.thin_plate_spline import (
        ThinPlateSpline,
        compute_tps_weights,
    )

    c = positions(centers)
    n = c.shape[1]
    values = eng.real_array("v", (n,), -10, 10)
    before = values.copy()
    smoothed, weights = compute_tps_weights(c, values, 0)
    tps = ThinPlateSpline(c, c)
    field = tps.compute_field(weights)
    for i in range(n):
        eng.check(pclose(smoothed[i], before[i], TOL), "through the data")
        eng.check(pclose(field[i], before[i], TOL), "through the data")
        eng.check(pclose(values[i], before[i], TOL), "data unchanged")


def gradient(eng, centers, smoothing):
    """linear fields and their gradients, everywhere"""
    from fluidimage.calcul.interpolate.thin_plate_spline import (
        ThinPlateSpline,
        compute_tps_weights,
    )

    # positions: x, y
    c = positions(centers)[::-1].copy()
    (a, bx, by), values = linear_field(eng, c[::-1])
    smoothed, weights = compute_tps_weights(c, values, smoothing)
    for i in range(c.shape[1]):
        eng.check(pclose(smoothed[i], values[i], TOL), "linear field at the data")
    if eng.symbolic:
        # no weight for the centres (also rounding errors if concrete)
        for i in range(c.shape[1]):
            eng.check(pclose(weights[i], 0, TOL), "no curvature")
    new = np.array([[-3.0, 4.0, 5.5, 30.0, 3.0], [2.0, 4.0, -7.5, 11.0, 4.0]])
    tps = ThinPlateSpline(new, c)
    field = tps.compute_field(weights)
    dx, dy = tps.compute_gradient(weights)
    for i in range(new.shape[1]):
        x, y = new[:, i]
        eng.check(pclose(field[i], a + bx * x + by * y, 1e-3), "linear field")
        eng.check(pclose(dx[i], bx, 1e-3), "gradient of a linear field")
        eng.check(pclose(dy[i], by, 1e-3), "gradient of a linear field")


def derivative(eng, axis):
    """the gradient is the derivative of the field: r**2 log(r) for one centre"""
    from fluidimage.calcul.interpolate.thin_plate_spline import (
        compute_tps_matrices_dxy,
        compute_tps_matrix,
    )

    # log is uninterpreted: the same term in the two functions; positions: x, y
    x = eng.real("x", 0.5, 9)
    y = eng.real("y", 0.5, 9)
    cx, cy = eng.real("cx", -9, 0), eng.real("cy", -9, 0)
    new = eng.array([[x], [y]])
    centers = eng.array([[cx], [cy]])
    em = compute_tps_matrix(new, centers)
    dmx, dmy = compute_tps_matrices_dxy(new, centers)
    ex, ey = x - cx, y - cy
    r2 = ex * ex + ey * ey
    f = em[0, 0]
    # f = r2 log(r2) / 2, df/dx = ex (log(r2) + 1)
    eng.check(close(dmx[0, 0] * r2, ex * (2 * f + r2), 1e-2), "derivative of the kernel")
    eng.check(close(dmy[0, 0] * r2, ey * (2 * f + r2), 1e-2), "derivative of the kernel")
    eng.check(
        land(em[1, 0] == 1, close(em[2, 0], x, 1e-6), close(em[3, 0], y, 1e-6)),
        "linear part",
    )
    eng.check(
        [float(v) for v in (*dmx[1:, 0], *dmy[1:, 0])] == [0, 1, 0, 0, 0, 1],
        "derivative of the linear part",
    )


def make_subdom(centers, size, smoothing, threshold=None, buffer=20):
    from fluidimage.calcul.interpolate.thin_plate_spline_subdom import (
        ThinPlateSplineSubdom,
    )

    return ThinPlateSplineSubdom(
        centers, size, smoothing, threshold=threshold, percent_buffer_area=buffer
    )


def subdom_linear(eng, centers, size, smoothing, buffer=20, far=0, threshold=None):
    """linear fields with subdomains"""
    c = positions(centers)
    (a, bx, by), values = linear_field(eng, c)
    tps = make_subdom(c, size, smoothing, threshold, buffer)
    eng.check(
        set(np.concatenate(tps.indices_domains).tolist()) == set(range(c.shape[1])),
        "each vector in a subdomain",
    )
    smoothed, weights, summary = tps.compute_tps_weights_subdom(values.copy())
    for i in range(c.shape[1]):
        eng.check(pclose(smoothed[i], values[i], TOL), "linear field at the data")
    y0, y1 = c[0].min(), c[0].max()
    x0, x1 = c[1].min(), c[1].max()
    new = [
        (ya + (y1 - y0) * (i + 0.5) / 4 + dy, x0 + (x1 - x0) * (j + 0.25) / 4 + dx)
        for i, ya in enumerate((y0,) * 4) for j in range(4)
        for dy, dx in ((0, 0), (far, -far))
    ]
    new += [(y0 - far, x0), (y1 + far, x1 + far), (y0, x1 + far), (y1, x0 - far)]
    tps.init_with_new_positions(np.array(new).T)
    field = tps.interpolate(weights)
    for i, (y, x) in enumerate(new):
        eng.check(lnot(np.isnan(field[i])), "each position in a subdomain")
        eng.check(pclose(field[i], a + bx * x + by * y, 1e-3), "linear field")


def subdom_member(eng, centers, size, buffer=20, far=10):
    """all positions belong to a subdomain"""
    c = positions(centers)
    tps = make_subdom(c, size, 0, None, buffer)
    y0, y1 = c[0].min(), c[0].max()
    x0, x1 = c[1].min(), c[1].max()
    x = eng.real("x", x0 - far, x1 + far)
    y = eng.real("y", y0 - far, y1 + far)
    tps.init_with_new_positions(eng.array([[y], [x]]))
    # constant field
    weights = [
        np.array([0.0] * len(inds) + [1.0, 0.0, 0.0]) for inds in tps.indices_domains
    ]
    field = tps.interpolate(weights)
    eng.check(lnot(np.isnan(field[0])), "each position in a subdomain")
    eng.check(close(field[0], 1, 1e-4), "constant field")


def subdom_data(eng, centers, size, buffer=20):
    """through the data, with subdomains"""
    c = positions(centers)
    n = c.shape[1]
    free = range(0, n, max(1, n // 6))
    values = eng.array(
        [eng.real(f"v{i}", -10, 10) if i in free else (i % 5) * 0.5 for i in range(n)]
    )
    tps = make_subdom(c, size, 0, buffer=buffer)
    smoothed, weights, summary = tps.compute_tps_weights_subdom(values.copy())
    tps.init_with_new_positions(c)
    field = tps.interpolate(weights)
    for i in range(n):
        eng.check(pclose(smoothed[i], values[i], TOL), "through the data")
        eng.check(pclose(field[i], values[i], TOL), "through the data")


def erratic(eng, centers, size, i):
    """the values too far from the smooth field are replaced; the others are kept"""
    c = positions(centers)
    n = c.shape[1]
    v = eng.real("v", -10, 10)
    values = eng.array([v if j == i else 1.0 for j in range(n)])
    thr = 0.5
    smoothing = 5.0
    tps = make_subdom(c, size, smoothing, threshold=thr)
    before = values.copy()
    smoothed, weights, summary = tps.compute_tps_weights_subdom(values)
    ref = make_subdom(c, size, smoothing, threshold=1e6)
    s0, w0, sum0 = ref.compute_tps_weights_subdom(before.copy())
    nb = summary["nb_fixed_vectors_tot"]
    eng.check(sum0["nb_fixed_vectors_tot"] == 0, "nothing replaced below the threshold")
    diffs = [abs(s0[j] - before[j]) for j in range(n)]
    if nb == 0:
        for j in range(n):
            eng.check(pclose(smoothed[j], s0[j], TOL), "nothing replaced: smooth field")
    largest = max(summary["max(Udiff)"])
    eng.check(largest >= 0, "difference")
    if nb == 0:
        eng.check(largest <= thr + 1e-6, "threshold on the difference")
    else:
        eng.check(largest > thr - 1e-6, "threshold on the difference")


def missing(eng, missing, strcrop=None, last=True, size=200):
    """interpolation of a PIV field on the grid of the pass: missing vectors are left out"""
    from fluidimage.data_objects.piv import HeavyPIVResults
    from fluidimage.works.piv.multipass import WorkPIV

    params = WorkPIV.create_default_params()
    params.piv0.shape_crop_im0 = 6
    params.piv0.grid.overlap = 0.5
    params.piv0.method_subpix = "centroid"
    params.mask.strcrop = strcrop
    params.multipass.use_tps = True
    params.multipass.subdom_size = size
    params.multipass.smoothing_coef = 1.0
    params.multipass.threshold_tps = 1e4
    work = WorkPIV(params).works_piv[0]
    work._prepare_with_image(imshape=(16, 18))
    n = len(work.ixvecs_grid)
    x0, y0 = (0, 0) if strcrop is None else (5, 3)
    (a, bx, by), _ = linear_field(eng, np.zeros((2, 1)))
    c = eng.real("c", -5, 5)
    # positions of the vectors: a bit shifted from the grid, in the original image
    xs = (work.ixvecs_grid + x0 + 0.25).astype("float32")
    ys = (work.iyvecs_grid + y0 - 0.5 * (np.arange(n) % 2)).astype("float32")
    dxs = [a + bx * x + by * y for x, y in zip(xs.tolist(), ys.tolist())]
    dys = [c - by * x + a * y for x, y in zip(xs.tolist(), ys.tolist())]
    for i in missing:
        if i % 2:
            dxs[i] = np.nan
        else:
            dys[i] = np.nan
    result = HeavyPIVResults(
        deltaxs=eng.array(dxs), deltays=eng.array(dys), xs=xs, ys=ys, errors={},
        couple=types.SimpleNamespace(name="couple"), params=params,
    )
    work.apply_interp(result, last=last)
    if last:
        fx, fy = result.deltaxs_final, result.deltays_final
        gx, gy = result.ixvecs_final, result.iyvecs_final
    else:
        fx, fy = result.deltaxs_approx, result.deltays_approx
        gx, gy = result.ixvecs_approx, result.iyvecs_approx
    eng.check(len(fx) == len(fy) == n, "interpolated on the grid")
    for i in range(n):
        x, y = int(gx[i]), int(gy[i])
        eng.check(
            (x, y) == (work.ixvecs_grid[i] + x0, work.iyvecs_grid[i] + y0),
            "interpolated on the grid",
        )
        eng.check(pclose(fx[i], a + bx * x + by * y, 1e-2), "missing left out")
        eng.check(pclose(fy[i], c - by * x + a * y, 1e-2), "missing left out")
        if last:
            x, y = float(result.xs_smooth[i]), float(result.ys_smooth[i])
            if i not in missing:
                eng.check((x, y) == (xs[i], ys[i]), "smooth field at the data")
            sx, sy = result.deltaxs_smooth[i], result.deltays_smooth[i]
            eng.check(pclose(sx, a + bx * x + by * y, 1e-2), "smooth field at the data")
            eng.check(pclose(sy, c - by * x + a * y, 1e-2), "smooth field at the data")


EX = dict(shims=dict(exact_linalg=True))

HARNESSES = [
    Harness(
        missing,
        quick=[
            dict(missing=()),
            dict(missing=(0, 5, 7)),
            dict(missing=(1, 4), strcrop="3:, 5:"),
            dict(missing=(2, 3, 4), last=False, size=8),
        ],
        labels=["missing left out", "interpolated on the grid"],
        bounds="grid of 4x5 vectors, 0 to 3 missing, any linear displacement field",
        **EX,
    ),
    Harness(
        data,
        quick=[dict(centers=c) for c in ("grid", "irregular", "grid43")],
        labels=["through the data"],
        bounds="6 or 12 centres, any values in [-10, 10]",
        **EX,
    ),
    Harness(
        gradient,
        quick=[
            dict(centers=c, smoothing=s)
            for c, s in (("grid", 0), ("irregular", 3), ("grid43", 100.0))
        ],
        labels=["linear field", "gradient of a linear field"],
        bounds="all linear fields with coefficients in [-5, 5]; 5 positions",
        **EX,
    ),
    Harness(
        derivative,
        quick=[dict(axis=0)],
        labels=["derivative of the kernel"],
        bounds="one centre, any position",
        **EX,
    ),
    Harness(
        subdom_linear,
        quick=[
            dict(centers="grid66", size=9, smoothing=0.5),
            dict(centers="grid45", size=10, smoothing=0),
            dict(centers="grid45", size=10, smoothing=0, far=20),
            dict(centers="grid66", size=50, smoothing=2.0, far=10),
        ],
        labels=["linear field", "each position in a subdomain", "each vector in a subdomain"],
        bounds="grids up to 6x6 with 1 to 6 subdomains, any linear field, any position in "
        "the domain and up to 20 pixels around",
        **EX,
    ),
    Harness(
        subdom_member,
        quick=[
            dict(centers="grid66", size=9),
            dict(centers="grid45", size=10, far=30),
            dict(centers="grid66", size=4, buffer=5),
        ],
        labels=["each position in a subdomain", "constant field"],
        bounds="any position in the domain and up to 30 pixels around, up to 9 subdomains",
    ),
    Harness(
        subdom_data,
        quick=[
            dict(centers="grid45", size=10),
            dict(centers="grid66", size=12),
            dict(centers="grid66", size=9, buffer=40),
        ],
        labels=["through the data"],
        bounds="grids up to 6x6 with 2 to 6 subdomains, any values for 7 of the centres",
        **EX,
    ),
    Harness(
        erratic,
        quick=[dict(centers="grid", size=50, i=1)],
        thorough=[
            dict(centers="grid43", size=100, i=5),
            dict(centers="irregular", size=50, i=4),
        ],
        labels=["threshold on the difference"],
        bounds="one subdomain, one symbolic value",
        **EX,
    ),
]
