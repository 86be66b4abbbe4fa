"""Lines of sight, planes, bases, stereo reconstruction."""

import tempfile
from pathlib import Path

import numpy as np

import fluidimage.calibration.calib_direct as calib_direct
import fluidimage.calibration.util as util
from fluidimage.calibration import CalibDirect, DirectStereoReconstruction

from symx.arr import as_symarray
from symx.core import SymReal, is_sym, land, poly_close, rational_equal
from symx.patch import patched
from symx.runner import Harness

MODULES = [calib_direct, util]

ASSUMPTIONS = [
    "interpolents replaced by functions (scipy.interpolate is outside); griddata gives the values "
    "of the nodes at the nodes",
    "the directions of the lines of sight of the cameras are in a list of concrete ones, positions "
    "and displacements are symbolic; singular value decomposition computed by numpy on numbers",
    "lines of sight not parallel to the plane",
]


def equal(eng, a, b, label, msg, tol=1e-6):
    if isinstance(a, np.ndarray) and a.ndim == 0:
        a = a[()]
    eng.check(poly_close(a, b, tol) if is_sym(a) or is_sym(b) else abs(a - b) <= 5e-7, label, msg)


def same(eng, a, b, label, msg):
    if isinstance(a, np.ndarray) and a.ndim == 0:
        a = a[()]
    eng.check(rational_equal(a, b), label, msg)


def base(eng):
    """base attached to a plane, from its normal"""
    eng.assume_nonzero = True
    sign = eng.choice("side", [1, -1])
    n = [eng.real("nx", -3, 3), eng.real("ny", -3, 3), sign * eng.real("nz", 0.25, 3)]
    A, B = util.get_base_from_normal_vector(*n)
    eng.check(np.shape(A) == (3, 3) and np.shape(B) == (3, 3), "shape")
    vectors = [[A[i, j] for i in range(3)] for j in range(3)]

    def dot(u, v):
        return u[0] * v[0] + u[1] * v[1] + u[2] * v[2]

    def cross(u, v):
        return [u[(i + 1) % 3] * v[(i + 2) % 3] - u[(i + 2) % 3] * v[(i + 1) % 3] for i in range(3)]

    for i in range(3):
        for j in range(i + 1):
            same(eng, dot(vectors[i], vectors[j]), 1.0 * (i == j), "orthonormal",
                 f"product of the vectors {j} and {i}")
    for i, x in enumerate(cross(vectors[2], n)):
        same(eng, x, 0.0, "normal", "third vector along the normal")
    eng.check(dot(vectors[2], n) > 0, "normal", "direction of the third vector")
    for i, x in enumerate(cross(vectors[0], vectors[1])):
        same(eng, x, vectors[2][i], "direct", "orientation of the base")
    for i in range(3):
        for j in range(3):
            same(eng, B[i, j], A[j, i], "inverse", f"inverse matrix, element {i}, {j}")


PLANES = [(0.0, 0.0), (0.1, 0.0), (-0.7, 0.0), (0.0, 0.2), (0.0, -1.1), (1.3, 0.0)]


def plane_equation(eng):
    """plane turned around x or y"""
    alpha, beta = eng.choice("angles", PLANES)
    z0, s, t = eng.real("z0", -10, 10), eng.real("s", -10, 10), eng.real("t", -10, 10)
    a, b, c, d = util.get_plane_equation(z0, alpha, beta)
    # points of the plane
    if beta:
        x, y, z = s * float(np.cos(beta)), t, z0 - s * float(np.sin(beta))
    else:
        x, y, z = s, t * float(np.cos(alpha)), z0 + t * float(np.sin(alpha))
    equal(eng, a * x + b * y + c * z + d, 0.0, "plane", "point of the plane")
    equal(eng, a * a + b * b + c * c, 1.0, "normal", "norm of the normal vector")
    eng.check(c > 0, "normal", "direction of the normal vector")


class Affine:
    """interpolent equal to c + cx x + cy y"""

    def __init__(self, c, cx=0.0, cy=0.0):
        self.c, self.cx, self.cy = c, cx, cy

    def __call__(self, args):
        x, y = args
        if not is_sym(x) and not isinstance(x, np.ndarray):
            x, y = np.asarray(x), np.asarray(y)
        return self.c + self.cx * x + self.cy * y


def calibration(lines):
    calib = object.__new__(CalibDirect)
    calib.interp_lines = lines
    return calib


def lines_of(eng, tag, directions=None):
    """optical paths, affine functions of the position of the pixel"""
    cx, cy = eng.real(tag + "cx", 0.01, 1), eng.real(tag + "cy", 0.01, 1)
    x0, y0, z0 = (eng.real(tag + k, -1, 1) for k in ("x0", "y0", "z0"))
    return [
        Affine(x0, cx, 0.125),
        Affine(y0, 0.25, cy),
        Affine(z0, 0.5, -0.25),
        Affine(eng.real(tag + "dx", -1, 1), 0.0, 0.125),
        Affine(eng.real(tag + "dy", -1, 1), 0.125, 0.0),
        Affine(1.0),
    ]


def intersection(eng, n=2, scalar=False):
    """position of a pixel on a plane"""
    eng.assume_nonzero = True
    lines = lines_of(eng, "")
    calib = calibration(lines)
    a, b = eng.real("a", -1, 1), eng.real("b", -1, 1)
    c, d = eng.real("c", 3, 5), eng.real("d", -10, 10)
    if scalar:
        ix, iy = eng.real("ix", 0, 4), eng.real("iy", 0, 4)
        pixels = [(ix, iy)]
    else:
        ix, iy = eng.real_array("ix", (n,), 0, 4), eng.real_array("iy", (n,), 0, 4)
        pixels = [(ix[i], iy[i]) for i in range(n)]
    result = calib.intersect_with_plane(ix, iy, a, b, c, d)
    eng.check(result.shape == ((3,) if scalar else (n, 3)), "shape")
    for i, pixel in enumerate(pixels):
        p = [result[k] if scalar else result[i, k] for k in range(3)]
        same(eng, a * p[0] + b * p[1] + c * p[2] + d, 0.0, "plane", "the position is on the plane")
        o = [line(pixel) for line in lines]
        for k in range(3):
            l, m = (k + 1) % 3, (k + 2) % 3
            same(eng, (p[l] - o[l]) * o[3 + m], (p[m] - o[m]) * o[3 + l], "line",
                 "the position is on the line of sight")


def displacement(eng):
    """displacement on the plane: difference of the positions of its ends"""
    eng.assume_nonzero = True
    calib = calibration(lines_of(eng, ""))
    a, b, c, d = eng.real("a", -1, 1), 0.25, eng.real("c", 3, 5), eng.real("d", -10, 10)
    ix, iy = eng.real_array("ix", (1,), 0, 4), eng.real_array("iy", (1,), 0, 4)
    dx, dy = eng.real_array("dx", (1,), -1, 1), eng.real_array("dy", (1,), -1, 1)
    result = calib.apply_calib(ix, iy, dx, dy, a, b, c, d)
    end = calib.intersect_with_plane(ix + dx / 2, iy + dy / 2, a, b, c, d)
    start = calib.intersect_with_plane(ix - dx / 2, iy - dy / 2, a, b, c, d)
    eng.check(result.shape == (1, 3), "shape")
    for k in range(3):
        same(eng, result[0, k], end[0, k] - start[0, k], "displacement", "xyz"[k])


SLOPES = [(0.0, 0.0), (0.5, 0.0), (0.0, -0.25), (-0.75, 0.5), (2.0, 1.5)]
LEVELS = [(0.0, 1.0), (-1.0, 0.5, 1.0), (2.0, 0.0, 1.0, -3.0), (5.0, 4.0, 3.0, 1.0, 0.5)]


def fit(eng, levels=1):
    """line of sight of a pixel, from its positions at several levels"""
    Z = LEVELS[levels]
    sx, sy = eng.choice("slopes", SLOPES)
    x0, y0 = eng.real("x0", -10, 10), eng.real("y0", -10, 10)
    seen = [eng.choice(f"seen{i}", [True, False]) for i in range(len(Z))]
    nan = SymReal.nan_value() if hasattr(SymReal, "nan_value") else float("nan")
    calib = object.__new__(CalibDirect)
    interp = calib_direct.Interpolent()
    interp.Z = [np.float64(z) for z in Z]

    def level(value, ok):
        # as the interpolents of scipy: an array of zero dimension, nan outside of the domain
        if not ok:
            return lambda args: np.array(np.nan)
        if eng.symbolic:
            return lambda args: value
        return lambda args: np.array(value)

    interp.indices_pixel2xphys = [level(x0 + sx * z, ok) for z, ok in zip(Z, seen)]
    interp.indices_pixel2yphys = [level(y0 + sy * z, ok) for z, ok in zip(Z, seen)]
    calib.interp_levels = interp
    result = calib.pixel2line(3.0, 4.0)
    eng.check(np.shape(result) == (6,), "shape")
    if sum(seen) < 2:
        eng.check(all(bool(np.isnan(v)) for v in result), "missing", "no line with less than two levels")
        return
    p, v = [result[i] for i in range(3)], [result[i] for i in range(3, 6)]
    equal(eng, p[0], x0 + sx * p[2], "line", "x of the point")
    equal(eng, p[1], y0 + sy * p[2], "line", "y of the point")
    equal(eng, v[0], sx * v[2], "line", "direction, x")
    equal(eng, v[1], sy * v[2], "line", "direction, y")
    eng.check(v[2] > 1e-3, "line", "direction along increasing z")


def points(eng):
    """points of a file of calibration"""
    n = eng.choice("number", [2, 5, 12])
    data = [(3 * i % 7, 10 - i, 25, 100 + 7 * i, 1000 - 11 * i) for i in range(n)]
    text = "<ImaDoc>\n<GeometryCalib>\n<SourceCalib>\n"
    for i, values in enumerate(data):
        text += f'<Point_{i + 1}> {" ".join(map(str, values))} </Point_{i + 1}>\n'
    text += "</SourceCalib>\n</GeometryCalib>\n</ImaDoc>\n"
    with tempfile.TemporaryDirectory() as directory:
        path = Path(directory) / "img_1.xml"
        path.write_text(text)
        X, Y, Z, x, y = calib_direct.get_points(str(path))
    found = sorted(
        (round(float(X[i]) * 100, 6), round(float(Y[i]) * 100, 6), float(x[i]), float(y[i]))
        for i in range(len(x))
    )
    eng.check(found == sorted((v[0], v[1], v[3], v[4]) for v in data), "points",
              "each pixel with its position (cm converted to m)")
    eng.check(abs(float(Z) - 0.25) < 1e-12, "points", "height of the points")


# directions of the lines of sight of couples of cameras
CAMERAS = [
    ((0.5, 0.0, 1.0), (-0.5, 0.0, 1.0)),
    ((0.0, 0.5, 1.0), (0.0, -0.75, 1.0)),
    ((1.0, 1.0, 1.0), (1.0, -1.0, 1.0)),
    ((0.5, 0.25, 1.0), (-0.25, 0.75, 1.0)),
    ((0.0, 0.0, 1.0), (0.75, 0.5, 1.0)),
]

NODES = np.array([(0.0, 0.0), (1.0, 0.0), (0.0, 1.0), (1.0, 1.0)])


def grid_data(pts, values, targets, method="linear", **kw):
    """scipy.interpolate.griddata at nodes"""
    xs, ys = (np.asarray(as_symarray(v).tolist(), dtype=float) if not isinstance(v, np.ndarray) or v.dtype == object else v for v in pts)
    tx, ty = (np.asarray(as_symarray(v).tolist(), dtype=float) for v in targets)
    values = as_symarray(values)
    out = np.empty(tx.shape, dtype=object)
    for idx in np.ndindex(*tx.shape):
        (where,) = np.nonzero((abs(xs - tx[idx]) < 1e-9) & (abs(ys - ty[idx]) < 1e-9))
        if not where.size:
            raise NotImplementedError("griddata out of the nodes")
        out[idx] = values[int(where[0])]
    return as_symarray(out, "f")


class Constant:
    """interpolent equal to a function of the pixel, for arrays of numbers"""

    def __init__(self, c, cx=0.0, cy=0.0):
        self.c, self.cx, self.cy = c, cx, cy

    def __call__(self, args):
        x, y = args
        return self.c + self.cx * x + self.cy * y


def stereo(eng, cameras=0):
    """displacement seen by two cameras, from its projections"""
    directions = CAMERAS[cameras]
    # pixels: size in the physical unit
    scales = [(0.25, 0.5), (0.5, 0.25)]
    with tempfile.TemporaryDirectory() as directory:
        paths = []
        for i, (n, (cx, cy)) in enumerate(zip(directions, scales)):
            calib = object.__new__(CalibDirect)
            calib.interp_lines = [
                Constant(0.0, cx, 0.0), Constant(0.0, 0.0, cy), Constant(0.0),
                *(Constant(float(v)) for v in n),
            ]
            calib.paths_xml = []
            calib.nb_pixels_x = calib.nb_pixels_y = 64
            paths.append(str(Path(directory) / f"calib{i}.npz"))
            calib.save(paths[-1])
        rec = DirectStereoReconstruction(*paths)
    # displacements at the nodes of a grid of the plane z = 0
    D = eng.real_array("D", (4, 3), -1, 1)
    pix = []
    for n, (cx, cy) in zip(directions, scales):
        pix.append((NODES[:, 0] / cx, NODES[:, 1] / cy,
                    (D[:, 0] - n[0] / n[2] * D[:, 2]) / cx, (D[:, 1] - n[1] / n[2] * D[:, 2]) / cy))
    plane = (0.0, 0.0, 1.0, 0.0)
    X0, X1, d0, d1 = rec.project2cam(*pix[0], *pix[1], *plane)
    for X in (X0, X1):
        for i in range(4):
            for k in range(3):
                equal(eng, X[i, k], NODES[i, k] if k < 2 else 0.0, "positions", "position on the plane")
    if eng.symbolic:
        X0, X1 = (np.asarray(as_symarray(X).tolist(), dtype=float) for X in (X0, X1))
    grid_x, grid_y = NODES[:, 0].reshape(2, 2), NODES[:, 1].reshape(2, 2)
    if eng.symbolic:
        from scipy.interpolate import griddata

        with patched((griddata, grid_data)):
            result = rec.reconstruction(X0, X1, d0, d1, *plane, grid_x, grid_y)
    else:
        result = rec.reconstruction(X0, X1, d0, d1, *plane, grid_x, grid_y)
    for k in range(3):
        eng.check(np.shape(result[k]) == (2, 2), "shape")
        for i in range(4):
            equal(eng, result[k][i // 2, i % 2], D[i, k], "reconstruction", "displacement along " + "xyz"[k])


def common_grid(eng, sizes=((4.0, 4.0), (4.0, 4.0)), nan=False):
    """grid in the region seen by the two cameras, as fine as the coarser one"""
    eng.split_minmax = True
    clouds, bounds = [], []
    for i, (lx, ly) in enumerate(sizes):
        ox, oy = eng.real(f"ox{i}", 0, 1.5), eng.real(f"oy{i}", 0, 1.5)
        pts = [(ox + lx * k / 2, oy + ly * m / 2) for k in range(3) for m in range(3)]
        if nan:
            pts.insert(4, (SymReal.nan_value() if eng.symbolic and hasattr(SymReal, "nan_value")
                           else np.nan,) * 2)
        rows = [[x, y, 0.0] for x, y in pts]
        clouds.append(as_symarray(rows) if eng.symbolic else np.array(rows))
        bounds.append((ox, ox + lx, oy, oy + ly))
    a, b, c, d = 0.25, -0.5, 0.75, eng.real("d", -3, 3)
    rec = object.__new__(DirectStereoReconstruction)
    gx, gy, gz = rec.find_common_grid(clouds[0], clouds[1], a, b, c, d)
    if not gx.size:
        return
    eng.check(gx.shape == gy.shape == gz.shape and gx.ndim == 2, "shape")
    tol = 1e-6
    for idx in np.ndindex(*gx.shape):
        x, y = gx[idx], gy[idx]
        for i, (x0, x1, y0, y1) in enumerate(bounds):
            eng.check(land(x >= x0 - tol, x <= x1 + tol, y >= y0 - tol, y <= y1 + tol),
                      "seen by the two cameras", f"camera {i}")
        equal(eng, a * x + b * y + c * gz[idx] + d, 0.0, "plane", "grid on the plane")
        eng.check(land(x == gx[idx[0], 0], y == gy[0, idx[1]]), "regular grid")
    for g, n, k in ((gx[:, 0], gx.shape[0], 0), (gy[0], gx.shape[1], 2)):
        for i in range(n - 1):
            eng.check(g[i + 1] > g[i], "regular grid")
        # the whole common region
        lo = [bd[k] for bd in bounds]
        hi = [bd[k + 1] for bd in bounds]
        if n > 1:
            eng.check(land(g[0] <= max(lo) + tol, g[n - 1] >= min(hi) - tol), "whole region")


H = dict(shims=dict(builtins_=False))
HARNESSES = [
    Harness(base, labels=["orthonormal", "normal", "direct", "inverse"],
            bounds="any normal vector with |nz| >= 0.25", **H),
    Harness(plane_equation, labels=["plane", "normal"], bounds="6 rotations, any height and point",
            shims=dict(builtins_=False)),
    Harness(intersection, quick=[dict(n=2), dict(n=1), dict(scalar=True)], labels=["plane", "line", "shape"],
            bounds="any plane and line (not parallel), affine functions of the pixel", **H),
    Harness(displacement, labels=["displacement"], bounds="any plane, line and displacement", **H),
    Harness(fit, quick=[dict(levels=i) for i in range(3)], thorough=[dict(levels=3)], labels=["line", "missing", "shape"],
            bounds="5 directions, any position, 2 to 5 levels, any subset of them where the pixel is known", **H),
    Harness(points, labels=["points"], bounds="files with 2, 5 or 12 points", **H),
    Harness(stereo, quick=[dict(cameras=i) for i in range(len(CAMERAS))],
            labels=["positions", "reconstruction", "shape"],
            bounds="5 couples of cameras, any displacements at the nodes of a 2x2 grid", **H),
    Harness(common_grid,
            quick=[dict(), dict(sizes=((4.0, 4.0), (2.25, 4.0))), dict(sizes=((4.0, 4.0), (2.0, 8.0)), nan=True)],
            labels=["seen by the two cameras", "plane", "regular grid", "whole region", "shape"],
            bounds="3 x 3 vectors per camera, any relative positions, 3 couples of sizes", **H),
]
