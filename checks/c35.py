"""Calibrations: pixels to space and back."""

import tempfile
from pathlib import Path

import numpy as np

import fluidimage.calibration.calib2d_simple as calib2d_simple
import fluidimage.calibration.calib_tsai as calib_tsai
import fluidimage.calibration.util as util
from fluidimage.calibration import Calibration, Calibration2DSimple

from symx.arr import as_symarray
from symx.core import land, lor, rational_equal, to_real
from symx.runner import Harness

MODULES = [calib_tsai, calib2d_simple, util]

ASSUMPTIONS = [
    "coefficients of distortion equal to zero (the inverse used with a distortion is approximate)",
    "the camera is neither in the plane nor looking along it (no division by zero)",
    "with an interface, the considered point and the origin of the plane are on the same side",
    "angles of the planes from a list (cosine and sine computed in floats; differences of the "
    "coefficients of the order of the rounding are ignored)",
    "the vertical index given to pix2phys is counted from the other side than the one given by "
    "phys2pix (convention of UVmat)",
]

XML = """<?xml version="1.0" ?>
<ImaDoc>
   <GeometryCalib>
      <fx_fy> 3119.4 3114.2 </fx_fy>
      <Cx_Cy> 1279.5 1076.25 </Cx_Cy>
      <kc> 0.5 </kc>
      <Tx_Ty_Tz> -4.5 65.25 411.125 </Tx_Ty_Tz>
      <R i="1"> 0.5 -0.75 0.25 </R>
      <R i="2"> 0.875 0.125 -0.5 </R>
      <R i="3"> 0.375 -0.25 -1.5 </R>
      <omc> 127.5 -126.25 4.75 </omc>
{}   </GeometryCalib>
</ImaDoc>
"""

ANGLES = [(0.0, 0.0, 0.0), (10.0, 0.0, 0.0), (0.0, -7.0, 0.0), (3.0, 4.0, 12.0)]


def read_calibration(nb_slice, angles=None, refraction=False):
    """calibration read from a file, and the coordinates written in this file"""
    coords = [(i, -2 * i, 5.5 + 3 * i) for i in range(nb_slice)]
    text = f"      <NbSlice> {nb_slice} </NbSlice>\n"
    for i in range(nb_slice):
        number = f' i="{i + 1}"' if nb_slice > 1 else ""
        text += "      <SliceCoord{}> {} {} {} </SliceCoord>\n".format(number, *coords[i])
        if angles is not None:
            text += "      <SliceAngle{}> {} {} {} </SliceAngle>\n".format(number, *angles[i])
    if refraction:
        text += "      <RefractionIndex> 1.25 </RefractionIndex>\n"
        text += "      <InterfaceCoord> 0 0 40.5 </InterfaceCoord>\n"
    with tempfile.TemporaryDirectory() as directory:
        path = Path(directory) / "calib.xml"
        path.write_text(XML.format(text))
        return Calibration(path), coords


def read(eng):
    """the numbers of the file are those of the calibration"""
    eng.float_sqrt = eng.assume_nonzero = True
    nb_slice = eng.choice("slices", [1, 2, 4])
    angles = None
    if eng.choice("angles", [False, True]):
        angles = [(i, 0.5 - i, 2.0 * i) for i in range(nb_slice)]
    refraction = eng.choice("refraction", [False, True])
    calib, coords = read_calibration(nb_slice, angles, refraction)
    params = calib.params
    eng.check(
        [float(v) for v in params.f] == [3119.4, 3114.2]
        and [float(v) for v in params.C] == [1279.5, 1076.25]
        and [float(v) for v in params.T] == [-4.5, 65.25, 411.125]
        and [float(v) for v in params.R]
        == [0.5, -0.75, 0.25, 0.875, 0.125, -0.5, 0.375, -0.25, -1.5]
        and float(params.kc) == 0.5,
        "camera",
        "camera of the file",
    )
    for i in range(nb_slice):
        eng.check(
            [float(v) for v in params.slices.zslice_coord[i]] == list(coords[i])
            and [float(v) for v in params.slices.slice_angle[i]]
            == list(angles[i] if angles else (0, 0, 0)),
            "planes",
            f"coordinates of the plane {i}",
        )
    eng.check(
        hasattr(params, "refraction_index") == refraction
        and hasattr(params, "interface_coord") == refraction,
        "interface",
    )
    if refraction:
        eng.check(
            float(params.refraction_index) == 1.25
            and [float(v) for v in params.interface_coord] == [0, 0, 40.5],
            "interface",
        )
    params.kc = 0.0
    # a point of the plane i
    for i in range(nb_slice):
        a, b, z0 = plane(eng, coords[i], angles[i] if angles else (0, 0, 0))
        xp = eng.real(f"x{i}", -0.25, 0.25)
        X, Y = calib.phys2pix(xp, 0.125, (z0 + a * 100 * xp + b * 12.5) / 100)
        back = calib.pix2phys(X, 1000 - Y, i, 1000)
        same(eng, back[0], xp, "planes", f"x of a point of the plane {i}")
        same(eng, back[1], 0.125, "planes", f"y of a point of the plane {i}")


def plane(eng, coord, angle):
    """slopes and height of z = z0 + a x + b y, horizontal plane turned by an angle (degrees)
    around an axis, both given by a vector"""
    a = b = 0.0
    if any(angle):
        # square roots, cosines and sines of the engine in symbolic runs
        number = to_real if eng.symbolic else np.float64
        norm = np.sqrt(number(sum(c * c for c in angle)))
        ux, uy, uz = (c / norm for c in angle)
        om = norm * np.pi / 180
        c, s = np.cos(om), np.sin(om)
        # image of the vertical
        n = (ux * uz * (1 - c) + uy * s, uy * uz * (1 - c) - ux * s, uz * uz * (1 - c) + c)
        a, b = -n[0] / n[2], -n[1] / n[2]
    return a, b, coord[2] - a * coord[0] - b * coord[1]


def same(eng, a, b, label, msg):
    if isinstance(a, np.ndarray) and a.ndim == 0:
        a = a[()]
    eng.check(rational_equal(a, b, 1e-9), label, msg)


# from the front, from the top, from a side
ORIENTATIONS = [
    (1, 0, 0, 0, 1, 0, 0, 0, 1),
    (0, -1, 0, 1, 0, 0, 0, 0, -1),
    (0.75, 0, 0.65, 0, 1, 0, -0.65, 0, 0.75),
]


def camera(eng, nb_slice, angle, refraction, rotation):
    """calibration with any camera"""
    eng.float_sqrt = eng.assume_nonzero = True
    level = eng.choice("level", range(nb_slice))
    angles = [(0.0, 0.0, 1.0 + i) for i in range(nb_slice)]
    angles[level] = ANGLES[angle]
    calib, coords = read_calibration(nb_slice, angles, refraction)
    params = calib.params
    params.kc = 0.0
    params.f = [eng.real("fx", 2000, 10000), eng.real("fy", 2000, 10000)]
    params.C = eng.real_array("C", (2,), 0, 2000)
    T = [eng.real(f"T{i}", *((-100, 100) if i < 2 else (300, 1000))) for i in range(3)]
    params.T = as_symarray(T) if eng.symbolic else np.array(T)
    if rotation == "any":
        about = eng.choice("orientation", ORIENTATIONS)
        params.R = eng.real_array("R", (9,), -0.2, 0.2) + np.array(about, dtype=float)
    elif eng.symbolic:
        params.R = as_symarray(params.R)
    coord = eng.real_array("coord", (3,), -50, 50)
    params.slices.zslice_coord = [
        coord if i == level else coords[i] for i in range(nb_slice)
    ]
    height = None
    if refraction:
        height = eng.real("height", -50, 50)
        params.refraction_index = 1.25 if angle else eng.real("n", 1, 2)
        params.interface_coord = [0, 0, height]
    return calib, level, coord, height


def one_side(eng, height, z0, z):
    if height is not None:
        eng.assume(lor(land(height > z0, height > z), land(height <= z0, height <= z)))


def to_space(eng, angle=0, refraction=False, nb_slice=2, rotation="file"):
    """pixel, point of the plane, pixel"""
    calib, level, coord, height = camera(eng, nb_slice, angle, refraction, rotation)
    use = eng.choice("angle", [True, False]) if angle else True
    a, b, z0 = plane(eng, coord, ANGLES[angle] if use else (0, 0, 0))
    X, Y = eng.real("X", 0, 2000), eng.real("Y", 0, 2000)
    nbypix = eng.int("nbypix", 1, 2000)
    x, y, z = calib.pix2phys(X, Y, level, nbypix, angle=use)
    same(eng, 100 * z, z0 + a * 100 * x + b * 100 * y, "plane", "the point is on the plane")
    one_side(eng, height, z0, 100 * z)
    X2, Y2 = calib.phys2pix(x, y, z)
    same(eng, X2, X, "round trip", "X of the pixel")
    same(eng, Y2, nbypix - Y, "round trip", "Y of the pixel")


def to_pixel(eng, angle=0, refraction=False, nb_slice=2, n=2, rotation="file"):
    """points of the plane, pixels, points"""
    calib, level, coord, height = camera(eng, nb_slice, angle, refraction, rotation)
    a, b, z0 = plane(eng, coord, ANGLES[angle])
    x, y = eng.real_array("x", (n,), -0.5, 0.5), eng.real_array("y", (n,), -0.5, 0.5)
    z = (z0 + a * 100 * x + b * 100 * y) / 100
    for i in range(n):
        one_side(eng, height, z0, 100 * z[i])
    before = [v.copy() for v in (x, y, z)]
    X, Y = calib.phys2pix(x, y, z)
    for now, was, name in zip((x, y, z), before, "xyz"):
        for i in range(n):
            eng.check(now[i] == was[i], "arguments", f"{name} unchanged")
    eng.check(X.shape == (n,) and Y.shape == (n,), "shape")
    nbypix = eng.int("nbypix", 1, 2000)
    X0, Y0 = X.copy(), Y.copy()
    back = calib.pix2phys(X, nbypix - Y, level, nbypix)
    for i in range(n):
        eng.check(land(X[i] == X0[i], Y[i] == Y0[i]), "arguments", "pixels unchanged")
        for now, was, name in zip(back, (x, y, z), "xyz"):
            now = now[i] if np.ndim(now) else now
            same(eng, now, was[i], "round trip", f"{name} of the point")


def line_of_sight(eng):
    """without interface nor distortion: the pixel of a point is its central projection"""
    calib, level, coord, height = camera(eng, 1, 0, False, "any")
    p = calib.params
    x, y, z = (eng.real(k, -0.5, 0.5) for k in "xyz")
    X, Y = calib.phys2pix(x, y, z)
    c = [100 * (p.R[3 * i] * x + p.R[3 * i + 1] * y + p.R[3 * i + 2] * z) + p.T[i] for i in range(3)]
    same(eng, X, p.f[0] * c[0] / c[2] + p.C[0], "projection", "X of the pixel")
    same(eng, Y, p.f[1] * c[1] / c[2] + p.C[1], "projection", "Y of the pixel")


def displacements(eng, angle=0, refraction=False, rotation="file"):
    """displacement in space: difference of the positions of the two ends"""
    calib, level, coord, height = camera(eng, 2, angle, refraction, "file")
    use = eng.choice("angle", [True, False]) if angle else True
    X, Y = eng.real("X", 0, 2000), eng.real("Y", 0, 2000)
    dx, dy = eng.real("dx", -50, 50), eng.real("dy", -50, 50)
    nbypix = 2000
    result = calib.pix2phys_UV(X, Y, dx, dy, level, nbypix, angle=use)
    here = calib.pix2phys(X, Y, level, nbypix, angle=use)
    start = calib.pix2phys(X - dx / 2, Y - dy / 2, level, nbypix, angle=use)
    end = calib.pix2phys(X + dx / 2, Y + dy / 2, level, nbypix, angle=use)
    for i, name in enumerate("xyz"):
        same(eng, result[i], here[i], "positions", name)
        same(eng, result[3 + i], end[i] - start[i], "displacements", name)


def rescale(eng):
    """without rotation: positions proportional to the indices"""
    calib, _ = read_calibration(2)
    params = calib.params
    del params.R
    params._key_attribs.remove("R")
    params.f = [eng.real("fx", 1, 1000), eng.real("fy", 1, 1000)]
    params.T = eng.real_array("T", (3,), -1000, 1000)
    x, y = eng.real("x", -10, 10), eng.real("y", -10, 10)
    X, Y = calib.phys2pix(x, y)
    nbypix = eng.int("nbypix", 1, 2000)
    x2, y2, _ = calib.pix2phys(X, nbypix - Y, eng.choice("level", [0, 1]), nbypix)
    same(eng, x2, x, "round trip", "x of the point")
    same(eng, y2, y, "round trip", "y of the point")


POINTS = [((0, 0), (0, 5)), ((3, 7), (1, 7)), ((10, 20), (13, 24)), ((5, 0), (-7, 5))]


def simple(eng, points=0):
    """two points at a known distance, pixels with any aspect ratio"""
    point0, point1 = POINTS[points]
    dy, dx = point1[0] - point0[0], point1[1] - point0[1]
    distance = eng.real("distance", 0.001, 1000)
    # the aspect ratios such that the distance is a rational number of pixels
    if dx and dy:
        t = eng.real("t", 0.1, 0.9)
        aspect = abs(dx / dy) * 2 * t / (1 - t * t)
    else:
        aspect = eng.real("aspect", 0.1, 10)
    origin = eng.int("iy0", -100, 5000), eng.int("ix0", -100, 5000)
    orig_phys = eng.real("y0", -100, 100), eng.real("x0", -100, 100)
    calib = Calibration2DSimple(
        point0,
        point1,
        distance,
        aspect_ratio_pixel=aspect,
        shape_image=(100, 200),
        point_origin=origin,
        orig_phys=orig_phys,
    )
    x, y = calib.pix2phys(origin[1], origin[0])
    same(eng, x, orig_phys[1], "origin", "x of the origin")
    same(eng, y, orig_phys[0], "origin", "y of the origin")
    ends = [calib.pix2phys(p[1], p[0]) for p in (point0, point1)]
    d = [b - a for a, b in zip(*ends)]
    eng.check_close(d[0] * d[0] + d[1] * d[1], distance * distance, "distance", 1e-6 if eng.symbolic else 1e-4,
                    "distance between the two points")
    ix, iy = eng.real_array("ix", (2,), 0, 5000), eng.real_array("iy", (2,), 0, 5000)
    u, v = eng.real_array("u", (2,), -50, 50), eng.real_array("v", (2,), -50, 50)
    x1, y1, du, dv = calib.displ2phys(ix, iy, u, v)
    x0, y0 = calib.pix2phys(ix, iy)
    x2, y2 = calib.pix2phys(ix + u, iy + v)
    ux, uy = calib.pix2phys(origin[1] + 1, origin[0] + 1)
    same(eng, uy - orig_phys[0], aspect * (ux - orig_phys[1]), "aspect ratio", "size of a pixel")
    eng.check(ux > orig_phys[1], "aspect ratio", "increasing positions")
    for i in range(2):
        same(eng, x1[i], x0[i], "positions", "x")
        same(eng, y1[i], y0[i], "positions", "y")
        same(eng, x2[i] - x0[i], du[i], "displacements", "x")
        same(eng, y2[i] - y0[i], dv[i], "displacements", "y")


H = dict(shims=dict(builtins_=False))
CASES = [
    dict(angle=i, refraction=r, rotation="file" if i and r else "any")
    for i in range(len(ANGLES))
    for r in (False, True)
]
HARNESSES = [
    Harness(read, labels=["camera", "planes", "interface"],
            bounds="files with 1, 2 or 4 planes, with or without angles and interface", **H),
    Harness(to_space, quick=CASES, thorough=[dict(c, nb_slice=4) for c in CASES],
            labels=["plane", "round trip"],
            bounds="any camera (rotation, position, focal lengths, centre), pixel, plane and index of refraction; 4 rotations of the plane", **H),
    Harness(to_pixel, quick=CASES, thorough=[dict(c, nb_slice=4, n=3) for c in CASES],
            labels=["round trip", "arguments", "shape"], bounds="same, arrays of points", **H),
    Harness(line_of_sight, labels=["projection"], bounds="any camera, any point", **H),
    Harness(displacements, quick=CASES, labels=["positions", "displacements"],
            bounds="camera with a concrete rotation, any position and displacement", **H),
    Harness(rescale, labels=["round trip"], bounds="any scales, offsets, points", **H),
    Harness(simple, quick=[dict(points=i) for i in range(len(POINTS))],
            labels=["origin", "distance", "aspect ratio", "positions", "displacements"],
            bounds="4 couples of points, any distance, aspect ratio, origin and positions", **H),
]
