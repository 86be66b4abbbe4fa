"""Masking of the images: strings 'start:stop', pixels kept, coordinates.

The bounds of the crop are symbolic integers (numerals in the string given by the user).
"""

import fluidimage.data_objects.piv
import fluidimage.works.optical_flow
import fluidimage.works.piv.multipass
import numpy as np

from checks.c25 import Correl, get_work
from symx.core import close, land, lnot, lor
from symx.patch import patched
from symx.runner import Harness

ASSUMPTIONS = [
    "the correlation and the optical flow are stand-ins (C20-C23 for the correlation; "
    "cv2 is outside)",
    "the images have distinct concrete pixels",
]


def bound(eng, name, lo, hi):
    """optional bound: text and value"""
    if not bool(eng.bool(f"has_{name}")):
        return "", None
    v = eng.int(name, lo, hi)
    return eng.numeral(v), v


def parse(eng):
    """the string gives the slices"""
    from fluidimage.data_objects.piv import get_slices_from_strcrop

    parts, values = [], []
    for axis in "yx":
        t0, v0 = bound(eng, axis + "0", -1000, 1000)
        t1, v1 = bound(eng, axis + "1", -1000, 1000)
        parts.append(f"{t0}:{t1}")
        values.append((v0, v1))
    sep = eng.choice("sep", [", ", ",", " ,  "])
    slices = get_slices_from_strcrop(sep.join(parts))
    eng.check(len(slices) == 2, "rows and columns")
    for s, (v0, v1) in zip(slices, values):
        eng.check((s.start is None) == (v0 is None), "open bounds")
        eng.check((s.stop is None) == (v1 is None), "open bounds")
        eng.check(s.step in (None, 1), "no step")
        if v0 is not None:
            eng.check(s.start == v0, "bounds")
        if v1 is not None:
            eng.check(s.stop == v1, "bounds")


def image(shape, first=100):
    h, w = shape
    return first + np.arange(h * w).reshape(h, w)


def resolve(v0, v1, n):
    """first index and index after the last one"""
    def absolute(v):
        if v < 0:
            v = v + n
        return max(0, min(n, v))

    i0 = 0 if v0 is None else absolute(v0)
    i1 = n if v1 is None else absolute(v1)
    return int(i0), int(i1)


def params_mask(strcrop):
    from fluidimage.works.piv.multipass import WorkPIV

    params = WorkPIV.create_default_params()
    params.mask.strcrop = strcrop
    return params.mask


def couple(eng, axis, how, n=5):
    """the arrays of a couple are the pixels of the crop window"""
    from fluidimage.data_objects.piv import ArrayCouple

    shape = [7, 6]
    shape[axis] = n
    t0, v0 = bound(eng, "v0", -n - 1, n + 1)
    t1, v1 = bound(eng, "v1", -n - 1, n + 1)
    parts = ["2:5", "1:4"]
    limits = [(2, 5), (1, 4)]
    parts[axis] = f"{t0}:{t1}"
    limits[axis] = resolve(v0, v1, n)
    mask = params_mask(", ".join(parts))
    ims = image(shape), image(shape, 1000)
    if how == "init":
        c = ArrayCouple(names=("a", "b"), arrays=ims, params_mask=mask)
    elif how == "apply":
        c = ArrayCouple(names=("a", "b"), arrays=ims)
        c.apply_mask(mask)
    elif how == "twice":
        c = ArrayCouple(names=("a", "b"), arrays=ims, params_mask=mask)
        c.apply_mask(mask)
        c.apply_mask(mask)
    elif how == "read":
        def imread(path):
            return {"a.png": ims[0], "b.png": ims[1]}[path.split("/")[-1]]

        with patched((fluidimage.imread, imread)):
            c = ArrayCouple(
                names=("a", "b"), paths=("/tmp/a.png", "/tmp/b.png"), params_mask=mask
            )
    arrays = c.get_arrays()
    eng.check(tuple(c.shape_images) == tuple(shape), "shape of the images")
    (y0, y1), (x0, x1) = limits
    for im, arr in zip(ims, arrays):
        spec = [[int(im[y, x]) for x in range(x0, x1)] for y in range(y0, y1)]
        eng.check(arr.shape == (max(0, y1 - y0), max(0, x1 - x0)), "pixels of the window")
        if arr.size:
            eng.check(arr.tolist() == spec, "pixels of the window")


def conversion(eng, points):
    """conversions to the coordinates of the cropped image and back"""
    work, params = get_work(4)
    ty0, y0 = bound(eng, "y0", 0, 2000)
    ty1, y1 = bound(eng, "y1", -2000, 2000)
    tx0, x0 = bound(eng, "x0", 0, 2000)
    tx1, x1 = bound(eng, "x1", -2000, 2000)
    params.mask.strcrop = f"{ty0}:{ty1}, {tx0}:{tx1}"
    if points == "int":
        xs = eng.int_array("x", (3,), -3000, 3000)
        ys = eng.int_array("y", (3,), -3000, 3000)
    else:
        xs = eng.real_array("x", (3,), -3000, 3000)
        ys = eng.real_array("y", (3,), -3000, 3000)
    bx, by = xs.copy(), ys.copy()
    x0, y0 = x0 or 0, y0 or 0
    ox, oy = work._xyoriginalimage_from_xymasked(xs, ys)
    mx, my = work._xymasked_from_xyoriginalimage(ox, oy)
    for i in range(3):
        eng.check(land(close(ox[i], bx[i] + x0, 1e-9), close(oy[i], by[i] + y0, 1e-9)),
                  "coordinates of the original image")
        eng.check(land(close(mx[i], bx[i], 1e-9), close(my[i], by[i], 1e-9)),
                  "conversion and back")
        eng.check(land(xs[i] == bx[i], ys[i] == by[i]), "arguments unchanged")
    mx, my = work._xymasked_from_xyoriginalimage(xs, ys)
    for i in range(3):
        eng.check(land(close(mx[i], bx[i] - x0, 1e-9), close(my[i], by[i] - y0, 1e-9)),
                  "coordinates of the cropped image")


def vectors(eng, axis, n, size=4, passes=1):
    """position of a vector: in the original image, where its window has been taken"""
    from fluidimage.data_objects.piv import ArrayCouple
    from fluidimage.works.piv.singlepass import WorkPIVFromDisplacement

    shape = [9, 8]
    shape[axis] = n
    t0, v0 = bound(eng, "v0", -n - 1, n)
    t1, v1 = bound(eng, "v1", -n, n + 1)
    parts = ["1:7", "2:8"]
    parts[axis] = f"{t0}:{t1}"
    i0, i1 = resolve(v0, v1, n)
    # several passes: at least two vectors in each direction (interpolation)
    eng.assume(i1 - i0 >= size + (2 if passes > 1 else 0))
    work, params = get_work(size, number=passes)
    params.mask.strcrop = ",".join(parts)
    works = [work]
    for i in range(1, passes):
        params.multipass.use_tps = True
        works.append(WorkPIVFromDisplacement(params, index_pass=i, shape_crop_im0=size))
    ims = image(shape), image(shape, 1000)
    result = ArrayCouple(names=("a", "b"), arrays=ims)
    for work in works:
        correl = work.correl = Correl(eng)
        correl.apply_subpix = lambda dx, dy, c: (dx, dy)
        correl.compute_displacements_from_correl = lambda c, norm=1.0: (0.0, 0.0, 1.0, [])
        result = work.calcul(result)
        eng.check(len(result.xs) == len(correl.windows) >= 1, "one window per vector")
        limits = [(1, 7), (2, 8)]
        limits[axis] = (i0, i1)
        (y0, y1), (x0, x1) = limits
        mins = [int(im[y0:y1, x0:x1].min()) for im in ims]
        for k, windows in enumerate(correl.windows):
            x, y = int(result.xs[k]), int(result.ys[k])
            h = size // 2
            eng.check(
                y0 <= y - h and y + h <= y1 and x0 <= x - h and x + h <= x1,
                "windows in the crop window",
            )
            for im, vmin, window in zip(ims, mins, windows):
                spec = im[y - h : y + h, x - h : x + h] - vmin
                eng.check(
                    np.array(window).tolist() == spec.tolist(),
                    "position in the original image",
                )


def optical_flow(eng, n, axis):
    """positions of the optical flow, in the original image"""
    from fluidimage.data_objects.piv import ArrayCouple
    from fluidimage.works.optical_flow import WorkOpticalFlow

    real = fluidimage.works.optical_flow.optical_flow
    params = WorkOpticalFlow.create_default_params()
    shape = [7, 8]
    shape[axis] = n
    t0, v0 = bound(eng, "v0", -n - 1, n - 1)
    parts = ["1:7", "2:8"]
    parts[axis] = f"{t0}:"
    i0, i1 = resolve(v0, None, n)
    limits = [(1, 7), (2, 8)]
    limits[axis] = (i0, n)
    (y0, y1), (x0, x1) = limits
    params.mask.strcrop = ",".join(parts)
    ims = image(shape), image(shape, 1000)
    pos = eng.real_array("p", (2, 2), 0, 10)
    disp = eng.real_array("d", (2, 2), -10, 10)
    given = []

    def flow(im0, im1, *args, **kwargs):
        given.append((np.array(im0), np.array(im1)))
        return pos.copy(), disp.copy()

    with patched((real, flow)):
        result = WorkOpticalFlow(params).calcul(
            ArrayCouple(names=("a", "b"), arrays=ims)
        )
    eng.check(len(given) == 1, "one computation")
    for im, arr in zip(ims, given[0]):
        eng.check(arr.tolist() == im[y0:y1, x0:x1].tolist(), "pixels of the window")
    for i in range(2):
        eng.check(
            land(
                close(result.xs[i], pos[i, 0] + x0, 1e-6),
                close(result.ys[i], pos[i, 1] + y0, 1e-6),
            ),
            "position in the original image",
        )
        eng.check(
            land(
                close(result.deltaxs[i], disp[i, 0], 1e-6),
                close(result.deltays[i], disp[i, 1], 1e-6),
            ),
            "displacements",
        )


HARNESSES = [
    Harness(
        parse,
        quick=[{}],
        labels=["bounds", "open bounds"],
        bounds="two ranges, any bounds in [-1000, 1000] or open",
    ),
    Harness(
        couple,
        quick=[
            dict(axis=0, how="init"),
            dict(axis=1, how="apply"),
            dict(axis=0, how="twice", n=4),
            dict(axis=1, how="read", n=3),
        ],
        thorough=[
            dict(axis=a, how=h, n=6)
            for a in (0, 1) for h in ("init", "apply", "twice", "read")
        ],
        labels=["pixels of the window", "shape of the images"],
        bounds="images of 3 to 7 pixels, all the bounds (negative, open, outside)",
        stubs=["imread (case 'read')"],
        thorough_budget_s=900,
    ),
    Harness(
        conversion,
        quick=[dict(points="int"), dict(points="real")],
        labels=["conversion and back", "coordinates of the original image"],
        bounds="any start in [0, 2000] or open, any 3 positions in [-3000, 3000]",
    ),
    Harness(
        vectors,
        quick=[
            dict(axis=0, n=6),
            dict(axis=1, n=7, passes=1),
            dict(axis=1, n=7, passes=2),
        ],
        thorough=[
            dict(axis=0, n=10), dict(axis=1, n=10), dict(axis=0, n=9, passes=2),
        ],
        labels=["position in the original image", "windows in the crop window"],
        bounds="images of 6 to 9 pixels (10 in thorough), windows of 4 pixels, all bounds",
        stubs=["correlation object (null displacements)"],
        thorough_budget_s=900,
    ),
    Harness(
        optical_flow,
        quick=[dict(n=5, axis=0), dict(n=6, axis=1)],
        labels=["position in the original image", "pixels of the window"],
        bounds="images of 5 to 8 pixels, all the starts, any positions",
        stubs=["fluidimage.works.optical_flow.optical_flow"],
    ),
]
