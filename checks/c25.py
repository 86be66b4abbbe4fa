"""Grid of vectors and interrogation windows of the first pass.

Real FirstWorkPIV objects are prepared for images of symbolic sizes; the loop over the
vectors is run on symbolic images with a correlation object which records its arguments.
"""

import types

import fluidimage.works.piv.fix
import fluidimage.works.piv.multipass
import fluidimage.works.piv.singlepass
import numpy as np

from symx.core import close, land, lnot, lor, poly_close
from symx.runner import Harness

ASSUMPTIONS = [
    "the correlation object is a stand-in which records the windows and returns any "
    "displacement (correlation itself: C20-C23)",
    "pixels are real numbers (the windows are cast to float32 in the code)",
]


def get_work(size0, size1=None, overlap=0.5, method="scipy.ndimage", **kw):
    from fluidimage.works.piv.multipass import WorkPIV
    from fluidimage.works.piv.singlepass import FirstWorkPIV

    params = WorkPIV.create_default_params()
    params.piv0.shape_crop_im0 = size0
    params.piv0.shape_crop_im1 = size1
    params.piv0.grid.overlap = overlap
    params.piv0.method_correl = method
    params.piv0.method_subpix = "centroid"
    params.multipass.number = kw.pop("number", 1)
    params.multipass.use_tps = False
    for k, v in kw.items():
        setattr(params.piv0, k, v)
    return FirstWorkPIV(params), params


def grid(eng, size, overlap, factor=3):
    """regular grid, all the windows in the image"""
    work, params = get_work(size, overlap=overlap)
    w = (size, size) if isinstance(size, int) else size
    len_y = eng.int("len_y", w[0], factor * w[0])
    len_x = eng.int("len_x", w[1], factor * w[1])
    work._prepare_with_image(imshape=(len_y, len_x))
    lens, vecs = (len_y, len_x), (work.iyvecs, work.ixvecs)
    for d in (0, 1):
        n, v = w[d], vecs[d]
        step = n - round(overlap * n)
        eng.check(len(v) >= 1, "at least one vector")
        begin, end = n // 2, n - n // 2
        eng.check(v[0] == begin, "first window at the border of the image")
        for i in range(len(v)):
            eng.check(
                land(v[i] - begin >= 0, v[i] + end <= lens[d]), "windows in the image"
            )
            if 0 < i < len(v) - 1:
                eng.check(v[i] - v[i - 1] == step, "configured step")
        if len(v) > 1:
            last = v[-1] - v[-2]
            eng.check(land(last >= 1, last <= step), "configured step")
        # the part of the image without vectors is smaller than the half of a step
        eng.check(
            lens[d] - end - v[-1] <= max(step / 2, 1) - (0 if step > 1 else 1),
            "the image is covered",
        )
    gx, gy = work.ixvecs_grid, work.iyvecs_grid
    nx, ny = len(work.ixvecs), len(work.iyvecs)
    eng.check(len(gx) == nx * ny and len(gy) == nx * ny, "one vector per position")
    for k in range(nx * ny):
        eng.check(
            land(gx[k] == work.ixvecs[k % nx], gy[k] == work.iyvecs[k // nx]),
            "one vector per position",
        )


class Correl:
    displacement_max = None

    def __init__(self, eng, fails=()):
        self.eng = eng
        self.windows = []
        self.subpix = []
        self.fails = fails
        self.out = []

    def __call__(self, im0, im1):
        self.windows.append((im0, im1))
        return f"map{len(self.windows) - 1}", 1.5

    def compute_displacements_from_correl(self, correl, norm=1.0):
        from fluidimage.calcul.errors import PIVError

        i = int(correl[3:])
        eng = self.eng
        assert norm == 1.5
        if i in self.fails and bool(eng.bool(f"fail{i}")):
            self.out.append(None)
            raise PIVError(explanation="no peak", results=(np.nan, np.nan, np.nan))
        r = (eng.real(f"mx{i}", -5, 5), eng.real(f"my{i}", -5, 5),
             eng.real(f"mc{i}", 0, 1), [i])
        self.out.append(r)
        return r

    def apply_subpix(self, dx, dy, correl):
        from fluidimage.calcul.errors import PIVError

        i = int(correl[3:])
        fail = i in self.fails and bool(self.eng.bool(f"fail_subpix{i}"))
        self.subpix.append((i, dx, dy, fail))
        if fail:
            raise PIVError(explanation="wrong subpix")
        return dx + 0.25, dy - 0.125

    def get_indices_no_displacement(self):
        return 0, 0


def make_couple(im0, im1):
    from fluidimage.data_objects.piv import ArrayCouple

    return ArrayCouple(names=("im0", "im1"), arrays=(im0, im1))


def windows_of(w):
    return w // 2, w - w // 2


def check_window(eng, window, im, cy, cx, shape, label):
    """nominal shape, pixels (minus the minimum), zero outside"""
    eng.check(tuple(window.shape) == tuple(shape), "nominal shape")
    vmin = im.min()
    sy, sx = shape[0] // 2, shape[1] // 2
    conds = []
    for a in range(shape[0]):
        for b in range(shape[1]):
            y, x = cy - sy + a, cx - sx + b
            if 0 <= y < im.shape[0] and 0 <= x < im.shape[1]:
                conds.append(poly_close(window[a, b], im[y, x] - vmin, 1e-3))
            else:
                conds.append(window[a, b] == 0)
    eng.check(land(conds), label)


def extract(eng, shape, size0, size1=None, overlap=0.5, fails=()):
    """windows given to the correlation and results of the vectors"""
    work, params = get_work(size0, size1, overlap)
    s0 = (size0, size0) if isinstance(size0, int) else size0
    s1 = s0 if size1 is None else (size1, size1) if isinstance(size1, int) else size1
    correl = work.correl = Correl(eng, fails)
    im0 = eng.real_array("a", shape, 0, 255)
    im1 = eng.real_array("b", shape, 0, 255)
    im0_copy, im1_copy = im0.copy(), im1.copy()
    result = work.calcul(make_couple(im0, im1))
    n = len(work.ixvecs_grid)
    eng.check(len(correl.windows) == n, "one correlation per vector")
    for k in range(n):
        cx, cy = int(work.ixvecs_grid[k]), int(work.iyvecs_grid[k])
        w0, w1 = correl.windows[k]
        check_window(eng, w0, im0_copy, cy, cx, s0, "pixels of the first image")
        check_window(eng, w1, im1_copy, cy, cx, s1, "pixels of the second image")
        eng.check(land(result.xs[k] == cx, result.ys[k] == cy), "position of the vector")
    eng.check(
        land(close(im0, im0_copy), close(im1, im1_copy)), "images unchanged"
    )
    applied = {i: f for i, _, _, f in correl.subpix}
    for k in range(n):
        out = correl.out[k]
        if out is None:
            eng.check(
                land(np.isnan(result.deltaxs[k]), np.isnan(result.deltays[k])),
                "failure of a vector",
            )
            eng.check(result.errors.get(k) == "no peak", "failure of a vector")
            continue
        mx, my, mc, other = out
        if applied[k]:
            eng.check(result.errors.get(k) == "wrong subpix", "failure of a vector")
        else:
            eng.check(k not in result.errors, "results of the other vectors")
            mx, my = mx + 0.25, my - 0.125
        eng.check(
            land(close(result.deltaxs[k], mx, 1e-4), close(result.deltays[k], my, 1e-4),
                 close(result.correls_max[k], mc, 1e-4)),
            "results of the other vectors",
        )
        eng.check(result.correls[k] == f"map{k}", "correlation map of the vector")
        eng.check(result.secondary_peaks[k] == [k], "other peaks of the vector")


def invalid(eng, size0):
    """windows of the second image not larger than these of the first one"""
    h1 = eng.int("h1", 2, 10)
    w1 = eng.int("w1", 2, 10)
    h1, w1 = int(h1), int(w1)
    ok = h1 <= size0[0] and w1 <= size0[1]
    try:
        work, params = get_work(size0, (h1, w1))
    except ValueError:
        eng.check(not ok, "windows larger than the first ones are refused")
        return
    eng.check(ok, "windows larger than the first ones are refused")
    eng.check(
        work.shape_crop_im0 == tuple(size0) and work.shape_crop_im1 == (h1, w1),
        "configured windows",
    )


OVERLAPS = (0, 0.25, 0.5, 0.75)

HARNESSES = [
    Harness(
        grid,
        quick=[
            dict(size=s, overlap=o)
            for s, o in (
                (8, 0.5), (8, 0), (7, 0.5), (9, 0.3), ((6, 11), 0.5), ((12, 5), 0.75),
                ((5, 4), 0.25), (4, -0.5), (3, 0.6), (16, 0.9),
            )
        ],
        thorough=[
            dict(size=s, overlap=o, factor=f)
            for s in (2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 32, (8, 3), (5, 12))
            for o in (0, 0.1, 0.25, 1 / 3, 0.5, 0.7, -0.3, -1)
            for f in (4,)
        ],
        labels=["windows in the image", "configured step", "the image is covered"],
        bounds="all image sizes from one to three windows (thorough: four); the listed "
        "windows and overlaps",
    ),
    Harness(
        extract,
        quick=[
            dict(shape=(5, 6), size0=4),
            dict(shape=(4, 4), size0=4),
            dict(shape=(5, 5), size0=(3, 4), size1=(2, 3), fails=(1,)),
            dict(shape=(6, 5), size0=3, overlap=0.3, fails=(0, 4)),
            dict(shape=(4, 7), size0=(4, 5), size1=3, overlap=0.75),
        ],
        labels=["pixels of the first image", "pixels of the second image",
                "failure of a vector", "results of the other vectors"],
        bounds="images up to 6x7 with any pixels, windows from 2x3 to 4x5",
        stubs=["correlation object: records its arguments"],
    ),
    Harness(
        invalid,
        quick=[dict(size0=(6, 5))],
        labels=["windows larger than the first ones are refused"],
        bounds="windows from 2x2 to 10x10 for the second image",
    ),
]
