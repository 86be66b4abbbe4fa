"""Windows shifted by the estimate (later passes), chain of passes.

`WorkPIVFromDisplacement` objects are run from symbolic estimates (any real, NaN
included); the windows given to the correlation are compared with the pixels of the
images.  The chain `WorkPIV.calcul` is run with symbolic displacements.
"""

import types

import fluidimage.works.piv.fix
import fluidimage.works.piv.multipass
import fluidimage.works.piv.singlepass
import numpy as np

from checks.c25 import Correl, check_window, make_couple
from symx.core import close, land, lnot, lor, poly_close
from symx.runner import Harness

ASSUMPTIONS = [
    "the correlation object is a stand-in which records the windows and returns any "
    "displacement (correlation itself: C20-C23)",
    "the interpolation on the grid of the pass is a stand-in which returns any real or "
    "NaN (interpolation itself: C27, C32)",
    "the conversion of NaN to int32 gives -2**31 (x86)",
]


def get_work(size0, size1=None, overlap=0.5, index_pass=1, number=2):
    from fluidimage.works.piv.multipass import WorkPIV
    from fluidimage.works.piv.singlepass import WorkPIVFromDisplacement

    params = WorkPIV.create_default_params()
    params.piv0.shape_crop_im0 = size0
    params.piv0.shape_crop_im1 = size1
    params.piv0.grid.overlap = overlap
    params.piv0.method_correl = "scipy.ndimage"
    params.piv0.method_subpix = "centroid"
    params.multipass.number = number
    params.multipass.use_tps = False
    return WorkPIVFromDisplacement(params, index_pass=index_pass), params


def previous_result(eng, couple, params):
    from fluidimage.data_objects.piv import HeavyPIVResults

    return HeavyPIVResults(
        np.zeros(1, "float32"), np.zeros(1, "float32"), np.zeros(1), np.zeros(1), {},
        couple=couple, params=params,
    )


def images(shape):
    """distinct pixels, none of them equal to the padding"""
    h, w = shape
    im0 = 1000.0 + np.arange(h * w).reshape(h, w)
    im1 = 5000.0 + np.arange(h * w).reshape(h, w)
    # smaller value in a corner such that no other pixel is 0 in the padded images
    im0[h - 1, w - 1] = 0
    im1[h - 1, w - 1] = 1
    return im0, im1


def shifted(eng, shape, size0, size1, ivec, xlim, ylim, nan=False, index_pass=1,
            number=2, pixels=False, overlap=0.5):
    """windows and result of one vector (the estimates of the others are 0)"""
    work, params = get_work(size0, size1, overlap, index_pass, number)
    s0 = (size0, size0) if isinstance(size0, int) else size0
    s1 = s0 if size1 is None else (size1, size1) if isinstance(size1, int) else size1
    correl = work.correl = Correl(eng)
    if pixels:
        im0 = eng.real_array("a", shape, 0, 255)
        im1 = eng.real_array("b", shape, 0, 255)
    else:
        im0, im1 = images(shape)
    work._prepare_with_image(imshape=shape)
    n = len(work.ixvecs_grid)
    ex = eng.real("ex", *xlim)
    ey = eng.real("ey", *ylim)
    missing = nan and bool(eng.bool("missing"))
    if missing:
        ex = ey = np.nan
    estx = eng.array([ex if k == ivec else 0.25 for k in range(n)])
    esty = eng.array([ey if k == ivec else -0.25 for k in range(n)])
    calls = []

    def apply_interp(piv_results, last=False):
        calls.append(piv_results)
        piv_results.deltaxs_approx = estx
        piv_results.deltays_approx = esty

    work.apply_interp = apply_interp
    previous = previous_result(eng, make_couple(im0, im1), params)
    result = work.calcul(previous)
    eng.check(len(calls) == 1 and calls[0] is previous, "estimate of the previous pass")
    failed = ivec in result.errors
    eng.check(len(correl.windows) == n - int(failed), "one correlation per vector")
    last_pass = index_pass == number - 1
    iw = 0
    for k in range(n):
        gx, gy = int(work.ixvecs_grid[k]), int(work.iyvecs_grid[k])
        if k == ivec and missing:
            eng.check(failed, "missing estimate: error")
            eng.check(
                land(np.isnan(result.deltaxs[k]), np.isnan(result.deltays[k])),
                "missing estimate: error",
            )
            continue
        if k != ivec:
            dx = dy = 0
        else:
            # nearest integer
            dx, dy = int(result.deltaxs_input[k]), int(result.deltays_input[k])
            eng.check(
                land(dx - ex <= 0.5, ex - dx <= 0.5, dy - ey <= 0.5, ey - dy <= 0.5),
                "input: rounded estimate",
            )
        # the two windows
        x, y = result.xs[k], result.ys[k]
        if k == ivec and failed:
            # outside of the (padded) images: not computed, reported
            eng.check(
                land(np.isnan(result.deltaxs[k]), np.isnan(result.deltays[k])),
                "windows outside: error",
            )
            symmetrical = [
                0 <= c <= m
                for c, m in (
                    (gx - dx // 2, shape[1]), (gx - dx // 2 + dx, shape[1]),
                    (gy - dy // 2, shape[0]), (gy - dy // 2 + dy, shape[0]),
                )
            ]
            eng.check(not all(symmetrical), "error only if outside")
            continue
        cx0, cy0 = x - dx / 2, y - dy / 2
        cx1, cy1 = cx0 + dx, cy0 + dy
        eng.check(
            cx0 == int(cx0) and cy0 == int(cy0), "vector at the middle of the windows"
        )
        eng.check(
            land(0 <= x, x <= shape[1], 0 <= y, y <= shape[0])
            if not (k == ivec and max(abs(dx), abs(dy)) > 1) else True,
            "position in the image",
        )
        w0, w1 = correl.windows[iw]
        check_window(eng, w0, im0, int(cy0), int(cx0), s0, "pixels of the first image")
        check_window(eng, w1, im1, int(cy1), int(cx1), s1, "pixels of the second image")
        near = [
            abs(a - b) <= (abs(d) + 1) / 2
            for a, b, d in ((x, gx, dx), (y, gy, dy))
        ]
        eng.check(all(near), "window of the grid point between the two windows")
        if all(
            0 <= c <= m
            for c, m in (
                (gx - dx // 2, shape[1]), (gx - dx // 2 + dx, shape[1]),
                (gy - dy // 2, shape[0]), (gy - dy // 2 + dy, shape[0]),
            )
        ):
            eng.check(abs(x - gx) <= 0.5 and abs(y - gy) <= 0.5, "centred differences")
        else:
            # one of the windows stays at the grid point
            eng.check(
                (cx0 == gx and cy0 == gy) or (cx1 == gx and cy1 == gy),
                "one window at the grid point",
            )
        mx, my, mc, _ = correl.out[iw]
        if last_pass:
            mx, my = mx + 0.25, my - 0.125
        eng.check(
            land(close(result.deltaxs[k], mx + dx, 1e-4),
                 close(result.deltays[k], my + dy, 1e-4)),
            "sum of the input and of the measure",
        )
        iw += 1
    eng.check(
        len(result.deltaxs_input) == n and len(result.deltays_input) == n,
        "input: rounded estimate",
    )


def sizes(eng, number, coeff, size0, size1):
    """windows of the passes"""
    from fluidimage.works.piv.multipass import WorkPIV

    params = WorkPIV.create_default_params()
    h = int(eng.int("h", 6, 20))
    w = int(eng.int("w", 6, 20))
    shape = {"int": h, "tuple": (h, w), "list": [h, w]}[size0]
    params.piv0.shape_crop_im0 = shape
    hw = [h, h] if size0 == "int" else [h, w]
    hw1 = hw
    if size1 is not None:
        h1 = int(eng.int("h1", hw[0] - 2, hw[0]))
        params.piv0.shape_crop_im1 = (h1, hw[1])
        hw1 = [h1, hw[1]]
    params.piv0.method_correl = "scipy.ndimage"
    params.multipass.number = number
    params.multipass.coeff_zoom = coeff
    work = WorkPIV(params)
    coeffs = [coeff] * (number - 1) if isinstance(coeff, int) else list(coeff)
    zoom = 1
    eng.check(len(work.works_piv) == number, "number of passes")
    for i in range(number):
        if i:
            zoom = zoom * coeffs[i - 1]
        expected0 = tuple(int(n / zoom) for n in hw)
        expected1 = tuple(int(n / zoom) for n in hw1)
        wp = work.works_piv[i]
        eng.check(wp.shape_crop_im0 == expected0, "windows reduced by the coefficient")
        eng.check(wp.shape_crop_im1 == expected1, "windows reduced by the coefficient")
        eng.check(tuple(wp.correl.im0_shape) == expected0 if hasattr(
            wp.correl, "im0_shape") else True, "correlation of the windows")
        eng.check(work.works_fix[i].piv_work is wp, "vectors fixed on their grid")


class CorrelPass(Correl):
    """displacement of the pass: symbolic; fails for some of the vectors"""

    def __init__(self, eng, tag, nfails, small):
        super().__init__(eng)
        self.tag = tag
        self.nfails = nfails
        self.small = small

    def compute_displacements_from_correl(self, correl, norm=1.0):
        from fluidimage.calcul.errors import PIVError

        i = int(correl[3:])
        eng, t = self.eng, self.tag
        if i in self.nfails and bool(eng.bool(f"fail{t}_{i}")):
            self.out.append(None)
            raise PIVError(explanation="no peak", results=(np.nan, np.nan, np.nan))
        s = self.small
        if i > 2 and i not in self.nfails:
            r = (0.5 * i - 1, 1 - 0.25 * i, 1.0, [])
            self.out.append(r)
            return r
        r = (eng.real(f"mx{t}_{i}", -s, s), eng.real(f"my{t}_{i}", -s, s), 1.0, [])
        self.out.append(r)
        return r


def chain(eng, shape, size0, fails, dx, strcrop=None):
    """values and positions given to the interpolation, estimate received"""
    import scipy.interpolate

    from fluidimage.works.piv.multipass import WorkPIV
    from symx.patch import patched

    params = WorkPIV.create_default_params()
    params.piv0.shape_crop_im0 = size0
    params.piv0.grid.overlap = 0.5
    params.piv0.method_correl = "scipy.ndimage"
    params.piv0.method_subpix = "centroid"
    params.multipass.number = 2
    params.multipass.use_tps = False
    params.fix.threshold_diff_neighbour = None
    params.mask.strcrop = strcrop
    work = WorkPIV(params)
    w0, w1 = work.works_piv
    w0.correl = CorrelPass(eng, 0, fails, 5)
    w1.correl = CorrelPass(eng, 1, (), 5)
    im0, im1 = images(shape)
    calls = []

    def griddata(points, values, xi, method="linear", **kw):
        # xi: coordinates, same order as points
        ncall = len(calls)
        gx, gy = xi
        n = gx.size
        vals = []
        for k in range(n):
            if k > 2:
                vals.append(dx + 0.125 if method == "linear" else 1.0)
            elif method == "linear" and k == 1:
                vals.append(np.nan)
            elif method == "linear":
                vals.append(eng.real(f"lin{ncall}_{k}", dx - 0.4, dx + 0.4))
            else:
                vals.append(eng.real(f"nea{ncall}_{k}", 1 - 0.4, 1 + 0.4))
        calls.append((points, values, np.array(gx), np.array(gy), method, vals))
        return eng.array(vals).reshape(gx.shape)

    with patched((scipy.interpolate.griddata, griddata)):
        results = work.calcul(make_couple(im0, im1))
    eng.check(len(results.passes) == 2, "all passes are kept")
    r0, r1 = results.passes
    eng.check(len(calls) == 8, "interpolation of the two components")
    off = (0, 0)
    if strcrop is not None:
        from fluidimage.data_objects.piv import get_slices_from_strcrop

        sl = get_slices_from_strcrop(strcrop)
        off = (sl[0].start or 0, sl[1].start or 0)
    for ip, (r, w, c4) in enumerate(((r0, w1, calls[:4]), (r1, w1, calls[4:]))):
        ok = [k for k in range(len(r.xs)) if k not in r.errors]
        for ic, (points, values, gx, gy, method, _) in enumerate(c4):
            eng.check(len(values) == len(ok), "valid vectors are interpolated")
            comp = (r.deltaxs, r.deltays)[0 if ic < 2 else 1]
            for a, k in enumerate(ok):
                eng.check(
                    close(points[a][0], r.xs[k] - off[1], 1e-4)
                    & close(points[a][1], r.ys[k] - off[0], 1e-4)
                    if eng.symbolic else
                    abs(points[a][0] - (r.xs[k] - off[1])) < 1e-4
                    and abs(points[a][1] - (r.ys[k] - off[0])) < 1e-4,
                    "positions of the vectors",
                )
                eng.check(close(values[a], comp[k], 1e-4), "valid vectors are interpolated")
            eng.check(
                np.array_equal(gx.ravel(), w.ixvecs_grid)
                and np.array_equal(gy.ravel(), w.iyvecs_grid),
                "interpolated on the grid of the pass",
            )
    n1 = len(w1.ixvecs_grid)
    for k in range(n1):
        ex = calls[1][5][k] if k == 1 else calls[0][5][k]
        ey = calls[3][5][k] if k == 1 else calls[2][5][k]
        eng.check(
            land(close(r0.deltaxs_approx[k], ex, 1e-4),
                 close(r0.deltays_approx[k], ey, 1e-4)),
            "nearest value where there is no linear interpolation",
        )
        d = 1 if k == 1 else dx
        eng.check(
            land(r1.deltaxs_input[k] == d, r1.deltays_input[k] == d),
            "estimate received by the pass",
        )
        ex = calls[5][5][k] if k == 1 else calls[4][5][k]
        ey = calls[7][5][k] if k == 1 else calls[6][5][k]
        eng.check(
            land(close(r1.deltaxs_final[k], ex, 1e-4),
                 close(r1.deltays_final[k], ey, 1e-4)),
            "final field",
        )
    n0 = len(w0.ixvecs_grid)
    for k in range(n0):
        eng.check(
            land(r0.xs[k] == w0.ixvecs_grid[k] + off[1],
                 r0.ys[k] == w0.iyvecs_grid[k] + off[0]),
            "position in the image",
        )
        out = w0.correl.out[k]
        if out is None:
            eng.check(k in r0.errors, "failed vectors")
        else:
            # no subpixel refinement before the last pass
            eng.check(
                land(close(r0.deltaxs[k], out[0], 1e-4), close(r0.deltays[k], out[1], 1e-4)),
                "displacement of the first pass",
            )
    for k in range(n1):
        out = w1.correl.out[k]
        d = 1 if k == 1 else dx
        eng.check(
            land(close(r1.deltaxs[k], out[0] + 0.25 + d, 1e-4),
                 close(r1.deltays[k], out[1] - 0.125 + d, 1e-4)),
            "displacement of the last pass",
        )


HARNESSES = [
    Harness(
        shifted,
        quick=[
            dict(shape=(8, 10), size0=4, size1=None, ivec=3, xlim=(-30, 30), ylim=(-0.4, 0.4)),
            dict(shape=(9, 8), size0=(3, 4), size1=None, ivec=1, xlim=(0.6, 1.4), ylim=(-35, 35), nan=True),
            dict(shape=(8, 8), size0=4, size1=(2, 3), ivec=4, xlim=(-7, 7), ylim=(-6, 6), number=3),
            dict(shape=(4, 5), size0=2, size1=None, ivec=5, xlim=(-3, 3), ylim=(-0.6, 0.6), pixels=True, overlap=0),
        ],
        labels=["input: rounded estimate", "pixels of the first image",
                "pixels of the second image", "sum of the input and of the measure",
                "missing estimate: error", "windows outside: error"],
        bounds="estimates in [-30, 30] pixels for images of 8x10 pixels",
        stubs=["correlation object", "apply_interp"],
    ),
    Harness(
        sizes,
        quick=[
            dict(number=1, coeff=2, size0="int", size1=None),
            dict(number=2, coeff=2, size0="tuple", size1=None),
            dict(number=3, coeff=(2, 1.5), size0="list", size1=None),
            dict(number=3, coeff=[1.5, 1], size0="int", size1="tuple"),
        ],
        labels=["windows reduced by the coefficient"],
        bounds="windows from 6x6 to 20x20 pixels, up to 3 passes",
    ),
    Harness(
        chain,
        quick=[
            dict(shape=(8, 10), size0=6, fails=(0, 3), dx=2),
            dict(shape=(10, 8), size0=(6, 4), fails=(1,), dx=-1),
            dict(shape=(12, 14), size0=6, fails=(1,), dx=-1, strcrop="2:11, 3:12"),
            dict(shape=(12, 14), size0=6, fails=(1,), dx=-1, strcrop=":10, 4:"),
        ],
        labels=["positions of the vectors", "estimate received by the pass",
                "nearest value where there is no linear interpolation", "final field"],
        bounds="images of about 10x10 pixels, 2 passes, any displacements",
        stubs=["correlation object", "scipy.interpolate.griddata: any values"],
    ),
]
