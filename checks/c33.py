"""Preprocessing tools (Python backend): what they do to each pixel."""

import numpy as np

from fluidimage.works.preproc import _toolbox_py as tools
from fluidimage.works.preproc.toolbox import PreprocToolsPy

from symx import ndi as ndi_models
from symx.core import close, is_sym, ite, land, lnot, lor, to_real
from symx.runner import Harness

ASSUMPTIONS = [
    "scipy.ndimage and skimage are replaced by models (exact rank filters, linear filters with "
    "their real weights, linear rescaling), which are compared with the real functions by running the models of the paths",
    "tanh is an arbitrary increasing function (same function each time)",
    "equalize_hist_*, gamma_correction (entirely in skimage) and the backend opencv are outside",
]


def pixels(eng, shape, dtype, name="p", hi=255):
    """image with any values between 0 and 255"""
    a = eng.int_array(name, shape, 0, hi)
    if dtype in ("uint8", "uint16"):
        return a.astype(getattr(np, dtype))
    return a.astype(float)


def spec_indices(i, n, size, mode):
    """positions of the window along an axis (None: outside), from the documentation of scipy"""
    first = i - size // 2
    res = []
    for k in range(first, first + size):
        if 0 <= k < n:
            res.append(k)
        elif mode == "constant":
            res.append(None)
        elif mode == "nearest":
            res.append(0 if k < 0 else n - 1)
        elif mode == "wrap":
            res.append(k % n)
        elif mode == "reflect":  # d c b a | a b c d | d c b a
            k %= 2 * n
            res.append(k if k < n else 2 * n - 1 - k)
        elif mode == "mirror":  # d c b | a b c d | c b a
            k %= 2 * n - 2 if n > 1 else 1
            res.append(k if k < n else 2 * n - 2 - k)
    return res


def window(img, idx, sizes, mode):
    res = [()]
    for i, n, s in zip(idx, img.shape, sizes):
        res = [p + (k,) for p in res for k in spec_indices(i, n, s, mode)]
    return [0 if None in p else img[p] for p in res]


def is_order_statistic(b, values, rank):
    """b is the value of this rank (starting from 0) in the sorted values"""
    smaller = sum(ite(v < b, 1, 0) for v in values)
    not_larger = sum(ite(v <= b, 1, 0) for v in values)
    return land(smaller <= rank, rank < not_larger, lor([v == b for v in values]))


def check_background(eng, img, out, sizes, mode, rank, weight, label):
    """out = max(0, img - weight * value of this rank in the window)"""
    img = img.astype(float)
    eng.check(out.shape == img.shape, "shape", f"{out.shape}")
    if weight == 0:
        for idx in np.ndindex(*img.shape):
            eng.check(close(out[idx], img[idx], 1e-6), label)
        return
    for idx in np.ndindex(*img.shape):
        values = window(img, idx, sizes, mode)
        r = rank(len(values))
        o, p = out[idx], img[idx]
        # the pixel is in the window or not: one of the values explains the result
        explained = lor(
            [
                land(
                    close(o, ite(p - weight * v < 0, 0, p - weight * v), 1e-6),
                    is_order_statistic(v, values, r),
                )
                for v in values
            ]
        )
        eng.check(explained, label, f"pixel {idx}")
        eng.check(o >= 0, "no negative intensity", f"pixel {idx}")


RANKS = {
    "median": lambda n: n // 2,
    "minima": lambda n: 0,
    0.0: lambda n: 0,
    10.0: lambda n: int(n * 0.1),
    50.0: lambda n: n // 2,
    75.0: lambda n: int(n * 0.75),
    100.0: lambda n: n - 1,
}


def get_tool(eng, name):
    """function of the module or of the class"""
    return getattr(PreprocToolsPy, name) if eng.bool("class") else getattr(tools, name)


def call_background(eng, kind, names, img, weight, **kwargs):
    if kind == "percentile":
        which = eng.choice("percentile", [0.0, 10.0, 50.0, 75.0, 100.0])
        kwargs["percentile"] = which
    else:
        which = kind
    tool = getattr(tools, f"{names}_{kind}")
    return tool(img, weight=weight, **kwargs), RANKS[which]


def sliding(eng, kind, shape, size, modes=("reflect",), dtype="uint8", weights=(0.5, 1.0)):
    img = pixels(eng, shape, dtype)
    before = img.copy()
    mode = eng.choice("mode", modes)
    weight = eng.choice("weight", weights)
    out, rank = call_background(
        eng, kind, "sliding", img, weight, window_size=size, boundary_condition=mode
    )
    sizes = size if isinstance(size, tuple) else (size, size)
    check_background(eng, before, out, sizes, mode, rank, weight, "sliding window")
    unchanged(eng, img, before)


def unchanged(eng, img, before):
    eng.check(land([a == b for a, b in zip(img.ravel().tolist(), before.ravel().tolist())]),
              "argument unchanged")


def temporal(eng, kind, shape, window_shapes=(None,), dtype="uint8", weights=(0.5, 1.0),
             container="array"):
    img = pixels(eng, shape, dtype)
    before = img.copy()
    given = {"array": lambda: img, "list": lambda: list(img), "tuple": lambda: tuple(img)}
    size = eng.choice("window", window_shapes)
    weight = eng.choice("weight", weights)
    out, rank = call_background(eng, kind, "temporal", given[container](), weight, window_shape=size)
    if container != "array":
        eng.check(len(out) == shape[0], "shape")
        out = np.array([[list(r) for r in im] for im in out]) if not eng.symbolic else stack(out)
    if size is None:
        sizes = (shape[0], 1, 1)
    elif isinstance(size, int):
        sizes = (size, 1, 1)
    elif len(size) == 2:
        sizes = (shape[0], *size)
    else:
        sizes = size
    check_background(eng, before, out, sizes, "reflect", rank, weight, "temporal window")
    unchanged(eng, img, before)


def stack(images):
    from symx.arr import as_symarray

    return as_symarray([im for im in images])


def threshold(eng, shape, dtype, container=None):
    img = pixels(eng, shape, dtype)
    before = img.copy()
    kwargs = {}
    lo, hi = 0, None
    if eng.bool("has_minima"):
        kwargs["minima"] = lo = eng.int("minima", 0, 255)
    which = eng.choice("has_maxima", ["no", "None", "value"])
    if which == "None":
        kwargs["maxima"] = None
    elif which == "value":
        kwargs["maxima"] = hi = eng.int("maxima", 0, 255)
        eng.assume(lo <= hi)
    arg = list(img) if container == "list" else img
    out = tools.global_threshold(arg, **kwargs)
    eng.check(out.shape == img.shape, "shape")
    for idx in np.ndindex(*shape):
        p = before[idx]
        expected = ite(p < lo, lo, p)
        if hi is not None:
            expected = ite(p > hi, hi, expected)
        eng.check(out[idx] == expected, "thresholds", f"pixel {idx}")
    unchanged(eng, img, before)


def one_by_one(eng, name, n, shape, container, dtype="uint8", **kwargs):
    """the images of a series are processed alone, in order"""
    img = pixels(eng, (n, *shape), dtype)
    before = img.copy()
    tool = get_tool(eng, name)
    given = list(img) if container == "list" else img
    out = tool(img=given, **kwargs) if eng.bool("keyword") else tool(given, **kwargs)
    eng.check(out.shape == img.shape, "shape")
    for i in range(n):
        alone = tool(before[i], **kwargs)
        for idx in np.ndindex(*shape):
            eng.check_close(out[(i, *idx)], alone[idx], "images alone", 1e-6, f"image {i}")
    unchanged(eng, img, before)


def same_integers(eng, name, shape, dtype="uint8", **kwargs):
    """same result for 8 bits integers and for floats with the same values"""
    img = pixels(eng, shape, dtype)
    ref = img.astype(float)
    tool = get_tool(eng, name)
    a, b = tool(img, **kwargs), tool(ref, **kwargs)
    eng.check(a.shape == b.shape == img.shape, "shape")
    for idx in np.ndindex(*shape):
        eng.check_close(a[idx], b[idx], "same result for integers", 1e-6, f"pixel {idx}")


def sharpen(eng, shape, dtype="uint8", sigma1=1.0, sigma2=0.5, alpha=30.0):
    import scipy.ndimage as ndi

    img = pixels(eng, shape, dtype)
    out = tools.sharpen(img, sigma1=sigma1, sigma2=sigma2, alpha=alpha)
    eng.check(out.shape == img.shape, "shape")

    def blur(a, sigma):
        res = {}
        for idx in np.ndindex(*shape):
            impulse = np.zeros(shape)
            impulse[idx] = 1
            r = ndi.gaussian_filter(impulse, sigma)
            for j in np.ndindex(*shape):
                res[j] = res.get(j, 0.0) + to_real(a[idx]) * float(r[j])
        return res

    b1 = blur({idx: img[idx] for idx in np.ndindex(*shape)}, sigma1)
    b2 = blur(b1, sigma2)
    for idx in np.ndindex(*shape):
        e = b1[idx] + alpha * (b1[idx] - b2[idx])
        eng.check(close(out[idx], ite(e < 0, 0.0, e), 1e-4), "sharpened edges", f"pixel {idx}")
        eng.check(out[idx] >= 0, "no negative intensity")


def rescale(eng, shape, dtype, minima=None, maxima=None):
    """linear, the minimum of the image gives minima, the maximum gives maxima"""
    eng.split_minmax = True
    img = pixels(eng, shape, dtype, hi=200)
    # extrema of the image known (linear formulas), anywhere
    places = list(np.ndindex(*shape))
    low, high = eng.choice("low", places), eng.choice("high", places)
    eng.assume(low != high)
    lo, hi = eng.choice("extrema", [(0, 200), (20, 84), (0, 2)])
    for idx in places:
        if idx == low:
            img[idx] = lo
        elif idx == high:
            img[idx] = hi
        else:
            eng.assume(land(img[idx] > lo, img[idx] < hi))
    before = img.copy()
    kwargs = {}
    if minima is not None:
        kwargs["minima"] = minima
    if maxima is not None:
        kwargs["maxima"] = maxima
    out = tools.rescale_intensity(img, **kwargs)
    m, M = kwargs.get("minima", 0.0), kwargs.get("maxima", 4096)
    for idx in places:
        e = m + (M - m) * (to_real(before[idx]) - lo) / (hi - lo)
        eng.check(close(out[idx], e, 1e-6), "rescaled intensities", f"pixel {idx}")
    unchanged(eng, img, before)


def binary(eng, shape, dtype, offset=0, window_size=3):
    """two levels: larger than the local mean minus the offset or not"""
    img = pixels(eng, shape, dtype)
    before = img.copy()
    out = tools.adaptive_threshold(img, window_size=window_size, offset=offset)
    eng.check(out.shape == img.shape, "shape")
    values = out.ravel().tolist()
    # not more than two levels, ordered as the differences with the threshold
    for a in values:
        eng.check(lor(a == 0, a > 0), "binary image")
        for b in values:
            eng.check(lor(a == 0, b == 0, a == b), "binary image")
    if shape[0] * shape[1] > 1:
        # a pixel brighter than all its neighbours is in the foreground, a darker one is not
        for idx in np.ndindex(*shape):
            h = window_size // 2
            near = [
                before[i, j]
                for i in range(max(0, idx[0] - h), min(shape[0], idx[0] + h + 1))
                for j in range(max(0, idx[1] - h), min(shape[1], idx[1] + h + 1))
                if (i, j) != idx
            ]
            if near:
                # the offset is subtracted from the local mean
                never = before[idx] != before[idx]
                p = before[idx]
                bright = land([p > v if offset == 0 else land(p >= v, p > 0) for v in near])
                dark = land([p < v if offset == 0 else p <= v for v in near])
                bright, dark = (bright if offset >= 0 else never), (dark if offset <= 0 else never)
                eng.check(lor(lnot(bright), out[idx] > 0), "particles")
                eng.check(lor(lnot(dark), out[idx] == 0), "particles")
    unchanged(eng, img, before)


def tanh(eng, shape, dtype, threshold=50.0, top=200):
    """order of the intensities, maximum and zero kept"""
    eng.split_minmax = True
    img = pixels(eng, shape, dtype, hi=top - 1)
    places = list(np.ndindex(*shape))
    high = eng.choice("high", places)
    img[high] = top
    if eng.symbolic:
        # properties of tanh
        xs = [to_real(img[idx]) / threshold for idx in places]
        ts = [x.tanh() if is_sym(x) else float(np.tanh(float(x))) for x in xs]
        tmax = float(np.tanh(top / threshold))
        for i, (x, t) in enumerate(zip(xs, ts)):
            if places[i] != high:
                eng.assume(land(t >= 0, t <= tmax - 1e-9, lor(lnot(x == 0), t == 0)))
            for y, u in zip(xs[:i], ts[:i]):
                eng.assume(lor(lnot(x <= y), t <= u))
                eng.assume(lor(lnot(y <= x), u <= t))
    before = img.copy()
    out = tools.rescale_intensity_tanh(img, threshold=threshold)
    eng.check(out.shape == img.shape, "shape")
    eng.check(land(out[high] <= top + 1e-6, out[high] >= top - 1 - 1e-6), "maximum")
    tmax = float(np.tanh(top / threshold))
    for i in places:
        x = (to_real(before[i]) if is_sym(before[i]) else float(before[i])) / threshold
        t = x.tanh() if is_sym(x) else float(np.tanh(float(x)))
        e = top * t / tmax
        eng.check(land(out[i] <= e + 1e-6, out[i] >= e - 1 - 1e-6), "tanh of the intensities")
        eng.check(land(out[i] >= 0, out[i] <= out[high]), "maximum")
        eng.check(lor(before[i] > 0, out[i] == 0), "order of the intensities")
        for j in places:
            eng.check(lor(before[i] > before[j], out[i] <= out[j]), "order of the intensities")


ALL_MODES = ("reflect", "nearest", "mirror", "wrap", "constant")
SHIMS = dict(replace=ndi_models.replace)

HARNESSES = [
    Harness(
        sliding,
        quick=[
            dict(kind="median", shape=(2, 3), size=3),
            dict(kind="median", shape=(2, 4), size=(1, 3), modes=ALL_MODES, dtype="float"),
            dict(kind="minima", shape=(3, 4), size=(2, 3), weights=(1,)),
            dict(kind="minima", shape=(4, 3), size=2, modes=ALL_MODES),
            dict(kind="percentile", shape=(2, 3), size=(2, 2)),
            dict(kind="percentile", shape=(1, 4), size=(1, 4), weights=(1,)),
            dict(kind="median", shape=(3, 2), size=(3, 1), weights=(1, 0), dtype="uint16"),
        ],
        thorough=[
            dict(kind="median", shape=(2, 3), size=3, modes=ALL_MODES, weights=(1.0,)),
            dict(kind="percentile", shape=(3, 3), size=2, modes=ALL_MODES, weights=(1.0,)),
        ],
        labels=["sliding window", "shape", "argument unchanged", "no negative intensity"],
        bounds="images up to 3 x 4 windows up to 3 x 3, any intensities from 0 "
        "to 255",
        shims=SHIMS,
    ),
    Harness(
        temporal,
        quick=[
            dict(kind="median", shape=(3, 1, 2), window_shapes=(None, 2, (3, 1, 1))),
            dict(kind="minima", shape=(4, 1, 2), window_shapes=(None, 3)),
            dict(kind="minima", shape=(2, 2, 2), window_shapes=((2, 2), (2, 1, 2)), weights=(1.0,)),
            dict(kind="percentile", shape=(3, 2, 1), window_shapes=(None, (1, 2))),
            dict(kind="median", shape=(4, 1, 1), weights=(1,), container="list"),
            dict(kind="minima", shape=(2, 2, 3), weights=(1,), container="tuple"),
            dict(kind="median", shape=(5, 1, 2), dtype="float", window_shapes=(None, 3)),
        ],
        thorough=[dict(kind="percentile", shape=(4, 1, 2), window_shapes=(None, 3, (2, 1, 2)))],
        labels=["temporal window", "shape", "argument unchanged", "no negative intensity"],
        bounds="2 to 5 images up to 2 x 3 pixels, any intensities from 0 to 255",
        shims=SHIMS,
    ),
    Harness(
        threshold,
        quick=[
            dict(shape=(2, 2), dtype="uint8"),
            dict(shape=(1, 3), dtype="float"),
            dict(shape=(2, 1, 2), dtype="uint8", container="list"),
        ],
        labels=["thresholds", "shape", "argument unchanged"],
        bounds="images up to 4 pixels, any intensities and thresholds from 0 to 255",
        shims=SHIMS,
    ),
    Harness(
        one_by_one,
        quick=[
            dict(name="sliding_median", n=2, shape=(2, 3), container="array", window_size=2),
            dict(name="sliding_minima", n=3, shape=(2, 2), container="list", window_size=2),
            dict(name="global_threshold", n=3, shape=(1, 2), container="array", minima=20, maxima=99),
            dict(name="sharpen", n=2, shape=(2, 2), container="list"),
            dict(name="rescale_intensity_tanh", n=2, shape=(1, 2), container="array", threshold=50),
        ],
        labels=["images alone", "shape", "argument unchanged"],
        bounds="2 or 3 images up to 2 x 3 pixels, any intensities from 0 to 255",
        shims=SHIMS,
    ),
    Harness(
        same_integers,
        quick=[
            dict(name="rescale_intensity_tanh", shape=(1, 2)),
            dict(name="sharpen", shape=(2, 3)),
            dict(name="sliding_percentile", shape=(2, 2), window_size=2, weight=1),
            dict(name="sliding_median", shape=(1, 3), window_size=3, weight=1),
        ],
        labels=["same result for integers", "shape"],
        bounds="images up to 2 x 3 pixels, any intensities from 0 to 255",
        shims=SHIMS,
    ),
    Harness(
        sharpen,
        quick=[
            dict(shape=(3, 3)),
            dict(shape=(2, 4), dtype="float", sigma1=3.0, sigma2=1.0, alpha=5.0),
        ],
        labels=["sharpened edges", "shape", "no negative intensity"],
        bounds="images of 3 x 3 and 2 x 4 pixels, any intensities from 0 to 255",
        shims=SHIMS,
    ),
    Harness(
        rescale,
        quick=[
            dict(shape=(2, 2), dtype="uint8"),
            dict(shape=(1, 4), dtype="float", minima=10.0, maxima=100.0),
        ],
        labels=["rescaled intensities", "argument unchanged"],
        bounds="images of 4 pixels, three pairs of extrema",
        shims=SHIMS,
    ),
    Harness(
        binary,
        quick=[dict(shape=(3, 3), dtype="uint8"), dict(shape=(3, 4), dtype="float", offset=4),
               dict(shape=(2, 3), dtype="uint8", offset=-3)],
        labels=["binary image", "particles", "shape", "argument unchanged"],
        bounds="images of 3 x 3 and 3 x 4 pixels, any intensities from 0 to 255",
        shims=SHIMS,
    ),
    Harness(
        tanh,
        quick=[dict(shape=(1, 3), dtype="uint8"), dict(shape=(2, 2), dtype="float", threshold=300)],
        labels=["maximum", "order of the intensities", "shape", "tanh of the intensities"],
        bounds="images up to 2 x 2 pixels, two thresholds",
        shims=SHIMS,
    ),
]
