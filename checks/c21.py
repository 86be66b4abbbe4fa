"""Correlation maps and displacements.

The correlation objects of the library are called on windows with symbolic pixels; the
value at each index of the map is compared, as a polynomial of the pixels, with the sum
of products of the first window and of the second one shifted by the displacement given
by the conversion of the index.  Fourier transforms of sizes 2 and 4 are computed
exactly (twiddle factors 1, i, -1, -i), so that the shift and the conjugations of the
FFT-based correlations are decided exactly.
"""

import fluidimage.calcul.correl
import numpy as np

from symx.core import poly_close as equal
from symx.runner import Harness

ASSUMPTIONS = [
    "pixels are real numbers (no float32 rounding)",
    "scipy.signal.correlate2d, scipy.ndimage.correlate, numpy.fft and pyfftw are "
    "replaced in the symbolic runs by exact versions written from their documentation "
    "(the counterexamples and the sampled models are run with the real libraries)",
    "the Python source of the boosted functions is run, not the Pythran binary",
]


# -- reference versions of library functions ------------------------------------


def correlate2d(in1, in2, mode="full", boundary="fill", fillvalue=0):
    """scipy.signal.correlate2d for real arrays"""
    from symx.arr import as_symarray, build

    in1, in2 = as_symarray(in1), as_symarray(in2)
    assert boundary == "fill"
    n0, n1 = in1.shape
    m0, m1 = in2.shape

    def full(i, j):
        r = 0
        for a in range(m0):
            for b in range(m1):
                y, x = i - (m0 - 1) + a, j - (m1 - 1) + b
                v = in1[y, x] if 0 <= y < n0 and 0 <= x < n1 else fillvalue
                r = v * in2[a, b] + r
        return r

    if mode == "full":
        return build((n0 + m0 - 1, n1 + m1 - 1), lambda i: full(*i))
    if mode == "same":
        s0, s1 = m0 // 2, m1 // 2
        return build((n0, n1), lambda i: full(i[0] + s0, i[1] + s1))
    if mode == "valid":
        assert n0 >= m0 and n1 >= m1
        return build(
            (n0 - m0 + 1, n1 - m1 + 1), lambda i: full(i[0] + m0 - 1, i[1] + m1 - 1)
        )
    raise ValueError(mode)


def correlate(input, weights, output=None, mode="reflect", cval=0.0, origin=0):
    """scipy.ndimage.correlate"""
    from symx.arr import as_symarray, build

    assert mode == "constant" and origin == 0
    input, weights = as_symarray(input), as_symarray(weights)
    n0, n1 = input.shape
    m0, m1 = weights.shape

    def f(i):
        r = 0
        for a in range(m0):
            for b in range(m1):
                y, x = i[0] + a - m0 // 2, i[1] + b - m1 // 2
                v = input[y, x] if 0 <= y < n0 and 0 <= x < n1 else cval
                r = v * weights[a, b] + r
        return r

    return build((n0, n1), f)


def replace():
    import scipy.ndimage
    import scipy.signal

    return [
        (scipy.signal.correlate2d, correlate2d),
        (scipy.ndimage.correlate, correlate),
    ]


SHIMS = dict(replace=replace)
STUBS = [
    "scipy.signal.correlate2d, scipy.ndimage.correlate: their documented sums",
    "numpy.fft / pyfftw: exact transforms of sizes 1, 2, 4",
]


def make(tag, shape0, shape1, **kw):
    from fluidimage.calcul.correl import correlation_classes

    return correlation_classes[tag](im0_shape=shape0, im1_shape=shape1, **kw)


def images(eng, shape0, shape1):
    im0 = eng.real_array("a", shape0)
    im1 = eng.real_array("b", shape1)
    if not eng.symbolic:
        im0, im1 = im0.astype("float32"), im1.astype("float32")
    return im0, im1


def shifted_pairs(d, shape0, shape1, offsets):
    """pixels (p, q) of the first and second windows for the displacement d = (dx, dy);
    the windows share their "centre" (offsets)"""
    dx, dy = d
    for y in range(shape0[0]):
        for x in range(shape0[1]):
            q = (y - offsets[0] + dy, x - offsets[1] + dx)
            yield (y, x), q


def direct(eng, shape0, shape1, dmax=None):
    """pythran method: mean over the overlap, for each displacement up to the maximum"""
    corr = make("pythran", shape0, shape1, displacement_max=dmax)
    im0, im1 = images(eng, shape0, shape1)
    correl, norm = corr(im0, im1)
    dm = int(corr.displacement_max)
    eng.check(correl.shape == (2 * dm + 1, 2 * dm + 1), "shape of the map")
    off = (shape0[0] // 2 - shape1[0] // 2, shape0[1] // 2 - shape1[1] // 2)
    size1 = shape1[0] * shape1[1]
    seen = set()
    for iy in range(correl.shape[0]):
        for ix in range(correl.shape[1]):
            d = corr.compute_displacement_from_indices(ix, iy)
            seen.add((int(d[0]), int(d[1])))
            s, n = 0, 0
            for p, q in shifted_pairs(d, shape0, shape1, off):
                if 0 <= q[0] < shape1[0] and 0 <= q[1] < shape1[1]:
                    s = im0[p] * im1[q] + s
                    n += 1
            eng.check(n > 0, "windows overlap")
            eng.check(
                equal(correl[iy, ix] * n, s * size1), "correlation at this displacement"
            )
            eng.check(
                corr.compute_indices_from_displacement(*d) == (ix, iy),
                "indices and displacements are inverse",
            )
    eng.check(
        seen == {(x, y) for x in range(-dm, dm + 1) for y in range(-dm, dm + 1)},
        "all the displacements up to the maximum",
    )
    e0 = sum(x * x for x in im0.ravel().tolist())
    e1 = sum(x * x for x in im1.ravel().tolist())
    eng.check(norm >= 0, "norm")
    eng.check(equal(norm * norm, e0 * e1), "norm")
    iy0, ix0 = corr.get_indices_no_displacement()
    eng.check(
        corr.compute_displacement_from_indices(ix0, iy0) == (0, 0), "no displacement"
    )


def scipy_methods(eng, tag, shape0, shape1, mode=None):
    kw = {} if mode is None else dict(mode=mode)
    corr = make(tag, shape0, shape1, **kw)
    im0, im1 = images(eng, shape0, shape1)
    correl, norm = corr(im0, im1)
    off = (shape0[0] // 2 - shape1[0] // 2, shape0[1] // 2 - shape1[1] // 2)
    # outside of the first window: the minimum of the second one
    fill = im1.min()
    iy0, ix0 = corr.get_indices_no_displacement()
    eng.check(0 <= iy0 < correl.shape[0] and 0 <= ix0 < correl.shape[1], "no displacement")
    eng.check(
        corr.compute_displacement_from_indices(ix0, iy0) == (0, 0), "no displacement"
    )
    for iy in range(correl.shape[0]):
        for ix in range(correl.shape[1]):
            d = corr.compute_displacement_from_indices(ix, iy)
            s = 0
            for q in np.ndindex(*shape1):
                p = (q[0] + off[0] - d[1], q[1] + off[1] - d[0])
                if 0 <= p[0] < shape0[0] and 0 <= p[1] < shape0[1]:
                    s = im0[p] * im1[q] + s
                else:
                    s = fill * im1[q] + s
            eng.check(equal(correl[iy, ix], s), "correlation at this displacement")
            eng.check(
                corr.compute_indices_from_displacement(*d) == (ix, iy),
                "indices and displacements are inverse",
            )


def fft_methods(eng, tag, shape):
    """circular correlation of the windows without their mean"""
    corr = make(tag, shape, shape)
    im0, im1 = images(eng, shape, shape)
    correl, norm = corr(im0, im1)
    n0, n1 = shape
    eng.check(correl.shape == shape, "shape of the map")
    m0 = sum(im0.ravel().tolist()) / (n0 * n1)
    m1 = sum(im1.ravel().tolist()) / (n0 * n1)
    iy0, ix0 = corr.get_indices_no_displacement()
    eng.check(
        corr.compute_displacement_from_indices(ix0, iy0) == (0, 0), "no displacement"
    )
    # the map is proportional to the correlation: same factor for all indices and for
    # the norm (checked in `fft_norm`)
    factor = {"np.fft": 1, "fftw": n0 * n1}[tag]
    for iy in range(n0):
        for ix in range(n1):
            d = corr.compute_displacement_from_indices(ix, iy)
            s = 0
            for p, q in shifted_pairs(d, shape, shape, (0, 0)):
                q = (q[0] % n0, q[1] % n1)
                s = (im0[p] - m0) * (im1[q] - m1) + s
            eng.check(
                equal(correl[iy, ix], factor * s), "correlation at this displacement"
            )
            eng.check(
                corr.compute_indices_from_displacement(*d) == (ix, iy),
                "indices and displacements are inverse",
            )


def fft_norm(eng, tag, shape):
    """an identical window has a normalised correlation of 1 at no displacement"""
    corr = make(tag, shape, shape)
    im0 = eng.real_array("a", shape)
    if not eng.symbolic:
        im0 = im0.astype("float32")
    correl, norm = corr(im0, im0.copy())
    iy0, ix0 = corr.get_indices_no_displacement()
    c = correl[iy0, ix0]
    eng.check(norm >= 0, "norm")
    eng.check(equal(c * c, norm * norm), "correlation of identical windows is one")


def like_fftshift(eng, shape):
    from fluidimage.calcul.correl import _like_fftshift

    a = eng.real_array("a", shape)
    r = _like_fftshift(a.copy())
    n0, n1 = shape
    eng.check(tuple(r.shape) == shape, "shape of the map")
    for i in range(n0):
        for j in range(n1):
            # np.fft.fftshift(a[::-1, ::-1])
            src = (n0 - 1 - (i - n0 // 2) % n0, n1 - 1 - (j - n1 // 2) % n1)
            eng.check(equal(r[i, j], a[src]), "correlation at this displacement")


def indices(eng, tag, shape0, shape1, dmax=None):
    """conversions for any (also not integer) displacement"""
    corr = make(tag, shape0, shape1, displacement_max=dmax)
    dx, dy = eng.real("dx"), eng.real("dy")
    ix, iy = corr.compute_indices_from_displacement(dx, dy)
    dx1, dy1 = corr.compute_displacement_from_indices(ix, iy)
    eng.check_close(dx1, dx, "indices and displacements are inverse")
    eng.check_close(dy1, dy, "indices and displacements are inverse")


S = dict(shims=SHIMS, stubs=STUBS)
L = ["correlation at this displacement", "indices and displacements are inverse"]

HARNESSES = [
    Harness(
        direct,
        quick=[
            dict(shape0=(5, 6), shape1=(5, 6)),
            dict(shape0=(7, 8), shape1=(3, 3)),
            dict(shape0=(4, 4), shape1=(4, 4), dmax=2),
            dict(shape0=(6, 7), shape1=(2, 3), dmax=2),
        ],
        thorough=[
            dict(shape0=(a, b), shape1=(c, d), dmax=dm)
            for a, b in ((4, 5), (5, 4), (6, 6), (7, 5), (6, 8))
            for c, d in ((4, 5), (3, 3), (2, 4), (5, 5), (6, 8))
            for dm in (1, 2, 3)
            if c <= a and d <= b and dm < min(a, b) // 2
            and dm < (min(a, b) // 2 - 1 + 1)
        ],
        labels=L + ["norm", "all the displacements up to the maximum"],
        bounds="windows from 4x4 to 7x6 (quick) or 6x8, same or smaller second window, "
        "displacement_max 1 to 3; any pixels",
        **S,
    ),
    Harness(
        scipy_methods,
        quick=[
            dict(tag="scipy.signal", shape0=(3, 4), shape1=(3, 4)),
            dict(tag="scipy.signal", shape0=(4, 3), shape1=(4, 3)),
            dict(tag="scipy.signal", shape0=(6, 5), shape1=(2, 3), mode="valid"),
            dict(tag="scipy.ndimage", shape0=(3, 4), shape1=(3, 4)),
            dict(tag="scipy.ndimage", shape0=(4, 3), shape1=(4, 3)),
        ],
        labels=L,
        bounds="windows up to 4x4, second window 2x3 in the mode 'valid'; any pixels "
        "(outside of the first window: minimum of the second one)",
        **S,
    ),
    Harness(
        fft_methods,
        quick=[
            dict(tag=tag, shape=shape)
            for tag in ("np.fft", "fftw")
            for shape in ((4, 4), (2, 4), (4, 2))
        ],
        labels=L,
        bounds="windows 4x4, 2x4, 4x2; any pixels",
        **S,
    ),
    Harness(
        fft_norm,
        quick=[
            dict(tag=tag, shape=shape)
            for tag in ("np.fft", "fftw")
            for shape in ((2, 2), (2, 4), (4, 2))
        ],
        labels=["correlation of identical windows is one"],
        bounds="windows 2x2, 2x4, 4x2; any pixels",
        **S,
    ),
    Harness(
        like_fftshift,
        quick=[dict(shape=(a, b)) for a in (2, 3, 4, 5) for b in (2, 3, 6, 7)],
        labels=L[:1],
        bounds="maps from 2x2 to 5x7, odd and even",
    ),
    Harness(
        indices,
        quick=[
            dict(tag="np.fft", shape0=(5, 6), shape1=(5, 6)),
            dict(tag="fftw", shape0=(6, 5), shape1=(6, 5)),
            dict(tag="pythran", shape0=(9, 8), shape1=(5, 4), dmax=2),
            dict(tag="scipy.signal", shape0=(9, 8), shape1=(9, 8)),
            dict(tag="scipy.ndimage", shape0=(9, 8), shape1=(9, 8)),
        ],
        labels=L[1:],
        bounds="any real displacement",
    ),
]
