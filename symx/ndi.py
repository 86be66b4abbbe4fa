"""Models of the filters of scipy.ndimage (1d to 3d arrays) for symbolic runs.

Rank filters: exact. Gaussian filter: exact weights of scipy (response to impulses).
"""

import numpy as np
import scipy.ndimage as ndi

from .arr import SymArray, _obj, as_symarray, has_sym
from .core import to_real

PAD = {
    "reflect": "symmetric",
    "grid-mirror": "symmetric",
    "nearest": "edge",
    "mirror": "reflect",
    "wrap": "wrap",
    "grid-wrap": "wrap",
}


def axis_indices(n, size, mode):
    """for each position, indices of the elements of the window (None outside)"""
    before, after = size // 2, size - size // 2 - 1
    if mode in ("constant", "grid-constant"):
        full = [None] * before + list(range(n)) + [None] * after
    elif n == 1:
        full = [0] * size
    else:
        full = np.pad(np.arange(n), (before, after), mode=PAD[mode]).tolist()
    return [full[i : i + size] for i in range(n)]


def _sizes(size, ndim):
    if isinstance(size, (int, np.integer)):
        return (int(size),) * ndim
    size = tuple(int(s) for s in size)
    if len(size) != ndim:
        raise RuntimeError("sequence argument must have length equal to input rank")
    return size


def windows(a, size, mode="reflect", cval=0.0):
    """index -> values in the window centred there"""
    axes = [axis_indices(n, s, mode) for n, s in zip(a.shape, _sizes(size, a.ndim))]
    res = {}
    for idx in np.ndindex(*a.shape):
        values = []
        for pos in _product([ax[i] for ax, i in zip(axes, idx)]):
            values.append(cval if None in pos else np.ndarray.__getitem__(a, pos))
        res[idx] = values
    return res


def _product(lists):
    if not lists:
        yield ()
        return
    for x in lists[0]:
        for rest in _product(lists[1:]):
            yield (x, *rest)


def _rank_filter(a, rank, size, mode, cval, origin, footprint=None):
    if footprint is not None or not np.all(np.asarray(origin) == 0):
        raise NotImplementedError("footprint, origin")
    a = as_symarray(a)
    out = np.empty(a.shape, dtype=object)
    for idx, values in windows(a, size, mode, cval).items():
        n = len(values)
        r = rank(n)
        if r == 0:
            out[idx] = as_symarray(values).min()
        elif r == n - 1:
            out[idx] = as_symarray(values).max()
        else:
            out[idx] = np.sort(as_symarray(values))[r]
    out = out.view(SymArray)
    out.kind, out.bits = a.kind, a.bits
    return out


def _percentile_rank(percentile):
    if percentile < 0.0:
        percentile += 100.0
    if not 0 <= percentile <= 100:
        raise RuntimeError("invalid percentile")

    def rank(n):
        return n - 1 if percentile == 100.0 else int(float(n) * percentile / 100.0)

    return rank


class NdiShim:
    def __getattr__(self, name):
        return getattr(ndi, name)

    def median_filter(self, input, size=None, footprint=None, output=None, mode="reflect",
                      cval=0.0, origin=0, **kw):
        if not has_sym(input):
            return ndi.median_filter(input, size, footprint, output, mode, cval, origin, **kw)
        return _rank_filter(input, lambda n: n // 2, size, mode, cval, origin, footprint)

    def percentile_filter(self, input, percentile, size=None, footprint=None, output=None,
                          mode="reflect", cval=0.0, origin=0, **kw):
        if not has_sym(input):
            return ndi.percentile_filter(input, percentile, size, footprint, output, mode,
                                         cval, origin, **kw)
        rank = _percentile_rank(percentile)
        return _rank_filter(input, rank, size, mode, cval, origin, footprint)

    def rank_filter(self, input, rank, size=None, footprint=None, output=None, mode="reflect",
                    cval=0.0, origin=0, **kw):
        if not has_sym(input):
            return ndi.rank_filter(input, rank, size, footprint, output, mode, cval, origin, **kw)
        return _rank_filter(input, lambda n: rank % n, size, mode, cval, origin, footprint)

    def minimum_filter(self, input, size=None, footprint=None, output=None, mode="reflect",
                       cval=0.0, origin=0, **kw):
        if not has_sym(input):
            return ndi.minimum_filter(input, size, footprint, output, mode, cval, origin, **kw)
        return _rank_filter(input, lambda n: 0, size, mode, cval, origin, footprint)

    def maximum_filter(self, input, size=None, footprint=None, output=None, mode="reflect",
                       cval=0.0, origin=0, **kw):
        if not has_sym(input):
            return ndi.maximum_filter(input, size, footprint, output, mode, cval, origin, **kw)
        return _rank_filter(input, lambda n: n - 1, size, mode, cval, origin, footprint)

    def _linear(self, name, input, args, kwargs):
        func = getattr(ndi, name)
        if not has_sym(input):
            return func(input, *args, **kwargs)
        a = as_symarray(input)
        response = []
        for idx in np.ndindex(*a.shape):
            impulse = np.zeros(a.shape)
            impulse[idx] = 1
            response.append((idx, func(impulse, *args, **kwargs)))
        out = np.empty(a.shape, dtype=object)
        for idx in np.ndindex(*a.shape):
            s = 0.0
            for j, r in response:
                w = float(r[idx])
                if w:
                    s = s + to_real(np.ndarray.__getitem__(a, j)) * w
            out[idx] = s
        r = as_symarray(out, "f")
        return r.astype(a.int_dtype()) if a.bits else r

    def gaussian_filter(self, input, sigma, *args, **kwargs):
        return self._linear("gaussian_filter", input, (sigma, *args), kwargs)

    def uniform_filter(self, input, *args, **kwargs):
        return self._linear("uniform_filter", input, args, kwargs)


class ExposureShim:
    """skimage.exposure"""

    def __init__(self, real):
        self.real = real

    def __getattr__(self, name):
        return getattr(self.real, name)

    def rescale_intensity(self, image, in_range="image", out_range="dtype"):
        if not has_sym(image):
            return self.real.rescale_intensity(image, in_range, out_range)
        if not isinstance(out_range, (tuple, list)):
            raise NotImplementedError("rescale_intensity: out_range")
        a = as_symarray(image)
        if in_range == "image":
            imin, imax = a.min(), a.max()
        elif isinstance(in_range, (tuple, list)):
            imin, imax = in_range
            a = a.clip(imin, imax)
        else:
            raise NotImplementedError("rescale_intensity: in_range")
        omin, omax = out_range
        a = a.astype(float)
        return (a - imin) / (imax - imin) * (omax - omin) + omin


class FiltersShim:
    """skimage.filters"""

    def __init__(self, real):
        self.real = real

    def __getattr__(self, name):
        return getattr(self.real, name)

    def threshold_local(self, image, block_size=3, method="gaussian", offset=0, **kw):
        if not has_sym(image):
            return self.real.threshold_local(image, block_size, method, offset, **kw)
        if method not in ("gaussian", "mean"):
            raise NotImplementedError("threshold_local: method")
        a = as_symarray(image)
        res = {}
        for j in np.ndindex(*a.shape):
            impulse = np.zeros(a.shape)
            impulse[j] = 1
            r = self.real.threshold_local(impulse, block_size, method, 0, **kw)
            for idx in np.ndindex(*a.shape):
                if r[idx]:
                    res[idx] = res.get(idx, 0.0) + to_real(np.ndarray.__getitem__(a, j)) * float(r[idx])
        out = np.empty(a.shape, dtype=object)
        for idx in np.ndindex(*a.shape):
            out[idx] = res[idx] - offset
        return as_symarray(out, "f")


SHIM = NdiShim()
NAMES = ("median_filter", "percentile_filter", "rank_filter", "minimum_filter",
         "maximum_filter", "gaussian_filter", "uniform_filter")


def replace():
    """pairs (real, model) for Shims"""
    pairs = [(ndi, SHIM)] + [(getattr(ndi, name), getattr(SHIM, name)) for name in NAMES]
    try:
        from skimage import exposure, filters
    except ImportError:
        return pairs
    e, f = ExposureShim(exposure), FiltersShim(filters)
    return pairs + [
        (exposure, e),
        (filters, f),
        (exposure.rescale_intensity, e.rescale_intensity),
        (filters.threshold_local, f.threshold_local),
    ]
