"""Search of the correlation peak.

`compute_displacements_from_correl` of real correlation objects is run on a symbolic
map (every value an arbitrary real, some of the cells possibly NaN).  The result
(displacement, correlation, other peaks, or PIVError) is compared with the
specification, written over all the values of the map: retained peak = highest
acceptable value, second chance outside of the zone of a peak on the border or next to
a missing value, successive other peaks.
"""

import fluidimage.calcul.correl
import numpy as np

from symx.core import land, lnot, lor
from symx.runner import Harness

ASSUMPTIONS = [
    "the map holds real numbers or NaN (no infinity, no rounding)",
    "the Python source of the boosted functions is run, not the Pythran binary; "
    "conditional assignments of fluidimage.calcul.correl are merged by the engine",
]


class Spec:
    def __init__(self, values, missing, shape, radius, memo):
        self.memo = memo
        self.v = values
        self.missing = missing
        self.shape = shape
        self.radius = radius
        self.cells = [(i, j) for i in range(shape[0]) for j in range(shape[1])]

    def in_zones(self, cell, zones):
        return any(
            abs(cell[0] - z[0]) <= self.radius and abs(cell[1] - z[1]) <= self.radius
            for z in zones
        )

    def valid(self, cell, zones):
        if self.in_zones(cell, zones):
            return False
        return lnot(self.missing[cell])

    def _memo(self, f, *args):
        key = (f.__name__, *args)
        if key not in self.memo:
            self.memo[key] = f(*args)
        return self.memo[key]

    def highest(self, p, zones):
        return self._memo(self._highest, p, tuple(zones))

    def no_peak(self, zones):
        return self._memo(self._no_peak, tuple(zones))

    def _highest(self, p, zones):
        """p is one of the highest valid values"""
        if self.in_zones(p, zones):
            return False
        conds = [lnot(self.missing[p])]
        for c in self.cells:
            if c != p and not self.in_zones(c, zones):
                conds.append(lor(self.missing[c], self.v[c] <= self.v[p]))
        return land(conds)

    def acceptable(self, p, zones):
        n0, n1 = self.shape
        if p[0] in (0, n0 - 1) or p[1] in (0, n1 - 1):
            return False
        return land(
            [
                self.valid((p[0] + a, p[1] + b), zones)
                for a in (-1, 0, 1)
                for b in (-1, 0, 1)
            ]
        )

    def none_left(self, zones):
        return land(
            [
                self.missing[c]
                for c in self.cells
                if not self.in_zones(c, zones)
            ]
        )

    def _no_peak(self, zones):
        """nothing left, or (one of) the highest not acceptable"""
        return lor(
            self.none_left(zones),
            [
                land(self.highest(q, zones), lnot(self.acceptable(q, zones)))
                for q in self.cells
            ],
        )


def make_correl(tag, shape, **kwargs):
    from fluidimage.calcul.correl import correlation_classes

    return correlation_classes[tag](
        im0_shape=shape, im1_shape=shape, method_subpix="centroid", **kwargs
    )


def peak(eng, tag, shape, radius=1, nb_peaks=1, dmax=None, nan_cells=(), norm=2.0,
         at=None):
    from fluidimage.calcul.errors import PIVError

    correl_obj = make_correl(
        tag, shape, particle_radius=radius, nb_peaks_to_search=nb_peaks,
        displacement_max=dmax,
    )
    n0, n1 = shape
    values, missing = {}, {}
    arr = []
    for i in range(n0):
        row = []
        for j in range(n1):
            may = nan_cells == "all" or (i, j) in nan_cells
            x = eng.real(f"c_{i}_{j}", nan=may)
            row.append(x)
            values[i, j] = x
            missing[i, j] = np.isnan(x) if may else False
        arr.append(row)
    arr = eng.array(arr)
    if at is not None:
        eng.assume(
            land([lor(missing[c], values[c] <= values[at]) for c in values])
        )
    spec = Spec(values, dict(missing), shape, radius, eng.memo)
    displ = {}
    for c in spec.cells:
        displ[c] = correl_obj.compute_displacement_from_indices(c[1], c[0])
        if dmax is not None and "fft" in tag:
            if displ[c][0] ** 2 + displ[c][1] ** 2 > dmax**2:
                spec.missing[c] = True
    inv = {d: c for c, d in displ.items()}

    def cell_of(dx, dy):
        eng.check((int(dx), int(dy)) in inv, "displacement of a cell")
        return inv[int(dx), int(dy)]

    try:
        dx, dy, cmax, others = correl_obj.compute_displacements_from_correl(
            arr, norm=norm
        )
    except PIVError as err:
        # the first peak (p) and the second (if any) are not acceptable
        dx, dy, cmax = err.results
        eng.observe("error", [int(dx), int(dy)])
        q = cell_of(dx, dy)
        eng.check(
            lor(
                spec.none_left(()),
                land(
                    spec.highest(q, ()),
                    lnot(spec.acceptable(q, ())),
                    spec.no_peak((q,)),
                ),
            ),
            "error only without acceptable peak, at the first peak",
        )
        eng.check(
            lor(spec.none_left(()), np.isclose(1.0, 1.0) and cmax * norm == values[q]),
            "correlation of the rejected peak",
        )
        eng.check(len(err.explanation) > 0, "explanation")
        return

    p = cell_of(dx, dy)
    eng.observe("peak", [p[0], p[1]])
    direct = land(spec.highest(p, ()), spec.acceptable(p, ()))
    second = [
        (
            q,
            land(
                spec.highest(q, ()),
                lnot(spec.acceptable(q, ())),
                spec.highest(p, (q,)),
                spec.acceptable(p, (q,)),
            ),
        )
        for q in spec.cells
        if q != p
    ]
    eng.check(
        lor(direct, [s for _, s in second]), "retained peak is the highest acceptable"
    )
    eng.check(cmax * norm == values[p], "correlation of the peak")
    if nb_peaks == 1:
        eng.check(others is None, "no other peak when not requested")
        return
    cells = [cell_of(o[0], o[1]) for o in others]
    eng.observe("others", [list(c) for c in cells])
    eng.check(len(cells) <= nb_peaks - 1, "number of other peaks")
    for c, o in zip(cells, others):
        eng.check(o[2] * norm == values[c], "correlation of other peaks")

    def chain(zones):
        conds = []
        zones = list(zones) + [p]
        for c in cells:
            conds += [spec.highest(c, zones), spec.acceptable(c, zones)]
            zones = zones + [c]
        if len(cells) < nb_peaks - 1:
            conds.append(spec.no_peak(zones))
        return land(conds)

    eng.check(
        lor(
            land(direct, chain(())),
            [land(s, chain((q,))) for q, s in second if s is not False],
        ),
        "other peaks are the successive highest values outside of the zones",
    )


MERGE = ["fluidimage.calcul.correl"]
L1 = [
    "retained peak is the highest acceptable",
    "error only without acceptable peak, at the first peak",
    "correlation of the peak",
]


def P(tag, shape, **kw):
    return dict(tag=tag, shape=shape, **kw)


BOUNDS = (
    "maps up to 5x5 (every position of the peak; quick) or 6x6 (thorough) with up to "
    "2 possibly missing cells, 3x4 (4x4) with every cell possibly missing; FFT maps "
    "6x6 to 8x8 with displacement_max 1.5 or 2.3; particle radius 1 or 2; at most 3 "
    "peaks; all real values"
)

HARNESSES = [
    Harness(
        peak,
        name="single_peak",
        merge=MERGE,
        quick=[
            P("scipy.ndimage", (3, 4), nan_cells="all"),
            P("scipy.ndimage", (5, 5)),
            P("pythran", (5, 4), nan_cells=((1, 1), (3, 2))),
            P("np.fft", (6, 6), dmax=1.5),
            P("np.fft", (6, 8), dmax=2.3, nan_cells=((2, 3),)),
        ],
        thorough=[
            P("scipy.ndimage", (3, 4), nan_cells="all"),
            P("scipy.signal", (4, 3), nan_cells="all"),
            P("scipy.ndimage", (6, 6)),
            P("scipy.ndimage", (5, 7), radius=2),
            P("pythran", (5, 5), nan_cells=((1, 1), (3, 2))),
            P("np.fft", (6, 6), dmax=1.5),
            P("np.fft", (6, 8), dmax=2.3, nan_cells=((2, 3),)),
            P("np.fft", (5, 5)),
        ],
        bounds=BOUNDS,
        timeout_ms=60000,
        labels=L1,
    ),
    Harness(
        peak,
        name="several_peaks",
        merge=MERGE,
        quick=[
            P("scipy.ndimage", (3, 7), nb_peaks=2),
            P("np.fft", (8, 8), nb_peaks=3, dmax=2.3),
            P("scipy.ndimage", (3, 9), nb_peaks=3, at=(1, 4)),
        ],
        thorough=[
            P("scipy.ndimage", (4, 6), nb_peaks=2),
            P("np.fft", (8, 8), nb_peaks=3, dmax=2.3),
            P("scipy.ndimage", (6, 6), nb_peaks=3, at=(2, 3)),
            P("scipy.ndimage", (5, 6), nb_peaks=2, nan_cells=((2, 2),)),
        ],
        bounds=BOUNDS,
        timeout_ms=60000,
        labels=L1
        + [
            "other peaks are the successive highest values outside of the zones",
        ],
    ),
]
