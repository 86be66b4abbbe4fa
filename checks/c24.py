"""Rejection and replacement of vectors.

`mean_neighbors_xy` and `WorkFIX.calcul` are run on symbolic vector fields.
"""

import types

import fluidimage.calcul.mean_neighbors
import fluidimage.works.piv.fix
import numpy as np

from symx.core import close, ite, land, lnot, lor, is_sym
from symx.runner import Harness

ASSUMPTIONS = [
    "real arithmetic; missing values are NaN (no infinity)",
    "the Python source of mean_neighbors_xy is run, not the Pythran binary",
    "the PIV work (grid, coordinates in the original image, subpixel refinement) is a "
    "stand-in; the refinement returns any displacement or fails",
]


def neighbours(shape, k):
    i0, i1 = divmod(k, shape[1])
    return [
        j0 * shape[1] + j1
        for j0 in range(max(i0 - 1, 0), min(i0 + 2, shape[0]))
        for j1 in range(max(i1 - 1, 0), min(i1 + 2, shape[1]))
        if (j0, j1) != (i0, i1)
    ]


def mean_of(shape, k, valid, values):
    """-> (number of valid neighbours, sum)"""
    near = [j for j in neighbours(shape, k)]
    nb = sum(ite(valid[j], 1, 0) for j in near)
    total = sum(ite(valid[j], values[j], 0) for j in near)
    return nb, total


def to32(eng, a):
    return a if eng.symbolic else a.astype("float32")


def mean(eng, shape, maybe_missing):
    """mean over the valid neighbours"""
    from fluidimage.calcul.mean_neighbors import mean_neighbors_xy

    n = shape[0] * shape[1]
    dxs = eng.real_array("dx", (n,), -10, 10)
    dys = eng.real_array("dy", (n,), -10, 10)
    valid = [True] * n
    for k in maybe_missing:
        if k < n and bool(eng.bool(f"missing{k}")):
            valid[k] = False
            # the value is missing if one component is
            which = eng.int(f"which{k}", 0, 2)
            if which != 1:
                dxs[k] = np.nan
            if which != 0:
                dys[k] = np.nan
    before = [(dxs[k], dys[k]) for k in range(n)]
    dxs, dys = to32(eng, dxs), to32(eng, dys)
    mx, my = mean_neighbors_xy(dxs, dys, np.arange(shape[0]), np.arange(shape[1]))
    for k in range(n):
        for m, comp in ((mx, 0), (my, 1)):
            vals = [b[comp] for b in before]
            near = [vals[j] for j in neighbours(shape, k) if valid[j]]
            if not valid[k] or not near:
                eng.check(np.isnan(m[k]), "no mean without valid neighbour")
            else:
                eng.check(close(m[k] * len(near), sum(near), 1e-3), "mean of neighbours")
        same = [
            lor(land(np.isnan(a), np.isnan(b)), close(a, b, 1e-5))
            for a, b in ((dxs[k], before[k][0]), (dys[k], before[k][1]))
        ]
        eng.check(land(same), "fields unchanged")


class Correl:
    def __init__(self, eng):
        self.eng = eng
        self.calls = []

    def apply_subpix(self, dx, dy, correl):
        from fluidimage.calcul.errors import PIVError

        i = len(self.calls)
        fails = bool(self.eng.bool(f"subpix_fails{i}"))
        out = None
        if not fails:
            out = (
                dx + self.eng.real(f"sx{i}", -1, 1), dy + self.eng.real(f"sy{i}", -1, 1)
            )
        self.calls.append((dx, dy, correl, out))
        if fails:
            raise PIVError(explanation="subpix")
        return out


def make(eng, shape, nb_peaks, **fix):
    from fluiddyn.util.paramcontainer import ParamContainer
    from fluidimage.works.piv.fix import WorkFIX

    params = WorkFIX.create_default_params()
    for k, v in fix.items():
        setattr(params.fix, k, v)
    work_piv = types.SimpleNamespace(
        ixvecs=np.arange(shape[1]) * 8 + 4,
        iyvecs=np.arange(shape[0]) * 8 + 4,
        _xyoriginalimage_from_xymasked=lambda x, y: (x + 3, y + 5),
        params=types.SimpleNamespace(
            piv0=types.SimpleNamespace(nb_peaks_to_search=nb_peaks)
        ),
        correl=Correl(eng),
    )
    return WorkFIX(params.fix, work_piv), work_piv


def limit(eng, name, value, vmin, vmax):
    return eng.real(name, vmin, vmax) if value is True else value


def reject(eng, shape, thr, dmax, sym, comps=1, free=None):
    """rejected if and only if one of the criteria is fulfilled"""
    n = shape[0] * shape[1]
    cmin = eng.real("correl_min", 0, 1)
    fix = dict(correl_min=cmin, threshold_diff_neighbour=None, displacement_max=None)
    if thr:
        fix["threshold_diff_neighbour"] = limit(eng, "thr", thr, 0.1, 20)
    if dmax:
        fix["displacement_max"] = limit(eng, "dmax", dmax, 0.1, 20)
    work, _ = make(eng, shape, 1, **fix)
    # vectors which are not in sym: good correlation, small symbolic displacement
    dxs, dys, cs = [], [], []
    for k in range(n):
        if free is None or k in free:
            dxs.append(eng.real(f"dx{k}", -30, 30))
        else:
            dxs.append(0.0 if dmax else 0.25 * k)
        if comps == 2:
            dys.append(eng.real(f"dy{k}", -30, 30))
        else:
            dys.append((k % 3 - 1) * 0.5 if k in sym or not dmax else 0.0)
        cs.append(eng.real(f"c{k}", 0, 1))
    if comps == 1 and eng.bool("exchange"):
        dxs, dys = dys, dxs
    errors = {}
    failed = [False] * n
    for k in sym:
        if bool(eng.bool(f"err{k}")):
            errors[k] = "failed"
            failed[k] = True
            dxs[k] = dys[k] = cs[k] = np.nan
    deltaxs, deltays = to32(eng, eng.array(dxs)), to32(eng, eng.array(dys))
    correls = to32(eng, eng.array(cs))
    for k in range(n):
        if k not in sym:
            eng.assume(cs[k] >= cmin + 1e-3)
            if dmax:
                eng.assume(land(dxs[k] <= 0.05, dxs[k] >= -0.05,
                                dys[k] <= 0.05, dys[k] >= -0.05))
        elif not failed[k]:
            # not at the limit (rounding)
            eng.assume(lor(cs[k] >= cmin + 1e-3, cs[k] <= cmin - 1e-3))
            if dmax:
                d2 = dxs[k] * dxs[k] + dys[k] * dys[k]
                m2 = fix["displacement_max"] * fix["displacement_max"]
                eng.assume(lor(d2 >= m2 + 1e-2, d2 <= m2 - 1e-2))
    # oracle
    first = []
    for k in range(n):
        if failed[k]:
            first.append(True)
            continue
        conds = [cs[k] < cmin]
        if dmax:
            d2 = dxs[k] * dxs[k] + dys[k] * dys[k]
            conds.append(d2 > fix["displacement_max"] * fix["displacement_max"])
        first.append(lor(conds))
    first = [bool(f) for f in first]
    rejected = list(first)
    if thr:
        t = fix["threshold_diff_neighbour"]
        for k in range(n):
            near = [j for j in neighbours(shape, k) if not first[j]]
            if first[k] or not near:
                continue
            nb = len(near)
            ex = sum(dxs[j] for j in near) - nb * dxs[k]
            ey = sum(dys[j] for j in near) - nb * dys[k]
            e2, t2 = ex * ex + ey * ey, nb * nb * t * t
            eng.assume(lor(e2 >= t2 + 0.5, e2 <= t2 - 0.5))
            rejected[k] = e2 > t2
    results = types.SimpleNamespace(
        deltaxs=deltaxs, deltays=deltays, correls_max=correls, errors=errors
    )
    out = work.calcul(results)
    for k in range(n):
        x, y = out.deltaxs[k], out.deltays[k]
        missing = land(np.isnan(x), np.isnan(y))
        eng.check((missing) == rejected[k], "rejected iff criteria")
        in_errors = k in out.errors
        eng.check(in_errors == bool(rejected[k]), "explanation of the rejection")
        if in_errors:
            eng.check(len(out.errors[k]) > 0, "explanation of the rejection")
            if not failed[k]:
                eng.check(
                    land(close(out.deltaxs_wrong[k], dxs[k], 1e-4),
                         close(out.deltays_wrong[k], dys[k], 1e-4)),
                    "rejected value kept",
                )
            else:
                eng.check(out.errors[k].startswith("failed"), "first error kept")
        else:
            eng.check(
                land(close(x, dxs[k], 1e-4), close(y, dys[k], 1e-4)),
                "accepted vectors unchanged",
            )
            eng.check(k not in out.deltaxs_wrong, "only rejected values kept")
            eng.check(k not in out.deltays_wrong, "only rejected values kept")


def replace(eng, thr, dmax, nb_other, first_pass=True, bad=True):
    """replacement by a secondary peak"""
    shape = (2, 2)
    cmin = 0.25
    ivec = 2
    fix = dict(correl_min=cmin, threshold_diff_neighbour=None, displacement_max=None)
    if thr:
        fix["threshold_diff_neighbour"] = limit(eng, "thr", thr, 0.5, 6)
    if dmax:
        fix["displacement_max"] = limit(eng, "dmax", dmax, 0.5, 20)
    work, work_piv = make(eng, shape, 2, **fix)
    # mean of the neighbours: (mx, my)
    mx, my = 1.5 if dmax else eng.real("mx", -4, 4), 1.0
    dx, dy = eng.real("dx", -20, 20), 1.5
    c0 = eng.real("c0", 0.3, 1)
    if eng.bool("exchange"):
        mx, my, dx, dy = my, mx, dy, dx
    dxs = eng.array([mx, mx, dx, mx])
    dys = eng.array([my, my, dy, my])
    correls = eng.array([1.0, 1.0, c0, 1.0])
    others = [
        (eng.real(f"ox{i}", -6, 6), eng.int(f"oy{i}", -1, 1), eng.real(f"oc{i}", 0, 1))
        for i in range(nb_other)
    ]
    results = types.SimpleNamespace(
        deltaxs=to32(eng, dxs), deltays=to32(eng, dys), correls_max=to32(eng, correls),
        errors={}, secondary_peaks=[None, [], list(others), None],
        correls=["map0", "map1", "map2", "map3"],
    )
    inx, iny = 0, 0
    if not first_pass:
        inx, iny = (2 if dmax else eng.int("inx", -2, 2)), 1
        results.deltaxs_input = np.array([0, 0, inx, 0]) if not eng.symbolic else (
            eng.array([0, 0, inx, 0]))
        results.deltays_input = np.array([0, 0, iny, 0])
    if dmax:
        # the other vectors are accepted
        eng.assume(mx * mx + my * my <= fix["displacement_max"] ** 2 - 0.01)
    if thr:
        # one bad neighbour does not spoil the others
        ex, ey = dx - mx, dy - my
        eng.assume(ex * ex + ey * ey <= 9 * fix["threshold_diff_neighbour"] ** 2 - 0.5)
    d2 = dx * dx + dy * dy
    e2 = (dx - mx) * (dx - mx) + (dy - my) * (dy - my)
    rejected = False
    if dmax:
        m2 = fix["displacement_max"] ** 2
        eng.assume(lor(d2 >= m2 + 1e-2, d2 <= m2 - 1e-2))
        too_large = bool(d2 > m2)
        rejected = too_large
    if thr and not rejected:
        t2 = fix["threshold_diff_neighbour"] ** 2
        eng.assume(lor(e2 >= t2 + 1e-2, e2 <= t2 - 1e-2))
        rejected = bool(e2 > t2)
    out = work.calcul(results)
    x, y = out.deltaxs[ivec], out.deltays[ivec]
    applied = [c for c in work_piv.correl.calls if c[3] is not None]
    replaced = hasattr(out, "replaced_vectors") and ivec in out.replaced_vectors
    for k in (0, 1, 3):
        eng.check(
            land(close(out.deltaxs[k], mx, 1e-4), close(out.deltays[k], my, 1e-4)),
            "other vectors unchanged",
        )
        eng.check(k not in out.errors, "other vectors unchanged")
    if not replaced:
        eng.check((ivec in out.errors) == rejected, "not replaced: as rejected")
        if rejected:
            eng.check(np.isnan(x), "not replaced: as rejected")
            eng.check(close(out.deltaxs_wrong[ivec], dx, 1e-4), "rejected value kept")
        else:
            eng.check(
                land(close(x, dx, 1e-4), close(y, dy, 1e-4)), "not replaced: unchanged"
            )
        return
    eng.check(len(applied) == 1, "one refinement")
    cx, cy, cmap, (sx, sy) = applied[-1]
    eng.check(cmap == "map2", "map of the vector")
    conds = []
    for ox, oy, oc in others:
        tx, ty = ox + inx, oy + iny
        f2 = (tx - mx) * (tx - mx) + (ty - my) * (ty - my)
        c = [
            cx == ox, cy == oy, oc > cmin, oc >= 0.6 * c0 - 1e-4,
            close(out.correls_max[ivec], oc, 1e-4), f2 <= e2 + 1e-3,
        ]
        if thr:
            c.append(f2 <= fix["threshold_diff_neighbour"] ** 2 + 1e-3)
        if dmax:
            c.append(tx * tx + ty * ty <= fix["displacement_max"] ** 2 + 1e-3)
        conds.append(land(c))
    eng.check(lor(conds), "replaced by an acceptable peak of the vector")
    eng.check(
        land(close(x, sx + inx, 1e-4), close(y, sy + iny, 1e-4)), "refined replacement"
    )
    eng.check(ivec not in out.errors, "replaced vectors are valid")
    eng.check(
        land(close(out.replaced_vectors[ivec][0], dx, 1e-4),
             close(out.replaced_vectors[ivec][1], dy, 1e-4),
             close(out.replaced_vectors[ivec][2], c0, 1e-4)),
        "replaced value kept",
    )


HARNESSES = [
    Harness(
        mean,
        quick=[
            dict(shape=s, maybe_missing=tuple(m))
            for s, m in (
                ((2, 2), range(4)), ((2, 3), (0, 1, 5)), ((3, 2), (0, 3, 4)),
                ((3, 3), (0, 4)), ((3, 3), (1, 5)), ((3, 4), (3, 6)), ((4, 3), (4, 10)),
                ((1, 3), (0, 1)), ((3, 1), (1, 2)), ((1, 1), ()),
            )
        ],
        thorough=[
            dict(shape=s, maybe_missing=tuple(range(9)))
            for s in ((2, 2), (2, 3), (3, 2), (1, 4), (4, 1))
        ] + [dict(shape=(4, 4), maybe_missing=(a, b, c))
             for a, b, c in ((0, 5, 6), (3, 7, 9), (12, 1, 10))],
        labels=["mean of neighbours", "no mean without valid neighbour"],
        bounds="grids up to 3x4 (thorough: 4x4), any values, some cells possibly missing",
    ),
    Harness(
        reject,
        quick=[
            dict(shape=(2, 2), thr=False, dmax=False, sym=(0, 1, 2, 3), comps=2),
            dict(shape=(2, 2), thr=False, dmax=True, sym=(0, 3)),
            dict(shape=(2, 2), thr=False, dmax=5.5, sym=(1, 2), comps=2),
            dict(shape=(2, 2), thr=3.5, dmax=False, sym=(0, 1), free=(0, 1)),
            dict(shape=(2, 2), thr=3, dmax=4, sym=(2,)),
            dict(shape=(2, 3), thr=4, dmax=False, sym=(1,), free=(1, 2)),
            dict(shape=(3, 3), thr=2.5, dmax=False, sym=(4,), free=(4, 8)),
            dict(shape=(1, 3), thr=2.5, dmax=6, sym=(0, 1), free=(0, 1)),
        ],
        thorough=[
            dict(shape=(2, 2), thr=False, dmax=False, sym=(0, 1, 2, 3), comps=2),
            dict(shape=(2, 2), thr=False, dmax=True, sym=(0, 3)),
            dict(shape=(2, 2), thr=False, dmax=5.5, sym=(1, 2), comps=2),
            dict(shape=(2, 2), thr=3.5, dmax=False, sym=(0, 1), free=(0, 1)),
            dict(shape=(2, 2), thr=3, dmax=4, sym=(2,)),
            dict(shape=(2, 3), thr=4, dmax=False, sym=(1,), free=(1, 2)),
            dict(shape=(3, 3), thr=2.5, dmax=False, sym=(4,), free=(4, 8)),
            dict(shape=(1, 3), thr=2.5, dmax=6, sym=(0, 1), free=(0, 1)),
            dict(shape=(2, 2), thr=True, dmax=False, sym=(0,), free=(0, 3)),
            dict(shape=(2, 2), thr=3, dmax=4, sym=(0, 3)),
            dict(shape=(2, 3), thr=4, dmax=False, sym=(1, 5), free=(1, 2, 5)),
        ],
        labels=["rejected iff criteria", "explanation of the rejection",
                "rejected value kept", "accepted vectors unchanged"],
        bounds="grids 2x2 and 2x3; any correlations, thresholds and error sets for the "
        "listed vectors; one symbolic component of the displacement",
    ),
    Harness(
        replace,
        quick=[
            dict(thr=True, dmax=False, nb_other=1),
            dict(thr=False, dmax=5, nb_other=1),
            dict(thr=2, dmax=7, nb_other=1),
            dict(thr=False, dmax=False, nb_other=1),
            dict(thr=3, dmax=False, nb_other=1, first_pass=False),
            dict(thr=False, dmax=4.5, nb_other=1, first_pass=False),
            dict(thr=3, dmax=False, nb_other=2),
        ],
        labels=["replaced by an acceptable peak of the vector", "refined replacement"],
        bounds="2x2 grid, one vector with 1 or 2 other peaks",
    ),
]
