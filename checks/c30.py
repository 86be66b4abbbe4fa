"""Vector fields: each value stays attached to its position."""

from copy import deepcopy

import h5py
import numpy as np

import scipy.ndimage
from fluidimage.postproc.piv import ArrayPIV, PIV2d

from checks.c29 import storage
from symx.core import is_sym, ite, land, lnot, to_real
from symx.patch import patched
from symx.runner import Harness

ASSUMPTIONS = [
    "grids with strictly monotone axes",
    "the median and Gaussian filters (scipy.ndimage) are replaced by functions giving arbitrary "
    "values for each pixel and component; their region of validity is the documented one for "
    "one iteration",
    "in-memory stand-in of h5py for saving (see C29)",
]


class Field:
    """field with symbolic content; self.at[y index, x index] in the increasing order"""

    def __init__(self, eng, ny, nx, tag="", z="number", vz=False, flips=None, nan=False,
                 axes=None, step=None, values=None):
        self.eng, self.ny, self.nx = eng, ny, nx
        if flips is None:
            flips = eng.choice(tag + "flips", [(0, 0), (1, 0), (0, 1), (1, 1)])
        if axes is not None:
            self.x, self.y = axes
        else:
            self.x = self.axis(tag + "x", nx, step)
            self.y = self.axis(tag + "y", ny, step)
        self.comp = {}
        names = ["vx", "vy"] + (["vz"] if vz else []) + (["z"] if z == "2d" else [])
        for k in names:
            if values:
                self.comp[k] = values(k, self)
            else:
                self.comp[k] = eng.real_array(f"{tag}{k}", (ny, nx), nan=nan and k == "vx")
        args = {k: self.flip(v, flips) for k, v in self.comp.items()}
        x = np.flip(self.x) if flips[0] else self.x
        y = np.flip(self.y) if flips[1] else self.y
        if "z" in args:
            zarg = args.pop("z")
        else:
            zarg = {"number": 1.5, "none": None, "0d": np.array(1.5)}[z]
        self.zarg = zarg
        self.field = PIV2d(x.copy(), y.copy(), zarg, **{k: v.copy() for k, v in args.items()})

    def axis(self, name, n, step):
        eng = self.eng
        x0 = eng.real(name + "0", -100, 100)
        values = [x0]
        for i in range(1, n):
            d = step or eng.real(f"{name}d{i}", 0.0625, 50)
            values.append(values[-1] + d)
        return eng.array(values)

    @staticmethod
    def flip(a, flips):
        if flips[0]:
            a = np.fliplr(a)
        if flips[1]:
            a = np.flipud(a)
        return a

    def check(self, f, label, rows=None, cols=None, values=None, what=""):
        """f is this field restricted to rows and columns"""
        eng = self.eng
        rows = list(range(self.ny)) if rows is None else rows
        cols = list(range(self.nx)) if cols is None else cols
        values = self.comp if values is None else values
        eng.check(len(f.x) == len(cols) and len(f.y) == len(rows), label,
                  f"{what} number of points {len(f.y)}, {len(f.x)}")
        if len(f.x) != len(cols) or len(f.y) != len(rows):
            return
        for j, ix in enumerate(cols):
            eng.check_close(f.x[j], self.x[ix], label, msg=f"{what} x[{j}]")
        for i, iy in enumerate(rows):
            eng.check_close(f.y[i], self.y[iy], label, msg=f"{what} y[{i}]")
        for k, v in values.items():
            a = getattr(f, k)
            eng.check(np.shape(a) == (len(rows), len(cols)), label, f"{what} shape of {k}")
            for i, iy in enumerate(rows):
                for j, ix in enumerate(cols):
                    eng.check_close(a[i, j], v[iy, ix], label, msg=f"{what} {k}[{i}, {j}]")


def construct(eng, ny, nx, z="number", vz=False):
    fld = Field(eng, ny, nx, z=z, vz=vz)
    fld.check(fld.field, "values at their positions")
    f = fld.field
    if z in ("number", "0d"):
        eng.check(not isinstance(f.z, np.ndarray) and f.z == 1.5, "values at their positions", "z")
    elif z == "none":
        eng.check(f.z is None, "values at their positions", "z")
    eng.check(tuple(f.shape) == (ny, nx), "values at their positions", "shape")


def extract_indices(eng, ny, nx, method="extract", z="number", vz=False, n=1):
    fld = Field(eng, ny, nx, z=z, vz=vz, flips=(0, 1))
    fields = [fld.field] if n == 1 else ArrayPIV([fld.field] * n)
    if method == "extract":
        a, c = eng.int("start0", 0, ny - 1), eng.int("start1", 0, nx - 1)
        b, d = eng.int("stop0", 1, ny), eng.int("stop1", 1, nx)
        eng.assume(a < b)
        eng.assume(c < d)
        a, b, c, d = int(a), int(b), int(c), int(d)
        rows, cols = list(range(a, b)), list(range(c, d))
        res = [f.extract(a, b, c, d) for f in fields] if n == 1 else fields.extract(a, b, c, d)
    elif method == "truncate":
        cut = eng.choice("cut", [c for c in range(1, 4) if 2 * c < min(ny, nx)] + ["default"])
        args = () if cut == "default" else (cut,)
        cut = 1 if cut == "default" else cut
        rows, cols = list(range(cut, ny - cut)), list(range(cut, nx - cut))
        res = [f.truncate(*args) for f in fields] if n == 1 else fields.truncate(*args)
    for f in res:
        fld.check(f, "extraction", rows, cols)
    for f in fields:
        fld.check(f, "operands unchanged")


def extract_positions(eng, ny, nx, z="number", vz=False):
    """physical bounds: exactly the points inside"""
    fld = Field(eng, ny, nx, z=z, vz=vz, flips=(0, 0))
    bounds = [eng.real(k, -200, 200) for k in ("start0", "stop0", "start1", "stop1")]
    y0, y1, x0, x1 = bounds
    rows = [i for i in range(ny) if land(fld.y[i] >= y0, fld.y[i] <= y1)]
    cols = [i for i in range(nx) if land(fld.x[i] >= x0, fld.x[i] <= x1)]
    if not rows or not cols:
        raise eng.cut("no point within the bounds")
    f = fld.field.extract(y0, y1, x0, x1, phys=True)
    fld.check(f, "extraction", rows, cols)
    fld.check(fld.field, "operands unchanged")


def square(eng, ny, nx):
    fld = Field(eng, ny, nx, flips=(0, 0))
    cut = eng.choice("cut", [c for c in range(3) if 2 * c + 2 < min(ny, nx)])
    even = eng.bool("force_even")
    f = fld.field.extract_square(cut, bool(even))
    n = min(ny, nx) - 2 * cut
    if even and n % 2:
        n -= 1
    eng.check(len(f.x) == n and len(f.y) == n, "square", f"{len(f.y)}, {len(f.x)} for {n}")
    if len(f.x) != n or len(f.y) != n:
        return
    # which rows and columns? at least cut points are removed on each side
    starts = []
    for axis, new, nb in ((fld.y, f.y, ny), (fld.x, f.x, nx)):
        found = [i for i in range(nb) if axis[i] == new[0]]
        eng.check(len(found) == 1, "square", "first point")
        starts.append(found[0])
        eng.check(found[0] >= cut and found[0] + n <= nb - cut, "square", "points removed")
    fld.check(f, "square", [starts[0] + i for i in range(n)], [starts[1] + i for i in range(n)])


OPS = {
    "+": (lambda a, b: a + b), "-": (lambda a, b: a - b),
    "*": (lambda a, b: a * b), "/": (lambda a, b: a / b),
}


def arithmetic(eng, ops, ny=2, nx=3, vz=False, z="number"):
    op = eng.choice("op", ops)
    kind = eng.choice("kind", ["field", "number", "reversed", "array", "array number"])
    func = OPS[op]
    if kind == "reversed" and op not in "+*":
        raise eng.cut("not defined")
    A = Field(eng, ny, nx, "a", z=z, vz=vz, flips=(0, 1), nan=True)
    label = "arithmetic"
    if "number" in kind or kind == "reversed":
        c = eng.choice("number", [3, -0.5, 2.0])
        expected = {k: [[func(v, c) for v in row] for row in a.tolist()]
                    for k, a in A.comp.items() if k != "z"}
    else:
        B = Field(eng, ny, nx, "b", z=z, vz=vz, flips=(0, 0), axes=(A.x, A.y),
                  values=None if op in "+-" else constant)
        expected = {
            k: [[func(v, w) for v, w in zip(r, s)] for r, s in zip(a.tolist(), B.comp[k].tolist())]
            for k, a in A.comp.items() if k != "z"
        }
    expected = {k: eng.array(v) for k, v in expected.items()}
    if "z" in A.comp:
        expected["z"] = A.comp["z"]
    if kind == "field":
        results = [func(A.field, B.field)]
    elif kind == "number":
        results = [func(A.field, c)]
    elif kind == "reversed":
        results = [func(c, A.field)]
    elif kind == "array":
        results = func(ArrayPIV([A.field, A.field]), B.field)
    else:
        arr = ArrayPIV([A.field, A.field])
        results = func(c, arr) if op in "+*" and eng.bool("reversed") else func(arr, c)
    for f in results:
        A.check(f, label, values=expected, what=f"{kind} {op}")
    A.check(A.field, "operands unchanged")
    if "number" not in kind and kind != "reversed":
        B.check(B.field, "operands unchanged")


def constant(k, field):
    """values that keep the products linear"""
    return np.arange(1, field.ny * field.nx + 1).reshape(field.ny, field.nx) * (
        {"vx": 1, "vy": -2, "vz": 3, "z": 1}[k]) + 0.5


def average(eng, n, ny=2, nx=2, vz=False):
    F = [Field(eng, ny, nx, "f0", vz=vz, flips=(1, 0))]
    for i in range(1, n):
        F.append(Field(eng, ny, nx, f"f{i}", vz=vz, flips=(0, i % 2), axes=(F[0].x, F[0].y)))
    arr = ArrayPIV([f.field for f in F])
    mean = arr.compute_time_average()
    expected = {k: sum(f.comp[k] for f in F) / n for k in F[0].comp}
    F[0].check(mean, "time average", values=expected)
    for f, field in zip(F, arr):
        f.check(field, "operands unchanged")
    total = sum(arr)
    expected = {k: sum(f.comp[k] for f in F) for k in F[0].comp}
    F[0].check(total, "arithmetic", values=expected, what="sum")


def derivatives(eng, ny, nx, steps):
    """divergence and rotation of a linear field"""
    dx, dy = eng.choice("steps", steps)
    coef = {k: [eng.real(f"{k}{i}") for i in "abc"] for k in ("vx", "vy")}

    def values(k, field):
        a, b, c = coef[k]
        return eng.array([[a * (j * dx) + b * (i * dy) + c for j in range(nx)] for i in range(ny)])

    x0 = eng.real("x0", -10, 10)
    axes = eng.array([x0 + j * dx for j in range(nx)]), eng.array([x0 + i * dy for i in range(ny)])
    fld = Field(eng, ny, nx, axes=axes, values=values)
    order = eng.choice("edge_order", [1, 2, "default"])
    kw = {} if order == "default" else dict(edge_order=order)
    div = fld.field.compute_divh(**kw)
    rot = fld.field.compute_rotz(**kw)
    for name, res, expected in (
        ("divergence", div, coef["vx"][0] + coef["vy"][1]),
        ("rotation", rot, coef["vy"][0] - coef["vx"][1]),
    ):
        eng.check(np.shape(res) == (ny, nx), name)
        for v in np.asarray(res).ravel().tolist():
            eng.check_close(v, expected, name, tol=1e-9)


def save(eng, ny=2, nx=3, z="number", vz=False):
    with storage(eng) as (path, _):
        fld = Field(eng, ny, nx, z=z, vz=vz, flips=(1, 1), nan=True)
        f = fld.field
        f.namevx, f.unitvx, f.unity, f.name = "u", "m/s", "mm", "my field"
        f.history = ["fluidimage", "something"]
        f.save(str(path / "field.h5"))
        loaded = PIV2d.from_file(str(path / "field.h5"))
        if eng.bool("again"):
            loaded.save(str(path / "field2.h5"))
            loaded = PIV2d.from_file(str(path / "field2.h5"))
        fld.check(loaded, "saving")
        for k in f._attr_saved_as_attr:
            eng.check(getattr(loaded, k) == getattr(f, k), "saving", k)
        if z == "none":
            eng.check(loaded.z is None, "saving", "z")
        elif z != "2d":
            eng.check(loaded.z == 1.5, "saving", "z")
        # loaded fields can be used as the original ones
        fld.check(loaded.extract(0, ny, 0, nx - 1), "saving", cols=list(range(nx - 1)))


def filters(eng, name, ny=5, nx=6, vz=False, z="number"):
    """each component is filtered, the border without valid values is removed"""
    fld = Field(eng, ny, nx, flips=(0, 0), z=z, vz=vz)
    calls = []

    def fake(input, size=None, *args, sigma=None, truncate=4.0, **kw):
        size = sigma if size is None else size
        calls.append(([size, size] if np.ndim(size) == 0 else list(size), truncate))
        return input * 2 + 1

    size = eng.choice("size", {"median": [1, 3, 4, (1, 3)], "gaussian": [0.25, 0.5, (0.2, 0.6)]}[name])
    niter = eng.choice("niter", [1, 2])
    valid = eng.bool("valid")
    real = getattr(scipy.ndimage, name + "_filter")
    with patched((real, fake)):
        arr = eng.bool("array")
        obj = ArrayPIV([fld.field]) if arr else fld.field
        res = getattr(obj, name + "_filter")(size, niter=niter, valid=bool(valid))
        res = res[0] if arr else res
    fil = lambda a: (a * 2 + 1) if niter == 1 else (a * 4 + 3)
    pair = [size, size] if not isinstance(size, tuple) else list(size)
    eng.check(all(s == pair for s, _ in calls), "filters", "sizes")
    eng.check(len(calls) in (2 * niter, 3 * niter), "filters", "number of calls")
    if name == "median":
        mf = max(pair) // 2
    else:
        mf = int(3 * max(pair) + 0.5)
        eng.check(all(t == 3 for _, t in calls), "filters", "truncate")
    if not valid:
        mf = 0
    rows, cols = list(range(mf, ny - mf)), list(range(mf, nx - mf))
    if not rows or not cols:
        raise eng.cut("too small")
    expected = {"vx": fil(fld.comp["vx"]), "vy": fil(fld.comp["vy"])}
    if vz and name == "median":
        expected["vz"] = fil(fld.comp["vz"])
    if "z" in fld.comp:
        expected["z"] = fld.comp["z"]
    fld.check(res, "filters", rows, cols, values=expected)
    fld.check(fld.field, "operands unchanged")


def spatiotemp(eng, n, ny=2, nx=2):
    """functions of the times: times and pixels are not exchanged"""
    F = [Field(eng, ny, nx, "f0", flips=(0, 0))]
    for i in range(1, n):
        F.append(Field(eng, ny, nx, f"f{i}", flips=(0, 0), axes=(F[0].x, F[0].y)))
    arr = ArrayPIV([f.field for f in F])
    arr.set_timestep(0.5)
    eng.check([float(t) for t in arr.times] == [0.5 * i for i in range(n)], "functions of time")

    def func(v):
        out = v.copy()
        for i in range(n):
            for iy in range(ny):
                for ix in range(nx):
                    out[i, iy, ix] = v[i, iy, ix] * (i + 1) + v[0, iy, ix] + 10 * iy + ix
        return out

    res = arr.apply_function_to_spatiotemp_data(func)
    eng.check(len(res) == n, "functions of time")
    for i, f in enumerate(F):
        expected = {}
        for k in ("vx", "vy"):
            a, a0 = f.comp[k], F[0].comp[k]
            expected[k] = eng.array(
                [[a[y, x] * (i + 1) + a0[y, x] + 10 * y + x for x in range(nx)] for y in range(ny)])
        f.check(res[i], "functions of time", values=expected)
        f.check(f.field, "operands unchanged")


def regularize(eng, ny, nx):
    """at most the last row and column are removed"""
    fld = Field(eng, ny, nx, flips=(0, 0))
    f = fld.field
    try:
        f.regularize_grid()
    except NotImplementedError:
        raise eng.cut("irregular grid")
    rows, cols = list(range(len(f.y))), list(range(len(f.x)))
    eng.check(ny - len(rows) <= 1 and nx - len(cols) <= 1, "regular grid")
    fld.check(f, "regular grid", rows, cols)
    for axis, d in ((f.x, f.dx), (f.y, f.dy)):
        for a, b in zip(axis[:-1], axis[1:]):
            eng.check_close(b - a, d, "regular grid", tol=2e-3)


SHIMS = dict(builtins_=False)

HARNESSES = [
    Harness(
        construct,
        quick=[dict(ny=2, nx=3, z=z, vz=v) for z, v in
               (("number", False), ("2d", True), ("none", True), ("0d", False))],
        thorough=[dict(ny=4, nx=3, z=z, vz=True) for z in ("2d", "number")],
        labels=["values at their positions"],
        bounds="grids of 2x3 (thorough 4x3), any axes in any directions, any values",
        shims=SHIMS,
    ),
    Harness(
        extract_indices,
        quick=[dict(ny=3, nx=2, z="2d", vz=True), dict(ny=2, nx=3, n=2),
               dict(ny=5, nx=4, method="truncate", vz=True, z="2d"),
               dict(ny=3, nx=4, method="truncate", n=2)],
        thorough=[dict(ny=4, nx=3, z="2d", vz=True)],
        labels=["extraction", "operands unchanged"],
        bounds="grids up to 5x4, any bounds",
        shims=SHIMS,
    ),
    Harness(
        extract_positions,
        quick=[dict(ny=3, nx=2, z="2d", vz=True), dict(ny=2, nx=3)],
        thorough=[dict(ny=3, nx=3, z="2d", vz=True)],
        labels=["extraction", "operands unchanged"],
        bounds="grids up to 3x2, any axes and bounds",
        shims=SHIMS,
    ),
    Harness(
        square,
        quick=[dict(ny=5, nx=3), dict(ny=3, nx=5), dict(ny=4, nx=4), dict(ny=5, nx=5), dict(ny=6, nx=5)],
        labels=["square"],
        bounds="grids up to 6x5",
        shims=SHIMS,
    ),
    Harness(
        arithmetic,
        quick=[dict(ops=["+", "-"], vz=True), dict(ops=["*", "/"], vz=True), dict(ops=["+", "*"], z="2d")],
        labels=["arithmetic", "operands unchanged"],
        bounds="grids of 2x3, any values (products and quotients with given values)",
        shims=SHIMS,
    ),
    Harness(
        average,
        quick=[dict(n=1), dict(n=2, vz=True), dict(n=3)],
        labels=["time average", "arithmetic", "operands unchanged"],
        bounds="1 to 3 fields of 2x2",
        shims=SHIMS,
    ),
    Harness(
        derivatives,
        quick=[dict(ny=3, nx=4, steps=[(1, 1), (0.5, 2), (4, 0.25)]), dict(ny=4, nx=3, steps=[(0.5, 2)])],
        thorough=[dict(ny=6, nx=5, steps=[(0.5, 2)])],
        labels=["divergence", "rotation"],
        bounds="any linear field on grids of 3x4 and 4x3 (thorough 6x5), 3 pairs of steps, any directions",
        shims=SHIMS,
    ),
    Harness(
        save,
        quick=[dict(z=z, vz=v) for z, v in (("number", False), ("2d", True), ("none", False))],
        labels=["saving"],
        bounds="grids of 2x3",
        shims=SHIMS,
    ),
    Harness(
        filters,
        quick=[dict(name="median"), dict(name="gaussian"), dict(name="median", vz=True, z="2d"),
               dict(name="gaussian", z="2d")],
        labels=["filters", "operands unchanged"],
        bounds="grids of 5x6",
        shims=SHIMS,
    ),
    Harness(
        spatiotemp,
        quick=[dict(n=2), dict(n=3)],
        labels=["functions of time", "operands unchanged"],
        bounds="2 or 3 fields of 2x2",
        shims=SHIMS,
    ),
    Harness(
        regularize,
        quick=[dict(ny=3, nx=4), dict(ny=4, nx=3)],
        labels=["regular grid"],
        bounds="grids of 3x4, any axes",
        shims=SHIMS,
    ),
]
