"""Final fields on their regular grid; grid of the pixels recomputed from the parameters."""

import numpy as np

import fluidimage.data_objects.piv as piv
import fluidimage.postproc.util as util
from fluidimage.data_objects.piv import ArrayCouple
from fluidimage.postproc.piv import PIV2d, get_grid_pixel, get_grid_pixel_from_piv_file
from fluidimage.works.piv import WorkPIV

from checks.c25 import Correl
from checks.c28 import bound, image, resolve
from checks.c29 import Content, multipass, storage
from symx.core import land
from symx.runner import Harness

ASSUMPTIONS = [
    "the vectors are those of a full grid, listed row by row or column by column, with at least "
    "two rows and two columns",
    "in-memory stand-in of h5py (see C29)",
    "the correlation is a stand-in giving null displacements for the comparison with the vectors "
    "really computed",
]


def axis(eng, name, n, integers):
    """strictly monotone values"""
    make = eng.int if integers else eng.real
    sign = eng.choice(name + "direction", [1, -1])
    values = [make(name + "0", 0, 1000)]
    for i in range(1, n):
        values.append(values[-1] + sign * make(f"{name}d{i}", 1, 100))
    return values


def lists(eng, ny, nx, integers):
    """flat positions and place (row, column) of each vector in the increasing order"""
    xs, ys = axis(eng, "x", nx, integers), axis(eng, "y", ny, integers)
    if eng.choice("order", ["x first", "y first"]) == "x first":
        places = [(i, j) for i in range(ny) for j in range(nx)]
    else:
        places = [(i, j) for j in range(nx) for i in range(ny)]
    x_flat = np.array([xs[j] for i, j in places], dtype=object if eng.symbolic else None)
    y_flat = np.array([ys[i] for i, j in places], dtype=object if eng.symbolic else None)
    if eng.symbolic:
        from symx.arr import as_symarray

        x_flat, y_flat = as_symarray(x_flat), as_symarray(y_flat)
    return xs, ys, places, x_flat, y_flat


def grid(eng, ny, nx, integers=False, nan=False):
    xs, ys, places, x_flat, y_flat = lists(eng, ny, nx, integers)
    n = ny * nx
    us, vs = (eng.real_array(k, (n,), nan=nan) for k in "uv")
    before = [a.copy() for a in (x_flat, y_flat, us, vs)]
    X, Y, U, V = util.reshape_on_grid_final(x_flat, y_flat, us, vs)
    X1, Y1 = util.get_grid_from_ivecs_final(x_flat, y_flat)
    for a in (X, Y, U, V, X1, Y1):
        eng.check(a.shape == (ny, nx), "shape")
    for k, (i, j) in enumerate(places):
        for a, b in ((X, Y), (X1, Y1)):
            eng.check_close(a[i, j], xs[j], "positions", 0, f"x of the vector {k}")
            eng.check_close(b[i, j], ys[i], "positions", 0, f"y of the vector {k}")
        eng.check_close(U[i, j], before[2][k], "values", 0, f"U of the vector {k}")
        eng.check_close(V[i, j], before[3][k], "values", 0, f"V of the vector {k}")
    for a, b in zip((x_flat, y_flat, us, vs), before):
        for p, q in zip(a.tolist(), b.tolist()):
            eng.check_close(p, q, "arguments unchanged", 0)


def from_file(eng, nb_passes, ny=2, nx=3, light=False, nan=()):
    """field of the last pass, on increasing axes"""
    with storage(eng) as (path, _):
        xs, ys, places, x_flat, y_flat = lists(eng, ny, nx, True)
        content = Content(eng, nb_passes, None, (), nan, nb=ny * nx)
        last = nb_passes - 1
        for k, v in (("ixvecs_final", x_flat), ("iyvecs_final", y_flat)):
            content.arrays[last, k] = v
            setattr(content.results[last], k, v.copy())
        m = multipass(content)
        if light:
            m.file_name = "piv_01a-b.h5"
            m.make_light_result().save(str(path))
            name = str(path / "piv_01a-b_light.h5")
        else:
            name = str(m.save(str(path)))
        field = PIV2d.from_file(name)
        u, v = (content.arrays[last, k] for k in ("deltaxs_final", "deltays_final"))
        eng.check(field.vx.shape == field.vy.shape == (ny, nx), "shape")
        eng.check(len(field.x) == nx and len(field.y) == ny, "shape")
        for values, expected in ((field.x, xs), (field.y, ys)):
            for a, b in zip(values[:-1], values[1:]):
                eng.check(a < b, "increasing axes")
            expected = expected if bool(expected[0] < expected[-1]) else expected[::-1]
            for a, b in zip(values.tolist(), expected):
                eng.check_close(a, b, "positions", 0)
        up, right = bool(ys[0] < ys[-1]), bool(xs[0] < xs[-1])
        for k, (i, j) in enumerate(places):
            i, j = i if up else ny - 1 - i, j if right else nx - 1 - j
            eng.check_close(field.vx[i, j], u[k], "values", msg=f"U of the vector {k}")
            eng.check_close(field.vy[i, j], v[k], "values", msg=f"V of the vector {k}")
        eng.check(field.params.multipass.number == nb_passes, "parameters")
        eng.check(field.params.fix.displacement_max == 3.5, "parameters")


def grid_pixel(eng, vary, n=None, passes=1, size=4, how="function", overlap=0.5, zoom=2):
    """positions of the vectors really computed, in the original image"""
    params = WorkPIV.create_default_params()
    params.piv0.shape_crop_im0 = size
    params.piv0.grid.overlap = overlap
    params.piv0.method_correl = "scipy.ndimage"
    params.piv0.method_subpix = "centroid"
    params.multipass.number = passes
    params.multipass.use_tps = True
    params.multipass.coeff_zoom = zoom
    shape = [9, 8] if size == 4 else [19, 17]
    limits = [(0, shape[0]), (0, shape[1])]
    if vary is not None:
        if n is not None:
            shape[vary] = n
        n = shape[vary]
        t0, v0 = bound(eng, "v0", -n - 1, n)
        t1, v1 = bound(eng, "v1", -n, n + 1)
        parts = ["1:8", "2:8"] if size == 4 else ["2:", "1:-1"]
        parts[vary] = f"{t0}:{t1}"
        i0, i1 = resolve(v0, v1, n)
        # several passes: at least two vectors in each direction (interpolation)
        eng.assume(i1 - i0 >= size + (2 if passes > 1 else 0))
        params.mask.strcrop = ",".join(parts)
    elif n is not None:
        # images not cropped, of any shape
        shape = [eng.choice(f"n{i}", n) for i in (0, 1)]
    work = WorkPIV(params)
    result = couple = ArrayCouple(names=("a", "b"), arrays=(image(shape), image(shape, 1000)))
    results = piv.MultipassPIVResults()
    for w in work.works_piv:
        w.correl = Correl(eng)
        w.correl.apply_subpix = lambda dx, dy, c: (dx, dy)
        w.correl.compute_displacements_from_correl = lambda c, norm=1.0: (0.0, 0.0, 1.0, [])
        result = w.calcul(result)
        results.append(result)
    which = eng.choice("which", [*range(passes), *range(-passes, 0)])
    if how == "function":
        xs, ys = get_grid_pixel(params, tuple(shape), which)
    elif how == "object":
        xs, ys = results.get_grid_pixel(which)
    elif how == "file":
        with storage(eng) as (path, _):
            if eng.bool("method"):
                name = str(results.save(str(path)))
                xs, ys = piv.MultipassPIVResults(str_path=name).get_grid_pixel(which)
            else:
                for r in results.passes:
                    r.couple, r.params = couple, params
                name = str(results.save(str(path)))
                xs, ys = get_grid_pixel_from_piv_file(name, which)
    r = results.passes[which]
    positions = list(zip(r.xs.tolist(), r.ys.tolist()))
    for got, vectors in ((xs, r.xs), (ys, r.ys)):
        expected = sorted({int(x) for x in vectors})
        eng.check([int(x) for x in got] == expected, "positions of the vectors",
                  f"{list(got)} instead of {expected}")
    eng.check(len(positions) == len(xs) * len(ys), "positions of the vectors")


HARNESSES = [
    Harness(
        grid,
        quick=[
            dict(ny=2, nx=2),
            dict(ny=2, nx=3, nan=True),
            dict(ny=3, nx=2, integers=True),
            dict(ny=3, nx=3),
            dict(ny=2, nx=5, integers=True),
            dict(ny=4, nx=2),
        ],
        thorough=[dict(ny=4, nx=5), dict(ny=5, nx=4, integers=True)],
        labels=["shape", "positions", "values", "arguments unchanged"],
        bounds="2 to 5 rows and columns (up to 5 x 4), any positions on axes in any directions, "
        "two orders",
        shims=dict(builtins_=False),
    ),
    Harness(
        from_file,
        quick=[
            dict(nb_passes=1, nan=("deltaxs_final",)),
            dict(nb_passes=2, ny=3, nx=2),
            dict(nb_passes=3),
            dict(nb_passes=1, light=True, ny=3, nx=2),
            dict(nb_passes=3, light=True),
        ],
        thorough=[dict(nb_passes=4, ny=3, nx=3)],
        labels=["shape", "increasing axes", "positions", "values", "parameters"],
        bounds="1 to 3 passes (thorough 4), fields of 2 x 3 or 3 x 2 vectors",
        shims=dict(builtins_=False),
    ),
    Harness(
        grid_pixel,
        quick=[
            dict(vary=0),
            dict(vary=1),
            dict(vary=0, passes=2),
            dict(vary=1, n=9, passes=2, how="object"),
            dict(vary=1, passes=1, how="file"),
            dict(vary=None, n=(6, 7, 9, 12), passes=2, how="file"),
            dict(vary=None, n=(6, 8, 11), passes=2, how="object", overlap=0.25, zoom=1),
        ],
        thorough=[
            dict(vary=0, passes=2, how="file"),
            dict(vary=1, passes=3, size=8),
            dict(vary=0, n=12, passes=2),
        ],
        labels=["positions of the vectors"],
        bounds="images up to 12 x 12 pixels (thorough 19 x 17), any bounds of the crop in one "
        "direction, one or two passes (thorough three), windows of 4 pixels (thorough 8)",
    ),
]
