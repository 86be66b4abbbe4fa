"""Spectra: energy, wavenumbers and waves."""

import math

import numpy as np

import fluidimage.postproc.util
import fluidimage.postproc.vector_field
from fluidimage.postproc.piv import ArrayPIV, PIV2d
from fluidimage.postproc.util import compute_1dspectrum, compute_2dspectrum

from symx.core import poly_close
from symx.runner import Harness

ASSUMPTIONS = [
    "exact arithmetic; the Fourier transforms of numpy are replaced by their definition",
    "values between -4 and 4, energies compared with the tolerance 1e-6 (an absolute value in "
    "the code is one of a complex number: its square is exact)",
    "regular and increasing grids starting anywhere",
]


def grid(n, d, start=0.0):
    return start + d * np.arange(n)


def check_axis(eng, k, n, d, label="wavenumbers"):
    """increasing, from step to step 2 pi / L, with zero"""
    dk = 2 * math.pi / (n * d)
    k = [float(v) for v in k]
    eng.check(len(k) == n, label, "number")
    eng.check(all(abs(b - a - dk) < 1e-9 * max(1, dk) for a, b in zip(k[:-1], k[1:])), label, f"{k}")
    zeros = [i for i, v in enumerate(k) if abs(v) < 1e-9 * dk]
    eng.check(len(zeros) == 1 and zeros[0] == n // 2, label, f"zero at {zeros}")
    return dk


def total(values):
    r = 0
    for v in values:
        r = r + v
    return r


def squares(a):
    return total(v * v for v in np.asarray(a).ravel().tolist()) / a.size


def energy_1d(eng, shape, axis, steps):
    n = shape[axis]
    d = eng.choice("step", steps)
    x = grid(n, d, eng.choice("start", [0.0, -3.0]))
    signal = eng.real_array("s", shape, -4, 4)
    fft, omega, psd = compute_1dspectrum(x, signal, axis=axis)
    dk = check_axis(eng, omega, n, d)
    eng.check(np.shape(psd) == shape and np.shape(fft) == shape, "wavenumbers", "shape")
    s = np.moveaxis(np.asarray(signal), axis, 0)
    p = np.moveaxis(np.asarray(psd), axis, 0)
    f = np.moveaxis(np.asarray(fft), axis, 0)
    for idx in np.ndindex(*s.shape[1:]):
        col = (slice(None),) + idx
        e = 0.5 * squares(s[col])
        eng.check(poly_close(total(p[col].tolist()) * dk, e, 1e-6), "energy", f"{idx}")
        mean = total(s[col].tolist()) / n
        eng.check(poly_close(f[(n // 2,) + idx].real, mean, 1e-6), "mean", f"{idx}")


def energy_2d(eng, shape, axes, steps, grid2d=False):
    ny, nx = (shape[a] for a in axes)
    dx, dy = eng.choice("steps", steps)
    x, y = grid(nx, dx, 1.0), grid(ny, dy)
    if grid2d:
        x1, y1 = np.meshgrid(x, y)
    else:
        x1, y1 = x, y
    signal = eng.real_array("s", shape, -4, 4)
    fft, kx, ky, psd = compute_2dspectrum(x1, y1, signal, axes=axes)
    dkx = check_axis(eng, kx, nx, dx)
    dky = check_axis(eng, ky, ny, dy)
    eng.check(np.shape(psd) == shape, "wavenumbers", "shape")
    planes = [()] if len(shape) == 2 else [(i,) for i in range(shape[0])]
    for idx in planes:
        s, p = np.asarray(signal)[idx], np.asarray(psd)[idx]
        e = 0.5 * squares(s)
        eng.check(poly_close(total(p.ravel().tolist()) * (dkx * dky), e, 1e-6), "energy")
        f = np.asarray(fft)[idx][ny // 2, nx // 2]
        mean = total(s.ravel().tolist()) / s.size
        eng.check(poly_close(f.real, mean, 1e-6), "mean")


def waves(eng, kind, ny, nx, d=(0.5, 2.0)):
    """energy of a wave only at its wavenumber (through the fields)"""
    a, b = eng.real("a", -4, 4), eng.real("b", -4, 4)
    dx, dy = d
    x, y = grid(nx, dx), grid(ny, dy)
    mx = eng.choice("mx", list(range(nx // 2 + 1))) if kind in ("2d", "x", "time") else 0
    my = eng.choice("my", list(range(-((ny - 1) // 2), (ny - 1) // 2 + 1))) if kind in ("2d", "y") else 0

    def phase(i, j):
        return 2 * math.pi * (mx * j / nx + my * i / ny)

    wave = [[a * math.cos(phase(i, j)) + b * math.sin(phase(i, j)) for j in range(nx)]
            for i in range(ny)]
    other = [[0.0 * v for v in row] for row in wave]
    which = eng.choice("component", [0, 1])
    if kind == "time":
        # nx times, ny pixels
        fields = []
        for j in range(nx):
            col = [[wave[i][j], 1.0 * i] for i in range(ny)]
            zero = [[0.0 * v for v in r] for r in col]
            vx, vy = (col, zero) if which == 0 else (zero, col)
            fields.append(PIV2d(grid(2, 1.0), y, 0, eng.array(vx), eng.array(vy)))
        arr = ArrayPIV(fields)
        arr.set_timestep(dx)
        *_, kx, pu, pv = arr.compute_temporal_fft()
        p, q = (pu, pv) if which == 0 else (pv, pu)
        k1, n1 = check_axis(eng, kx, nx, dx), nx
        for it in range(nx):
            for i in range(ny):
                expect(eng, p[it, i, 0], (it - nx // 2,), (mx,), (nx,), a, b, k1)
                eng.check(poly_close(q[it, i, 0], 0, 1e-9), "other component")
        return
    vx, vy = (wave, other) if which == 0 else (other, wave)
    field = PIV2d(x, y, 0, eng.array(vx), eng.array(vy))
    if kind == "2d":
        _, _, kx, ky, pu, pv = field.compute_spatial_fft()
        dk = check_axis(eng, kx, nx, dx) * check_axis(eng, ky, ny, dy)
    elif kind == "x":
        _, _, kx, yy, pu, pv = field.compute_spatial_fft(axes=1)
        dk = check_axis(eng, kx, nx, dx)
        eng.check(list(yy) == list(y), "wavenumbers", "coordinate")
    else:
        _, _, xx, ky, pu, pv = field.compute_spatial_fft(axes=0)
        dk = check_axis(eng, ky, ny, dy)
        eng.check(list(xx) == list(x), "wavenumbers", "coordinate")
    p, q = (pu, pv) if which == 0 else (pv, pu)
    eng.check(np.shape(p) == (ny, nx), "wavenumbers", "shape")
    for i in range(ny):
        for j in range(nx):
            if kind == "2d":
                expect(eng, p[i, j], (i - ny // 2, j - nx // 2), (my, mx), (ny, nx), a, b, dk)
            elif kind == "x":
                expect(eng, p[i, j], (j - nx // 2,), (mx,), (nx,), a, b, dk)
            else:
                expect(eng, p[i, j], (i - ny // 2,), (my,), (ny,), a, b, dk)
            eng.check(poly_close(q[i, j], 0, 1e-9), "other component")


def expect(eng, p, m, wave, sizes, a, b, dk):
    same = all((x - w) % n == 0 for x, w, n in zip(m, wave, sizes))
    opposite = all((x + w) % n == 0 for x, w, n in zip(m, wave, sizes))
    if same and opposite:
        expected = 0.5 * a * a / dk
    elif same or opposite:
        expected = 0.125 * (a * a + b * b) / dk
    else:
        expected = 0
    eng.check(poly_close(p, expected, 1e-6), "wave", f"{m} for the wave {wave}")


SHIMS = dict(builtins_=False)
HARNESSES = [
    Harness(
        energy_1d,
        quick=[dict(shape=(n,), axis=0, steps=[1.0, 0.25, 3.0]) for n in (2, 3, 4, 5, 6)]
        + [dict(shape=(3, 2), axis=0, steps=[0.5]), dict(shape=(2, 4), axis=1, steps=[0.5]),
           dict(shape=(3, 2, 2), axis=0, steps=[0.5])],
        thorough=[dict(shape=(n,), axis=0, steps=[0.25, 3.0]) for n in (7, 8, 9, 10, 12)],
        labels=["energy", "wavenumbers", "mean"],
        bounds="2 to 6 points (thorough 12), 1 to 3 dimensions, any values",
        shims=SHIMS,
    ),
    Harness(
        energy_2d,
        quick=[dict(shape=(2, 3), axes=(0, 1), steps=[(1.0, 1.0), (0.5, 2.0)]),
               dict(shape=(4, 3), axes=(0, 1), steps=[(0.5, 2.0)], grid2d=True),
               dict(shape=(2, 3, 2), axes=(1, 2), steps=[(0.5, 2.0)]),
               dict(shape=(2, 2, 3), axes=(1, 2), steps=[(0.5, 2.0)], grid2d=True)],
        thorough=[dict(shape=(4, 5), axes=(0, 1), steps=[(0.5, 2.0)]),
                  dict(shape=(5, 4), axes=(0, 1), steps=[(0.5, 2.0)])],
        labels=["energy", "wavenumbers", "mean"],
        bounds="up to 12 points (thorough 20)",
        shims=SHIMS,
    ),
    Harness(
        waves,
        quick=[dict(kind="2d", ny=3, nx=4), dict(kind="2d", ny=4, nx=3), dict(kind="x", ny=2, nx=5),
               dict(kind="y", ny=5, nx=2), dict(kind="time", ny=2, nx=4)],
        thorough=[dict(kind="2d", ny=5, nx=6), dict(kind="x", ny=3, nx=8), dict(kind="y", ny=9, nx=3),
                  dict(kind="time", ny=3, nx=7)],
        labels=["wave", "other component", "wavenumbers"],
        bounds="any amplitude and phase, any wavenumber of grids of 3 to 5 points (thorough 9)",
        shims=SHIMS,
    ),
]
