"""The mean image: every image is counted exactly once.

Real topology and executors; the values of the pixels and the schedule are symbolic.
"""

import contextlib
import sys

import h5py
import numpy as np
import PIL.Image
import PIL.ImageFile  # used by fluidimage.util

import fluidimage.executors.exec_async
import fluidimage.executors.exec_async_multiproc
import fluidimage.executors.exec_async_seq_for_multi
import fluidimage.executors.exec_async_sequential
import fluidimage.executors.exec_async_servers
import fluidimage.executors.exec_sequential
import fluidimage.topologies.mean
import fluidimage.util

from checks import sched
from symx.core import Unsupported, is_sym, land, to_real
from symx.runner import Harness

ASSUMPTIONS = [
    "images of 8 or 16 bits without sign; one symbolic pixel per image (the code treats the "
    "arrays as wholes); sums wrap around the type of the arrays as in NumPy",
    "imread, h5py.File and PIL.Image are replaced by stand-ins that keep the arrays",
    "same model of the schedules as C01",
    "mean truncated to the type of the images; fewer than 65537 images",
]


class Img:
    """Array with one symbolic pixel and the type of its values"""

    shape, ndim, size = (1, 1), 2, 1

    def __init__(self, value, hi, dtype):
        self.dtype = np.dtype(dtype)
        if self.dtype.kind in "ui":
            top = int(np.iinfo(self.dtype).max)
            if hi > top:
                value, hi = value % (top + 1), top
        self.value, self.hi = value, hi

    def astype(self, dtype, *args, **kw):
        dtype = np.dtype(dtype)
        value, hi = self.value, self.hi
        if self.dtype.kind == "f" and dtype.kind in "ui":
            value = value.__floor__() if is_sym(value) else int(value)
        elif dtype.kind == "f" and self.dtype.kind != "f":
            value = to_real(value)
        return Img(value, int(hi), dtype)

    def copy(self):
        return Img(self.value, self.hi, self.dtype)

    def __add__(self, other):
        if isinstance(other, Img):
            return Img(self.value + other.value, self.hi + other.hi,
                       np.result_type(self.dtype, other.dtype))
        return Img(self.value + other, self.hi + other, self.dtype)

    __radd__ = __add__

    def __iadd__(self, other):
        r = Img((self + other).value, (self + other).hi, self.dtype)
        self.value, self.hi = r.value, r.hi
        return self

    def __mul__(self, n):
        return Img(self.value * n, self.hi * n, self.dtype)

    __rmul__ = __mul__

    def __truediv__(self, n):
        return Img(to_real(self.value) / n, self.hi / n, np.float64)

    def __floordiv__(self, n):
        if self.dtype.kind == "f":
            return Img(to_real((to_real(self.value) / n).__floor__()), self.hi / n, self.dtype)
        return Img(self.value // int(n), self.hi // int(n), self.dtype)

    def __getitem__(self, key):
        if key is Ellipsis or key == ():
            return self
        return NotImplemented

    def __array_ufunc__(self, ufunc, method, *args, out=None, dtype=None, **kw):
        ops = {"add": "__add__", "true_divide": "__truediv__", "divide": "__truediv__",
               "floor_divide": "__floordiv__", "multiply": "__mul__"}
        name = ufunc.__name__
        if kw.pop("casting", None):
            pass
        if kw and set(kw) != {"axis"}:
            raise Unsupported(f"numpy.{name} on images: {sorted(kw)}")
        if method == "reduce" and name == "add":
            r = sum(self._list(args[0]))
        elif method == "__call__" and name in ops:
            a, b = args
            if dtype is not None:
                a, b = (x.astype(dtype) if isinstance(x, Img) else x for x in (a, b))
            if isinstance(a, Img):
                r = getattr(a, ops[name])(b)
            elif name == "add":
                r = b + a
            elif name == "multiply":
                r = b * a
            else:
                raise Unsupported(f"numpy.{name} on images")
        elif method == "__call__" and name in ("floor", "trunc", "positive"):
            r = args[0]
            if name != "positive" and r.dtype.kind == "f":
                r = Img(to_real(to_real(r.value).__floor__()), r.hi, r.dtype)
        else:
            raise Unsupported(f"numpy.{name} ({method}) on images")
        if out is not None:
            r = Img(r.value, r.hi, out[0].dtype)
            out[0].value, out[0].hi = r.value, r.hi
            return out[0]
        return r

    @staticmethod
    def _list(obj):
        if isinstance(obj, Img):
            raise Unsupported("sum of the pixels of an image")
        return list(obj)

    def __array_function__(self, func, types, args, kwargs):
        name = func.__name__
        dtype = kwargs.get("dtype")
        if name in ("zeros_like", "ones_like", "full_like", "empty_like"):
            value = {"ones_like": 1, "full_like": args[1] if len(args) > 1 else None}.get(name, 0)
            if name == "full_like":
                value = kwargs.get("fill_value", value)
                if value is None or value < 0:
                    raise Unsupported("numpy.full_like of images")
            return Img(value, value, dtype or self.dtype)
        if name in ("sum", "stack", "array_split") and not isinstance(args[0], Img):
            if name == "stack":
                return list(args[0])
            if name == "sum":
                images = list(args[0])
                kind = np.result_type(*[im.dtype for im in images])
                if dtype is None and kind.kind in "ui" and kind.itemsize < 8:
                    dtype = np.uint64 if kind.kind == "u" else np.int64
                return sum(im.astype(dtype or kind) for im in images)
        if name in ("copy", "shape", "ndim", "size"):
            return args[0].copy() if name == "copy" else getattr(args[0], name)
        if name == "copyto":
            dst, src = args[:2]
            r = src.astype(dst.dtype) if isinstance(src, Img) else Img(src, src, dst.dtype)
            dst.value, dst.hi = r.value, r.hi
            return None
        if name == "fix":
            return np.trunc(args[0])
        raise Unsupported(f"numpy.{name} on images")


class FakeH5:
    """files of one array and attributes"""

    def __init__(self):
        self.store = {}
        h5 = self

        class File:
            def __init__(self, path, mode="r", **kw):
                path = str(path)
                if mode[0] == "r":
                    open(path).close()
                elif mode[0] == "w" or path not in h5.store:
                    open(path, "w").close()
                    h5.store[path] = ({}, {})
                self.data, self.attrs = h5.store[path]

            def create_dataset(self, name, data=None, **kw):
                self.data[name] = data.copy()

            __setitem__ = create_dataset

            def __getitem__(self, name):
                return self.data[name]

            def close(self):
                pass

            def __enter__(self):
                return self

            def __exit__(self, *args):
                pass

        self.File = File


class FakeImage:
    """PIL.Image"""

    def __init__(self):
        self.saved = {}

    def fromarray(self, array, *args):
        images = self

        class Im:
            def save(self, path, *args, **kw):
                images.saved[str(path)] = array
                open(path, "w").close()

            def close(self):
                pass

            def __enter__(self):
                return self

            def __exit__(self, *args):
                pass

        return Im()


class Run:
    """directory with images, symbolic content"""

    def __init__(self, eng, path, nb, bits, may_fail=()):
        self.eng, self.path, self.nb = eng, path, nb
        self.dtype = np.dtype(f"uint{bits}")
        self.top = 2**bits - 1
        src = path / "src"
        src.mkdir()
        first = PIL.Image.fromarray(np.zeros((1, 1), dtype=self.dtype))
        self.names = [f"im{i:02d}.png" for i in range(nb)]
        for name in self.names:
            first.save(src / name)
        self.values = [eng.int(f"p{i}", 0, self.top) for i in range(nb)]
        self.fails = {
            i: bool(eng.bool(f"unreadable{i}")) for i in range(nb) if i in may_fail
        }
        self.h5, self.image = FakeH5(), FakeImage()

    def imread(self, path):
        index = self.names.index(str(path).replace("\\", "/").rsplit("/", 1)[-1])
        if self.fails.get(index):
            raise OSError(f"can not read {path}")
        return Img(self.values[index], self.top, self.dtype)

    @contextlib.contextmanager
    def patched(self, fake=None, tag=None):
        table = {
            id(h5py): self.h5, id(h5py.File): self.h5.File,
            id(PIL.Image): self.image, id(fluidimage.util.imread): self.imread,
        }
        with contextlib.ExitStack() as stack:
            stack.enter_context(sched.patch_fluidimage(table))
            if fake is not None:
                stack.enter_context(sched.patch_trio(fake))
            if tag is not None:
                stack.enter_context(sched.patch_fluidimage(sched.executor_table(tag, [])))
            yield

    def topology(self):
        cls = fluidimage.topologies.mean.TopologyMeanImage
        params = cls.create_default_params()
        params.images.path = str(self.path / "src")
        params.saving.path = str(self.path / "mean")
        return cls(params, logging_level=None)

    def check(self, topo):
        eng = self.eng
        good = [i for i in range(self.nb) if not self.fails.get(i)]
        total, n = sum(self.values[i] for i in good), len(good)
        result = topo.result
        eng.observe("mean", result.value)
        value = to_real(result.value)
        eng.check(land(value * n <= total, total < value * n + n), "mean of all the images",
                  f"{n} images")
        eng.check(result.dtype == self.dtype, "type of the images", str(result.dtype))
        saved = self.image.saved.get(str(self.path / "mean.png"))
        eng.check(saved is not None and saved.dtype == self.dtype, "mean saved")
        if saved is not None:
            eng.check(saved.value == result.value, "mean saved")


def whole_run(eng, executor, nb, budget=1, bits=8, may_fail=(), slow=1, nb_max_workers=2):
    with sched.run_directory() as path, sched.quiet():
        run = Run(eng, path, nb, bits, may_fail)
        fake = sched.FakeTrio(eng, budget, max_ticks=60 + 20 * nb)
        with run.patched(fake, executor):
            topo = run.topology()
            if executor == "exec_sequential":
                kw = {}
            else:
                kw = dict(nb_max_workers=nb_max_workers)
            ex = sched.make_executor(executor, topo, path, **kw)
            topo.executor = ex
            finished = True
            try:
                ex.compute()
            except sched.NotFinished:
                finished = False
            eng.check(finished, "the run ends")
            if not finished:
                return
            if not hasattr(topo, "result"):
                # the partial sums of the processes are combined by the parent
                topo.final_seq_work()
        run.check(topo)


class Parent:
    def __init__(self, path, index=None):
        self.path_job_data = path
        if index is not None:
            self.index_process = index


def partial_sums(eng, nb, nb_processes, sizes, bits=16):
    """the images arrive in batches of any sizes, in several processes"""
    with sched.run_directory() as path, sched.quiet():
        run = Run(eng, path, nb, bits)
        (path / "job").mkdir()
        with run.patched():
            topo = run.topology()
            left = list(range(nb))
            for index in range(nb_processes):
                topo.executor = Parent(path / "job", index)
                queues = paths, arrays, sums = topo.queues
                last = index == nb_processes - 1
                room = len(left) - (nb_processes - 1 - index)
                share = room if last else eng.choice(f"share{index}", list(range(1, room + 1)))
                mine, left = left[:share], left[share:]
                nb_step = 0
                while mine:
                    size = min(len(mine), eng.choice(f"batch{index}_{nb_step}", sizes))
                    nb_step += 1
                    batch, mine = mine[:size], mine[size:]
                    for i in batch:
                        arrays[run.names[i]] = run.imread(run.names[i])
                    paths.clear()
                    if mine:
                        paths["more"] = "more"
                    topo.main(queues, None)
            topo.executor = Parent(path / "job")
            topo.final_seq_work()
        run.check(topo)


SHIMS = dict(prefix=(), builtins_=False)
LABELS = ["mean of all the images", "type of the images", "mean saved"]

HARNESSES = [
    Harness(
        whole_run,
        quick=[
            dict(executor="exec_sequential", nb=3, may_fail=(1,)),
            dict(executor="exec_sequential", nb=9, bits=16),
            dict(executor="exec_async", nb=2, budget=2),
            dict(executor="exec_async", nb=3, may_fail=(0, 2)),
            dict(executor="exec_async_sequential", nb=3, budget=1),
            dict(executor="exec_async_seq_for_multi", nb=3, budget=1),
            dict(executor="exec_async", nb=5, budget=1),
        ],
        thorough=[
            dict(executor=e, nb=n, budget=b, may_fail=f)
            for e in ("exec_async", "exec_async_sequential", "exec_async_seq_for_multi",
                      "exec_async_multiproc", "exec_async_servers")
            for n, b, f in ((1, 2, ()), (3, 2, ()), (3, 1, (0, 1)), (6, 1, ()))
        ],
        labels=LABELS + ["the run ends"],
        bounds="2 to 9 images; 1 or 2 deviations from the default schedule",
        shims=SHIMS,
        validate=False,
    ),
    Harness(
        partial_sums,
        quick=[
            dict(nb=1, nb_processes=1, sizes=[1]),
            dict(nb=6, nb_processes=1, sizes=[1, 2, 5]),
            dict(nb=9, nb_processes=1, sizes=[3, 4, 7]),
            dict(nb=6, nb_processes=3, sizes=[1, 4]),
            dict(nb=9, nb_processes=9, sizes=[1], bits=8),
        ],
        thorough=[
            dict(nb=8, nb_processes=1, sizes=[1, 2, 3, 4, 5]),
            dict(nb=8, nb_processes=4, sizes=[1, 2]),
            dict(nb=21, nb_processes=5, sizes=[4, 5]),
        ],
        labels=LABELS,
        bounds="1 to 9 images given in any batches to 1 to 9 processes",
        shims=SHIMS,
        validate=False,
    ),
]
