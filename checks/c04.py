"""Splitting a computation between processes is an exact partition."""

import contextlib
import copy
import itertools
import sys
import time

import fluidimage.executors.base
import fluidimage.executors.exec_async_seq_for_multi
import fluidimage.executors.multi_exec_async
import fluidimage.executors.multi_exec_subproc
import fluidimage.run_from_xml
import fluidimage.topologies.base
import fluidimage.topologies.bos
import fluidimage.topologies.image2image
import fluidimage.topologies.mean
import fluidimage.topologies.piv
import fluidimage.topologies.preproc
import fluidimage.topologies.splitters as splitters
from fluidimage import ParamContainer
from fluidimage.topologies.base import TopologyBaseFromImages, TopologyBaseFromSeries

from checks import sched
from symx import arr
from symx.core import is_sym, land, lor
from symx.runner import Harness

ASSUMPTIONS = [
    "the files of the series are not looked at: the series is given by its start, stop and step",
    "a started process (multiprocessing or subprocess) is run at once, in the same interpreter, "
    "on a copy of the topology (the memory of a forked process) or from its file of parameters",
    "no deviation of the scheduler inside of the processes (see C01)",
]


# --- stand-ins ---------------------------------------------------------------

class SymRange:
    """range with symbolic bounds and a known step"""

    def __init__(self, start, stop, step):
        step = step.__index__()
        if step == 0:
            raise ValueError("range() arg 3 must not be zero")
        self.start, self.stop, self.step = start, stop, step

    def __symlen__(self):
        d = self.stop - self.start if self.step > 0 else self.start - self.stop
        s = abs(self.step)
        n = (d + s - 1) // s
        return n if n > 0 else 0

    def __len__(self):
        return self.__symlen__().__index__()

    def __bool__(self):
        return bool(self.start < self.stop if self.step > 0 else self.start > self.stop)

    def __iter__(self):
        i = self.start
        while i < self.stop if self.step > 0 else i > self.stop:
            yield i
            i = i + self.step

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise TypeError("slice of a symbolic range")
        n = self.__symlen__()
        if i < 0:
            i = i + n
        if i < 0 or i >= n:
            raise IndexError("range object index out of range")
        return self.start + i * self.step

    def __contains__(self, i):
        return bool(in_range(i, self.start, self.stop, self.step))


class _RangeMeta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, (range, SymRange))


class ShimRange(metaclass=_RangeMeta):
    def __new__(cls, *args):
        if not any(is_sym(a) for a in args):
            return range(*args)
        if len(args) == 1:
            args = (0, args[0], 1)
        elif len(args) == 2:
            args = (*args, 1)
        return SymRange(*args)


class SymSeq:
    """List whose item i is i, of symbolic length"""

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def __symlen__(self):
        return self.hi - self.lo

    def __len__(self):
        return (self.hi - self.lo).__index__()

    def __bool__(self):
        return bool(self.hi > self.lo)

    def _clip(self, i, default):
        if i is None:
            return default
        n = self.hi - self.lo
        if i < 0:
            i = i + n
            if i < 0:
                return 0
        return n if i > n else i

    def __getitem__(self, i):
        n = self.hi - self.lo
        if isinstance(i, slice):
            if i.step is not None and not i.step == 1:
                return list(self)[i]
            start, stop = self._clip(i.start, 0), self._clip(i.stop, n)
            if stop < start:
                stop = start
            return SymSeq(self.lo + start, self.lo + stop)
        if i < 0:
            i = i + n
        if i < 0 or i >= n:
            raise IndexError("list index out of range")
        return self.lo + i

    def __iter__(self):
        i = self.lo
        while i < self.hi:
            yield i
            i = i + 1


def in_range(i, start, stop, step):
    """i belongs to range(start, stop, step) (step known)"""
    if step > 0:
        return land(i >= start, i < stop, (i - start) % step == 0)
    return land(i <= start, i > stop, (start - i) % -step == 0)


def nb_elements(start, stop, step):
    d = stop - start if step > 0 else start - stop
    s = abs(step)
    n = (d + s - 1) // s
    return n if n > 0 else 0


SHIMS = dict(
    extra=[
        (m.__dict__, "range", ShimRange)
        for m in (splitters, fluidimage.executors.base, fluidimage.executors.multi_exec_async,
                  fluidimage.executors.multi_exec_subproc, fluidimage.topologies.base)
    ]
)


def check_ranges(eng, ranges, whole, num_parts):
    """the ranges are an exact and ordered partition of the whole range"""
    start, stop, step = whole
    sizes = [nb_elements(*r) for r in ranges]
    total = 0
    for n in sizes:
        total = total + n
    eng.check(total == nb_elements(*whole), "nothing added or lost")
    i = eng.int("i")
    inside = in_range(i, *whole)
    belongs = [in_range(i, *r) for r in ranges]
    nb = 0
    for b in belongs:
        nb = nb + (1 if not is_sym(b) and b else 0 if not is_sym(b) else b._int())
    eng.check((nb == 1) == inside, "each index in one process")
    eng.check(lor(inside, nb == 0), "each index in one process")
    eng.check(len(ranges) <= num_parts, "sizes differ by at most one")
    for n0 in sizes:
        for n1 in sizes:
            if n0 is n1:
                continue
            # parts that are empty may be left out
            eng.check(n0 - n1 <= 1, "sizes differ by at most one")
    for r in ranges:
        eng.check(r[2] == step, "each index in one process")
    for r0, r1 in zip(ranges, ranges[1:]):
        # in order: the parts which are not empty follow each other
        n0, n1 = nb_elements(*r0), nb_elements(*r1)
        last = r0[0] + (n0 - 1) * step
        follow = r1[0] > last if step > 0 else r1[0] < last
        eng.check(lor(n0 == 0, n1 == 0, follow), "in order")


def ranges(eng, num_parts, step):
    """split_range"""
    start, stop = eng.int("start"), eng.int("stop")
    check_ranges(eng, list(splitters.split_range(start, stop, step, num_parts)),
                 (start, stop, step), num_parts)


def lists(eng, num_parts, nmax):
    """split_list"""
    n = eng.int("n", 0, nmax)
    sequence = SymSeq(0, n) if eng.symbolic else list(range(n))
    parts = splitters.split_list(sequence, num_parts)
    eng.check(len(parts) <= num_parts, "sizes differ by at most one")
    pos = 0
    sizes = []
    for part in parts:
        if isinstance(part, SymSeq):
            size = part.hi - part.lo
            eng.check(lor(size == 0, part.lo == pos), "each index in one process")
        else:
            size = len(part)
            for j, x in enumerate(part):
                eng.check(x == pos + j, "each index in one process")
        pos = pos + size
        sizes.append(size)
    eng.check(pos == n, "nothing added or lost")
    for s0 in sizes:
        for s1 in sizes:
            eng.check(s0 - s1 <= 1, "sizes differ by at most one")


class Namespace:
    def __init__(self, **kw):
        self.__dict__.update(kw)


def series_params(eng, cls, num_parts, step):
    """parameters of the sub-processes for the topologies based on series"""
    params = cls.create_default_params()
    p = params.series
    p.path = "/src/im*"
    p.str_subset = "i:i+2"
    start, stop = eng.int("start"), eng.int("stop")
    series = Namespace(ind_start=start, ind_stop=stop, ind_step=step)
    topology = Namespace(series=series, how_saving="recompute", params=params)
    splitter = cls.Splitter(params, num_parts, topology)
    eng.check(
        splitter.num_expected_results == nb_elements(start, stop, step), "announced number"
    )
    ranges = []
    for sub in splitter.iter_over_new_params():
        ps = sub.series
        ranges.append((ps.ind_start, ps.ind_stop, ps.ind_step))
        eng.check(ps.path == p.path, "nothing else changed")
        eng.check(ps.str_subset == p.str_subset, "nothing else changed")
    for r in ranges:
        eng.check(nb_elements(*r) > 0, "no empty process")
    check_ranges(eng, ranges, (start, stop, step), num_parts)


class FakeSerie:
    def __init__(self, slicing_tuples):
        self.slicing_tuples = slicing_tuples

    def get_slicing_tuples(self):
        return self.slicing_tuples

    def __symlen__(self):
        n = 1
        for s in self.slicing_tuples:
            n = n * nb_elements(*(tuple(s) + (1,))[:3])
        return n

    def __len__(self):
        return self.__symlen__().__index__()


def images_params(eng, cls, num_parts, step, second=None, short=False):
    """parameters of the sub-processes for the topologies based on images"""
    eng.opaque_str = False
    params = cls.create_default_params()
    params.images.path = "/src/im*"
    start, stop = eng.int("start", 0), eng.int("stop", 0)
    s0 = (start, stop) if short else (start, stop, step)
    tuples = [s0] if second is None else [s0, second]
    serie = FakeSerie(tuples)
    topology = Namespace(
        serie=serie, how_saving="recompute", params=params, path_reference="/ref/im"
    )
    if eng.symbolic:
        eng.opaque_str = "numeral"
    splitter = cls.Splitter(params, num_parts, topology)
    ranges = []
    for sub in splitter.iter_over_new_params():
        eng.check(sub.images.path == params.images.path, "nothing else changed")
        dims = sub.images.str_subset.split(",")
        eng.check(len(dims) == len(tuples), "nothing else changed")
        numbers = [[arr.ShimInt(t) for t in d.split(":")] for d in dims]
        if len(numbers[0]) == 2:
            numbers[0].append(1)
        ranges.append(tuple(numbers[0]))
        if second is not None:
            eng.check(
                tuple(numbers[1] + [1])[:3] == tuple(list(second) + [1])[:3],
                "nothing else changed",
            )
    for r in ranges:
        eng.check(nb_elements(*r) > 0, "no empty process")
    check_ranges(eng, ranges, (start, stop, step), num_parts)


# --- whole runs ---------------------------------------------------------------

class Current:
    """What the classes below are about"""


CUR = Current()


class FakeSeries:
    def __init__(self, ind_start, ind_stop, ind_step):
        self.ind_start, self.ind_stop, self.ind_step = ind_start, ind_stop, ind_step
        self.nb_series = len(self)

    def set_index_series(self, index_series):
        self.index_series = index_series

    def _indices(self):
        if hasattr(self, "index_series"):
            return list(self.index_series)
        return list(range(self.ind_start, self.ind_stop, self.ind_step))

    def __iter__(self):
        return iter(self._indices())

    def items(self):
        return [(i, i) for i in self._indices()]

    def __len__(self):
        return len(self._indices())


class _Mixin:
    def _add_works(self, fill):
        q0, q1, q2 = (self.add_queue(f"q{i}") for i in range(3))
        self.add_work("fill", fill, output_queue=q0, kind=("global", "one shot"))
        self.add_work("compute", self.calcul, input_queue=q0, output_queue=q1)
        self.add_work("save", self.save, input_queue=q1, kind="io")
        self.results = []

    def calcul(self, value):
        CUR.computed.append(value)
        return value

    def save(self, value):
        CUR.saved.append(value)
        self.results.append(f"res{value}")


class SeriesTopology(_Mixin, TopologyBaseFromSeries):
    Splitter = splitters.SplitterFromSeries

    @classmethod
    def create_default_params(cls):
        params = ParamContainer(tag="params")
        cls._add_default_params_saving(params)
        params._set_child(
            "series",
            attribs=dict(path="", str_subset=None, ind_start=0, ind_stop=None, ind_step=1),
        )
        return params

    def __init__(self, params, logging_level=None, nb_max_workers=None):
        p = params.series
        self.series = FakeSeries(p.ind_start, p.ind_stop, p.ind_step)
        super().__init__(params, path_dir_src=CUR.path / "src", logging_level=logging_level)
        self._add_works(self.fill)

    def compute_indices_to_be_computed(self):
        return [i for i in self.series if i not in CUR.existing]

    def fill(self, input_queue, output_queue):
        self.init_series()
        for i in self.series:
            output_queue[f"k{i}"] = i


class FakeImages:
    def __init__(self, str_subset, n):
        self.slicings = [(0, n, 1)]
        if str_subset is not None:
            self.slicings = [
                tuple(int(t) for t in d.split(":")) for d in str_subset.split(",")
            ]
        self.base_name = "im"

    def get_slicing_tuples(self):
        return self.slicings

    def iter_indices(self):
        return iter(list(itertools.product(*(range(*s) for s in self.slicings))))

    def __len__(self):
        return len(list(self.iter_indices()))

    def compute_name_from_indices(self, *indices):
        return "im" + "_".join(str(i) for i in indices)


class ImagesTopology(_Mixin, TopologyBaseFromImages):
    Splitter = splitters.SplitterFromImages

    @classmethod
    def create_default_params(cls):
        params = ParamContainer(tag="params")
        cls._add_default_params_saving(params)
        params._set_child("images", attribs=dict(path="", str_subset=None, nb=0))
        return params

    def __init__(self, params, logging_level=None, nb_max_workers=None):
        self.serie = FakeImages(params.images.str_subset, params.images.nb)
        super().__init__(params, path_dir_src=CUR.path / "src", logging_level=logging_level)
        self._add_works(self.fill_queue_paths)

    def calcul(self, value):
        value = int(value.rsplit("im", 1)[1].split("_")[0])
        return super().calcul(value)


@contextlib.contextmanager
def fork_copies():
    """the queues can be copied as the memory of a forked process"""
    Queue = fluidimage.topologies.base.Queue

    def deepcopy(self, memo):
        new = type(self)(self.name, kind=self.kind)
        memo[id(self)] = new
        for key, value in self.items():
            new[copy.deepcopy(key, memo)] = copy.deepcopy(value, memo)
        return new

    Queue.__deepcopy__ = deepcopy
    try:
        yield
    finally:
        del Queue.__deepcopy__


class Forked:
    """multiprocessing.Process"""

    pid = 0

    def __init__(self, target, args=(), kwargs=None):
        self.target, self.args, self.kwargs = target, args, kwargs or {}
        self.exitcode = None

    def start(self):
        with fork_copies():
            args = copy.deepcopy(self.args)
        out = sys.stdout, sys.stderr
        try:
            self.target(*args, **self.kwargs)
        finally:
            sys.stdout, sys.stderr = out
        CUR.processes.append(None)
        self.exitcode = 0

    def join(self, timeout=None):
        pass


class Launched:
    """subprocess.Popen"""

    pid = 0
    returncode = 0
    stdout = stderr = None

    def __init__(self, command, **kwargs):
        if command[1:3] != ["-m", "fluidimage.run_from_xml"]:
            raise AssertionError(f"unexpected command {command}")
        out = sys.stdout, sys.stderr
        argv = sys.argv
        sys.argv = command[2:]
        try:
            fluidimage.run_from_xml.main()
        finally:
            sys.argv = argv
            sys.stdout, sys.stderr = out
        CUR.processes.append(None)

    def poll(self):
        return 0

    def wait(self, timeout=None):
        return 0


@contextlib.contextmanager
def stand_ins(eng):
    import multiprocessing
    import signal
    import subprocess

    fake = sched.FakeTrio(eng, 0)
    table = {
        id(time.sleep): lambda *args: None,
        id(multiprocessing.Process): Forked,
        id(subprocess): Namespace(Popen=Launched, PIPE=subprocess.PIPE),
        id(subprocess.Popen): Launched,
    }
    old = {n: signal.getsignal(n) for n in (signal.SIGINT, 12)}
    try:
        with sched.quiet(), sched.patch_trio(fake), sched.patch_fluidimage(table):
            yield
    finally:
        for n, h in old.items():
            signal.signal(n, h)
        from fluidimage import reset_logger

        reset_logger()


def _prepare(path, existing):
    CUR.path, CUR.existing = path, existing
    CUR.computed, CUR.saved, CUR.processes = [], [], []
    (path / "src").mkdir()


def whole(eng, kind, executor, how, nmax=4, nproc=3, steps=(1,), starts=None, second=None):
    """a run split between processes computes each item once"""
    nb_processes = eng.int("nb_processes", 1, nproc).__index__()
    n = eng.int("n", 1, nmax).__index__()
    step = eng.choice("step", steps)
    # indices of several digits: in files in the mode complete
    start = eng.choice("start", starts or ((0, 1) if kind == "series" else (0,)))
    indices = list(range(start, start + n * step, step))
    existing = set()
    if how == "complete":
        existing = {i for i in indices if bool(eng.bool(f"exists{i}"))}
    expected = [i for i in indices if i not in existing]
    with sched.run_directory() as path:
        _prepare(path, existing)
        cls = SeriesTopology if kind == "series" else ImagesTopology
        params = cls.create_default_params()
        params.saving.how = how
        if kind == "series":
            params.series.ind_start = start
            params.series.ind_stop = start + (n - 1) * step + 1
            params.series.ind_step = step
        else:
            params.images.nb = n
            if start or second:
                params.images.str_subset = f"{start}:{start + n}:1"
            if second:
                params.images.str_subset += f",{second}:{second + 1}:1"
        if how == "complete":
            (path / "src.base").mkdir()
            for i in existing:
                name = f"im{i}_{second}" if second else f"im{i}"
                (path / "src.base" / name).touch()
        with stand_ins(eng):
            topology = cls(params)
            ex = sched.executor_class(executor)(
                topology, topology.path_dir_result, nb_max_workers=nb_processes,
                logging_level=None,
            )
            ex.compute()
        others = [p.name for p in path.iterdir() if p.name not in ("src", "src.base")]
    eng.check(sorted(CUR.computed) == expected, "each index computed once", str(CUR.computed))
    eng.check(sorted(CUR.saved) == expected, "each index computed once")
    eng.check(CUR.computed == expected, "in order")
    eng.check(ex.num_expected_results == len(expected), "announced number")
    eng.check(len(CUR.processes) <= nb_processes, "at most the number of processes")
    eng.check(len(CUR.processes) == min(nb_processes, len(expected)), "all processes used")
    eng.check(
        sorted(topology.results) == sorted(f"res{i}" for i in expected), "results listed"
    )
    eng.check(others == [], "results in the directory of the results", str(others))


TopologyPIV = fluidimage.topologies.piv.TopologyPIV
TopologyPreproc = fluidimage.topologies.preproc.TopologyPreproc
TopologyImage2Image = fluidimage.topologies.image2image.TopologyImage2Image
TopologyBOS = fluidimage.topologies.bos.TopologyBOS
TopologyMean = fluidimage.topologies.mean.TopologyMeanImage

PARTITION = ["nothing added or lost", "each index in one process", "in order",
             "sizes differ by at most one"]

HARNESSES = [
    Harness(
        ranges,
        quick=[dict(num_parts=p, step=s) for p in (1, 2, 3, 4, 5) for s in (1, 2, 3)]
        + [dict(num_parts=3, step=-1), dict(num_parts=2, step=-2)],
        thorough=[dict(num_parts=p, step=s) for p in (2, 3, 7, 8, 12) for s in (1, 4, 5, -1, -2)],
        labels=PARTITION,
        bounds="all start and stop (unbounded integers); 1 to 5 (12) processes; steps 1 to 3, -1 "
        "and -2 (1 to 5)",
        shims=SHIMS,
    ),
    Harness(
        lists,
        quick=[dict(num_parts=p, nmax=1000) for p in (1, 2, 3, 4, 5)],
        thorough=[dict(num_parts=p, nmax=10**6) for p in (2, 6, 8, 12)],
        labels=["nothing added or lost", "each index in one process",
                "sizes differ by at most one"],
        bounds="all lengths up to 1000 (10^6), 1 to 5 (12) processes",
        shims=SHIMS,
    ),
    Harness(
        series_params,
        quick=[dict(cls=c, num_parts=p, step=s) for c in (TopologyPIV, TopologyPreproc)
               for p, s in ((1, 1), (2, 3), (3, 2), (4, 1))],
        thorough=[dict(cls=c, num_parts=p, step=s) for c in (TopologyPIV,)
                  for p, s in ((6, 4), (8, 1))],
        labels=PARTITION + ["announced number", "nothing else changed", "no empty process"],
        bounds="all start and stop, 1 to 4 (8) processes, steps 1 to 3 (4)",
        shims=SHIMS,
    ),
    Harness(
        images_params,
        quick=[dict(cls=TopologyImage2Image, num_parts=p, step=s, second=z)
               for p, s, z in ((1, 1, None), (2, 3, (0, 2, 1)), (3, 2, None), (4, 1, (1, 5, 2)))]
        + [dict(cls=TopologyBOS, num_parts=3, step=1)]
        + [dict(cls=TopologyMean, num_parts=3, step=2)],
        thorough=[dict(cls=TopologyImage2Image, num_parts=7, step=3, second=(1, 2, 1))],
        labels=PARTITION + ["nothing else changed", "no empty process"],
        bounds="all start and stop >= 0, 1 to 4 (7) processes, steps 1 to 3, one or two indices",
        shims=SHIMS,
    ),
    Harness(
        whole,
        quick=[dict(kind=k, executor=e, how=h, nmax=4 if h == "recompute" else 3)
               for k in ("series", "images")
               for e in ("multi_exec_async", "multi_exec_subproc")
               for h in ("recompute", "complete")]
        + [dict(kind="series", executor=e, how="recompute", nmax=3, nproc=2, steps=(2, 3))
           for e in ("multi_exec_async", "multi_exec_subproc")]
        + [dict(kind=k, executor="multi_exec_subproc", how="new_dir", nmax=2, nproc=2)
           for k in ("series", "images")]
        + [dict(kind=k, executor="multi_exec_subproc", how="complete", nmax=3, nproc=2,
                starts=(9, 98), second=j)
           for k, j in (("series", None), ("images", None), ("images", 12))],
        thorough=[dict(kind=k, executor=e, how="complete", nmax=5)
                  for k in ("series", "images")
                  for e in ("multi_exec_async", "multi_exec_subproc")],
        labels=["each index computed once", "in order", "announced number",
                "at most the number of processes", "results listed",
                "results in the directory of the results"],
        bounds="1 to 3 processes, up to 4 items (5), indices of one to three digits, one or two "
        "indices for images, any subset of existing results in the mode complete, all numbers of processes and items symbolic",
        validate=False,
    ),
]
