"""The complete mode computes exactly the missing results."""

import contextlib
import os
from pathlib import Path

import h5py
import numpy as np
from fluiddyn.io.image import imsave

import fluidimage.topologies.bos
import fluidimage.topologies.image2image
import fluidimage.topologies.optical_flow
import fluidimage.topologies.piv
import fluidimage.topologies.preproc
import fluidimage.topologies.surface_tracking
import fluidimage.works.bos
from fluidimage.data_objects.piv import HeavyPIVResults, MultipassPIVResults

from checks import sched
from checks.subsets import images
from symx.patch import patched
from symx.runner import Harness

ASSUMPTIONS = [
    "the main computations (PIV, optical flow, surface tracking) are stand-ins; reading, "
    "making of couples and subsets, saving and the sequential executor are real, with real files",
    "the decisions (which results are missing) are choices of the solver; each history "
    "is then a concrete run",
]

SCHEMES = {
    # names of n images
    "digits": lambda n: [f"im_{i:02d}.png" for i in range(9, 9 + n)],
    "no zero": lambda n: [f"im{i}.png" for i in range(n)],
    "pairs": lambda n: [f"im_{i // 2}{'ab'[i % 2]}.png" for i in range(n)],
    "capital": lambda n: [f"im_{i // 2}{'AB'[i % 2]}.png" for i in range(n)],
    "two": lambda n: [f"im_{i // 2}-{i % 2}.png" for i in range(n)],
    "three": lambda n: [f"im_1_{i // 2}_{i % 2}.png" for i in range(n)],
    "no extension": lambda n: [f"im{i}" for i in range(n)],
}


class FakeVelocimetry:
    """In place of WorkPIV"""

    calls = None

    def __init__(self, params):
        self.params = params

    def calcul(self, couple):
        self.calls.append(couple.names)
        couple.get_arrays()
        zeros = np.zeros(1)
        heavy = HeavyPIVResults(
            deltaxs=zeros, deltays=zeros, xs=zeros, ys=zeros, errors={}, correls_max=zeros,
            couple=couple, params=self.params,
        )
        result = MultipassPIVResults()
        result.append(heavy)
        return result


class FakeSurface:
    calls = None

    def __init__(self, params):
        pass

    def process_frame_func(self, image):
        return image

    def correctcouple(self, couple):
        self.calls.append(int(couple[1][0, 0]))
        return couple[1]

    def calculheight_func(self, phase):
        return phase

    def set_borders_zero_func(self, heights):
        return heights


def invert(tuple_path_image):
    _, image = tuple_path_image
    return 255 - image


class Case:
    """One kind of topology: how it is made, how its computations are seen"""

    group = "series"

    def __init__(self, cls):
        self.cls = cls

    def topology(self, path, how, calls, options, im2im):
        params = self.cls.create_default_params()
        p = getattr(params, self.group)
        p.path = str(path / "src")
        options = dict(options)
        if options.pop("relative", False):
            p.path = os.path.relpath(p.path)
        for key, value in options.items():
            obj = params
            *parents, attr = key.split("__")
            for parent in parents:
                obj = getattr(obj, parent)
            setattr(obj, attr, value)
        params.saving.how = how
        if im2im:
            self.set_im2im(params)
        self.prepare(params)
        with self.stand_ins(calls):
            return self.cls(params, logging_level=None)

    def set_im2im(self, params):
        params.preproc.im2im = "checks.c06.invert"

    def prepare(self, params):
        pass

    @contextlib.contextmanager
    def stand_ins(self, calls):
        yield


class Velocimetry(Case):
    @contextlib.contextmanager
    def stand_ins(self, calls):
        FakeVelocimetry.calls = calls
        old = self.cls.WorkVelocimetry
        self.cls.WorkVelocimetry = FakeVelocimetry
        try:
            yield
        finally:
            self.cls.WorkVelocimetry = old


class BOS(Case):
    group = "images"

    @contextlib.contextmanager
    def stand_ins(self, calls):
        FakeVelocimetry.calls = calls
        with patched((fluidimage.works.bos.WorkPIV, FakeVelocimetry)):
            yield


class Preproc(Case):
    def set_im2im(self, params):
        params.im2im.im2im = "checks.c06.invert"

    @contextlib.contextmanager
    def stand_ins(self, calls):
        cls = fluidimage.topologies.preproc.WorkPreproc
        real = cls.calcul

        def calcul(self, serie):
            calls.append(serie.names)
            return real(self, serie)

        cls.calcul = calcul
        try:
            yield
        finally:
            cls.calcul = real


class Im2Im(Case):
    group = "images"
    calls = None

    def prepare(self, params):
        def im2im(tuple_path_image):
            name, image = tuple_path_image
            self.calls.append((name,))
            return 255 - image

        params.im2im = im2im

    @contextlib.contextmanager
    def stand_ins(self, calls):
        self.calls = calls
        yield


class Surface(Case):
    group = "images"

    def prepare(self, params):
        params.images.path_ref = params.images.path

    @contextlib.contextmanager
    def stand_ins(self, calls):
        FakeSurface.calls = calls
        real = fluidimage.topologies.surface_tracking.WorkSurfaceTracking
        FakeSurface._complete_params_with_default = real._complete_params_with_default
        fluidimage.topologies.surface_tracking.WorkSurfaceTracking = FakeSurface
        try:
            yield
        finally:
            fluidimage.topologies.surface_tracking.WorkSurfaceTracking = real



CASES = {
    "piv": Velocimetry(fluidimage.topologies.piv.TopologyPIV),
    "optical flow": Velocimetry(fluidimage.topologies.optical_flow.Topology),
    "bos": BOS(fluidimage.topologies.bos.TopologyBOS),
    "preproc": Preproc(fluidimage.topologies.preproc.TopologyPreproc),
    "im2im": Im2Im(fluidimage.topologies.image2image.TopologyImage2Image),
    "surface": Surface(fluidimage.topologies.surface_tracking.TopologySurfaceTracking),
}


def result_files(path):
    return [
        p for p in path.iterdir()
        if p.is_file() and not p.name.startswith(("job_", "log_", "params_"))
    ]


class NotEnding(Exception):
    pass


def run(topo, calls, stop_if_error=True):
    """real run with the sequential executor; a run that never ends is interrupted"""
    bound = 2000

    class Works(list):
        count = 0

        def __iter__(self):
            self.count += 1
            if self.count > bound:
                raise NotEnding
            return super().__iter__()

    from fluidimage.executors.exec_sequential import ExecutorSequential

    executor = ExecutorSequential(topo, topo.path_dir_result, logging_level=None, stop_if_error=stop_if_error)
    executor.works = Works(executor.works)
    topo.executor = executor
    # names of the files saved for each item
    saved = []
    path = Path(topo.path_dir_result)
    work = topo.works[-1]
    save = work.func_or_cls

    def observed(obj):
        before = {p.name for p in result_files(path)}
        save(obj)
        saved.append({p.name for p in result_files(path)} - before)

    work.func_or_cls = observed
    topo.compute(executor)
    return saved


def history(eng, case, scheme, nb, nb_items, im2im=False, options=(), chain=False, first=None,
            files_by_item=1):
    """A first complete run, some results lost, a run in the mode complete"""
    options = dict(options)
    names = SCHEMES[scheme](nb)
    kind = CASES[case]
    losses = [eng.bool(f"lost_{i}") for i in range(nb_items)]
    with images(names) as path, sched.quiet():
        for i, name in enumerate(names):
            save_image(path / "src" / name, i)
        calls = []
        topo = kind.topology(path, "recompute", calls, options, im2im)
        saved = run(topo, calls)
        path_results = Path(topo.path_dir_result)
        items = list(calls)
        eng.check(len(items) == nb_items, "every item is computed in the first run")
        all_files = {p.name for p in result_files(path_results)}
        eng.check(
            len(saved) == len(items) and sum(len(s) for s in saved) == len(all_files)
            and set().union(*saved) == all_files,
            "one result file for each item", f"{saved} {all_files}",
        )
        missing = []
        for i, item_files in enumerate(saved):
            lost = bool(losses[i])
            if lost:
                missing.append(i)
            for name in item_files:
                if lost:
                    (path_results / name).unlink()
                else:
                    (path_results / name).write_bytes(b"kept")
        calls = []
        topo = kind.topology(path, "complete", calls, options, im2im)
        eng.check(
            Path(topo.path_dir_result) == path_results, "same directory in the mode complete"
        )
        run(topo, calls)
        if chain and missing:
            # each result depends on the previous ones
            expected = items
        else:
            expected = [items[i] for i in missing]
        eng.check(calls == expected, "only what is missing is computed, in order")
        eng.check(
            {p.name for p in result_files(path_results)} == all_files, "all results at the end"
        )
        for i, item_files in enumerate(saved):
            for name in item_files:
                kept = (path_results / name).read_bytes() == b"kept"
                eng.check(
                    kept == (i not in missing and not (chain and missing)),
                    "existing results are kept as they are",
                )


def save_image(path, i):
    image = np.full((6, 8), 10 * i + 1, dtype=np.uint8)
    image[i % 6, 1] = 200
    imsave(path, image, format="PNG")


def growing(eng, case, scheme, nb_first, nb, options=(), im2im=False):
    """Images that can not be read in the first run, others which arrive later"""
    options = dict(options)
    names = SCHEMES[scheme](nb)
    kind = CASES[case]
    bad = [eng.bool(f"bad_{i}") for i in range(nb_first)]
    with images(names[:nb_first]) as path, sched.quiet():
        for i, name in enumerate(names[:nb_first]):
            if bool(bad[i]):
                (path / "src" / name).write_bytes(b"")
            else:
                save_image(path / "src" / name, i)
        bad_names = {name for name, b in zip(names, bad) if bool(b)}
        save_image(path / "ref.png", 5)
        calls = []
        topo = kind.topology(path, "recompute", calls, options, im2im)
        run(topo, calls, stop_if_error=False)
        items = [item for item in calls if not any(n in item for n in bad_names)]
        # (the preprocessing fails later, in the computation or when saving)
        eng.check(
            case == "preproc" or items == calls,
            "nothing computed with an image that can not be read",
        )
        path_results = Path(topo.path_dir_result)
        done = {p.name for p in result_files(path_results)}
        eng.check(len(done) == len(items), "one result file for each item")
        # the reference: everything from scratch
        for i, name in enumerate(names):
            save_image(path / "src" / name, i)
        calls_all = []
        topo = kind.topology(
            path, "recompute", calls_all, options | {"saving__postfix": "all"}, im2im
        )
        run(topo, calls_all)
        all_files = {p.name for p in result_files(Path(topo.path_dir_result))}
        calls = []
        topo = kind.topology(path, "complete", calls, options, im2im)
        run(topo, calls)
        eng.check(
            calls == [item for item in calls_all if item not in items],
            "only what is missing is computed, in order",
        )
        eng.check(
            {p.name for p in result_files(path_results)} == all_files, "all results at the end"
        )


LABELS = [
    "every item is computed in the first run", "one result file for each item",
    "same directory in the mode complete", "only what is missing is computed, in order",
    "all results at the end", "existing results are kept as they are",
]

def inst(case, scheme, nb, nb_items, im2im=False, chain=False, **options):
    return dict(case=case, scheme=scheme, nb=nb, nb_items=nb_items, im2im=im2im, chain=chain,
                options=tuple(sorted(options.items())))


HARNESSES = [
    Harness(
        history,
        quick=[
            inst("piv", "digits", 4, 3),
            inst("piv", "no zero", 4, 3, im2im=True, series__str_subset="i:i+2"),
            inst("piv", "pairs", 6, 3),
            inst("piv", "capital", 6, 3),
            inst("piv", "two", 6, 3, series__str_subset="i,0:2"),
            inst("piv", "two", 6, 2, series__str_subset="i:i+2,1"),
            inst("piv", "three", 6, 3, series__str_subset="1,i,0:2"),
            inst("optical flow", "digits", 4, 3),
            inst("bos", "digits", 4, 3),
            inst("bos", "pairs", 4, 3, reference="im_1a.png"),
            inst("bos", "digits", 4, 3, im2im=True, reference=-1),
            inst("bos", "digits", 4, 3, relative=True, reference=2),
            inst("bos", "no extension", 3, 2, reference=1),
            inst("preproc", "digits", 3, 3),
            inst("preproc", "digits", 3, 3, saving__format="hdf5", im2im=True),
            inst("preproc", "digits", 3, 3, saving__format="tiff"),
            inst("preproc", "no zero", 5, 3, series__str_subset="i-1:i+2", series__ind_start=1),
            inst("preproc", "pairs", 6, 3, series__str_subset="i,0:2"),
            inst("im2im", "pairs", 4, 4),
            inst("im2im", "digits", 5, 3, images__str_subset="::2"),
            inst("surface", "digits", 4, 4, chain=True),
            inst("surface", "no zero", 5, 3, chain=True, im2im=True, images__str_subset="::2"),
        ],
        thorough=[
            inst("piv", "digits", 8, 7),
            inst("piv", "two", 12, 6, series__str_subset="i,0:2"),
            inst("bos", "pairs", 8, 7),
            inst("preproc", "digits", 7, 5, series__str_subset="i-1:i+2", series__ind_start=10),
            inst("preproc", "digits", 7, 7, saving__format="h5"),
            inst("im2im", "two", 8, 8),
            inst("surface", "digits", 6, 6, chain=True),
        ],
        labels=LABELS,
        bounds="2 to 5 items, every subset of missing results, naming schemes with digits, "
        "letters, two and three indices",
        validate=False,
        shims=dict(prefix=(), builtins_=False),
    ),
    Harness(
        growing,
        quick=[
            dict(case="piv", scheme="digits", nb_first=3, nb=5),
            dict(case="piv", scheme="pairs", nb_first=4, nb=6),
            dict(case="preproc", scheme="digits", nb_first=3, nb=4),
            dict(case="im2im", scheme="no zero", nb_first=3, nb=4),
            dict(case="bos", scheme="digits", nb_first=3, nb=4,
                 options=(("reference", "../ref.png"),)),
        ],
        thorough=[
            dict(case="piv", scheme="digits", nb_first=6, nb=8),
            dict(case="optical flow", scheme="pairs", nb_first=6, nb=8),
        ],
        labels=["nothing computed with an image that can not be read",
                "one result file for each item", "only what is missing is computed, in order",
                "all results at the end"],
        bounds="3 or 4 images, every subset of them that can not be read in the first run, "
        "1 or 2 images that arrive later",
        validate=False,
        shims=dict(prefix=(), builtins_=False),
    ),
]
