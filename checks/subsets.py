"""Real topologies on directories of (empty) image files, fed image by image."""

import contextlib
import shutil
import tempfile
from pathlib import Path


@contextlib.contextmanager
def images(names):
    path = Path(tempfile.mkdtemp(prefix="verif_im_"))
    try:
        src = path / "src"
        src.mkdir()
        for name in names:
            (src / name).touch()
        yield path
    finally:
        shutil.rmtree(path, ignore_errors=True)


def make_topology(cls, path, group="series", how="recompute", **values):
    params = cls.create_default_params()
    p = getattr(params, group)
    p.path = str(path / "src")
    for key, value in values.items():
        setattr(p, key, value)
    params.saving.how = how
    return cls(params, logging_level=None)


class Image:
    """An image that has been read"""

    shape = (4, 5)
    ndim = 2

    def __init__(self, name):
        self.name = name

    def __getitem__(self, index):
        return self

    def __eq__(self, other):
        return self is other

    __hash__ = object.__hash__


class ReadError(Exception):
    pass


def global_work(topology):
    """(work which makes the couples or subsets, queue of names, queue of arrays, results)"""
    for work in topology.works:
        if work.kind == "global" and isinstance(work.input_queue, tuple):
            return work
    raise AssertionError("no global work")


def arrivals(eng, names, nb_slots):
    """time of arrival of each image (symbolic)"""
    return {name: eng.int(f"time_{i}", 0, nb_slots - 1) for i, name in enumerate(names)}
