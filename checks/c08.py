"""Preprocessing subsets hold the images of their series, in order."""

import numpy as np

import fluidimage.data_objects.preproc
import fluidimage.topologies.preproc
import fluidimage.works.preproc

from checks import sched
from checks.subsets import arrivals, global_work, images, make_topology
from symx.runner import Harness

ASSUMPTIONS = [
    "images are constant arrays, one value per image; no tool is enabled (see C34)",
    "images that have arrived before a call of the work are all in its queue, in the order of "
    "their arrival",
]

TopologyPreproc = fluidimage.topologies.preproc.TopologyPreproc


def pair_names(n):
    return [f"im_{i // 2}{'ab'[i % 2]}.png" for i in range(n)]


def simple_names(n):
    return [f"im_{i:02d}.png" for i in range(n)]


def unpadded_names(n):
    # from 9 to 10: not in the alphabetical order
    return [f"im{i}.png" for i in range(n)]


SCHEMES = {
    "unpadded": (unpadded_names, "i:i+3", lambda n: [(i, i + 1, i + 2) for i in range(n - 2)]),
    # files, subset, images of the subsets
    "all1by1": (simple_names, "all1by1", lambda n: [(i,) for i in range(n)]),
    "all1by1 pairs": (pair_names, "all1by1", lambda n: [(i,) for i in range(n)]),
    "three": (simple_names, "i:i+3", lambda n: [(i, i + 1, i + 2) for i in range(n - 2)]),
    "around": (simple_names, "i-1:i+2", lambda n: [(i, i + 1, i + 2) for i in range(n - 2)]),
    "two": (simple_names, "i:i+2", lambda n: [(i, i + 1) for i in range(n - 1)]),
    "with step": (
        simple_names, "i:i+3:2", lambda n: [(i, i + 2) for i in range(n - 2)]),
    "pairs": (pair_names, "i,:", lambda n: [(2 * i, 2 * i + 1) for i in range(n // 2)]),
    "two pairs": (
        pair_names, "i:i+2,:", lambda n: [tuple(range(2 * i, 2 * i + 4)) for i in range(n // 2 - 1)]),
    "three pairs": (
        pair_names, "i:i+3,:", lambda n: [tuple(range(2 * i, 2 * i + 6)) for i in range(n // 2 - 2)]),
}


def subsets(eng, scheme, nb, slots=None, start=None, reverse=False):
    """all orders of arrival of the images"""
    files, subset, members = SCHEMES[scheme]
    names = files(nb)
    expected = [tuple(names[i] for i in m) for m in members(nb)]
    values = {} if start is None else dict(ind_start=start)
    if start is not None:
        first = {"around": 1}.get(scheme, 0)
        expected = expected[start - first:]
    used = [n for n in names if any(n in m for m in expected)]
    nb_slots = slots or len(used)
    times = arrivals(eng, used, nb_slots)
    with images(names) as path, sched.quiet():
        topo = make_topology(TopologyPreproc, path, str_subset=subset, **values)
        work = global_work(topo)
        queue_names, queue_arrays = work.input_queue
        output = work.output_queue
        fill = topo.works[0]
        fill.func_or_cls(fill.input_queue, fill.output_queue)
        eng.check([tuple(v) for v in queue_names.values()] == expected, "subsets of names")
        queue_paths = fill.output_queue[1]
        eng.check(sorted(queue_paths) == sorted(used), "images to be read once")
        keys = list(queue_names)
        subset_of = {key: tuple(queue_names[key]) for key in keys}
        if reverse:
            for key in keys:
                queue_names.move_to_end(key, last=False)
        arrived = {}
        for slot in range(nb_slots):
            for i, name in enumerate(used):
                if name not in arrived and bool(times[name] == slot):
                    arrived[name] = np.full((2, 3), names.index(name), dtype=np.uint8)
                    queue_arrays[name] = arrived[name]
            before = dict(output)
            if queue_arrays and queue_names:
                work.func_or_cls(work.input_queue, output)
            for key in keys:
                there = all(n in arrived for n in subset_of[key])
                eng.check((key in output) == there, "formed as soon as possible, only then")
                eng.check((key in queue_names) == (not there), "formed once")
                if key in before:
                    eng.check(output[key] is before[key], "formed once")
            for name in arrived:
                if any(name in subset_of[key] for key in queue_names):
                    eng.check(
                        queue_arrays.get(name) is arrived[name], "images kept as long as needed"
                    )
        eng.check(not queue_arrays, "images released")
        done = {}
        for key in keys:
            result = output[key]
            eng.check(tuple(result.names) == subset_of[key], "right names in the right order")
            arrays = result.get_arrays()
            eng.check(
                len(arrays) == len(subset_of[key])
                and all(a is arrived[n] for a, n in zip(arrays, subset_of[key])),
                "right images in the right order",
            )
            eng.check(
                tuple(result.serie.get_name_arrays()) == subset_of[key],
                "right names in the right order",
            )
            obj = topo.preproc_work.calcul(result)
            for name, image in obj.data.items():
                eng.check(name in subset_of[key], "results named after their images")
                eng.check(
                    bool((np.asarray(image) == names.index(name)).all()),
                    "results named after their images",
                )
                eng.check(name not in done, "no image saved by two subsets", name)
                done[name] = key
            eng.check(len(obj.data) > 0, "a result for each subset")
        contiguous = "step" not in scheme
        if contiguous:
            eng.check(sorted(done) == sorted(used), "every image has its result")


LABELS = [
    "subsets of names", "images to be read once", "formed as soon as possible, only then",
    "formed once", "images kept as long as needed", "images released",
    "right names in the right order", "right images in the right order",
    "results named after their images", "no image saved by two subsets",
    "a result for each subset", "every image has its result",
]

HARNESSES = [
    Harness(
        subsets,
        quick=[
            dict(scheme="all1by1", nb=3),
            dict(scheme="all1by1 pairs", nb=4, slots=2),
            dict(scheme="three", nb=4),
            dict(scheme="three", nb=5, slots=2, reverse=True),
            dict(scheme="three", nb=6, slots=2, start=2),
            dict(scheme="around", nb=5, slots=2),
            dict(scheme="unpadded", nb=12, start=8),
            dict(scheme="two", nb=4),
            dict(scheme="two", nb=5, slots=2, start=1),
            dict(scheme="with step", nb=5, slots=2),
            dict(scheme="pairs", nb=4),
            dict(scheme="two pairs", nb=8, slots=2),
            dict(scheme="three pairs", nb=8, slots=2),
        ],
        thorough=[
            dict(scheme="three", nb=5),
            dict(scheme="around", nb=6, slots=3),
            dict(scheme="pairs", nb=6, slots=3),
        ],
        labels=LABELS,
        bounds="3 to 8 images, nine ways to form subsets, every arrival time of each image",
        validate=False,
    ),
]
