"""Couples of images are formed once, with the right images, in the right order."""

import fluidimage.data_objects.piv
import fluidimage.topologies.optical_flow
import fluidimage.topologies.piv
import fluidimage.topologies.surface_tracking

from checks import sched
from checks.subsets import Image, ReadError, arrivals, global_work, images, make_topology
from symx.runner import Harness

ASSUMPTIONS = [
    "images are tokens: only their names and identities are looked at",
    "images that have arrived before a call of the work are all in its queue, in the order of "
    "their arrival",
]

SCHEMES = {
    "unpadded": (lambda n: [f"im{i}.png" for i in range(n)], "i:i+2",
                 lambda n: [(i, i + 1) for i in range(n - 1)]),
    # name: (files, subset, expected couples)
    "successive": (lambda n: [f"im_{i:02d}.png" for i in range(n)], "i:i+2",
                   lambda n: [(i, i + 1) for i in range(n - 1)]),
    "distance": (lambda n: [f"im{i}.png" for i in range(n)], "i:i+3:2",
                 lambda n: [(i, i + 2) for i in range(n - 2)]),
    "pairs": (lambda n: [f"im_{i // 2}{'ab'[i % 2]}.png" for i in range(n)], "i,0:2",
              lambda n: [(2 * i, 2 * i + 1) for i in range(n // 2)]),
    "letters": (lambda n: [f"im_{i // 2}{'ab'[i % 2]}.png" for i in range(n)], "i:i+2,1",
                lambda n: [(2 * i + 1, 2 * i + 3) for i in range(n // 2 - 1)]),
}


def couples(eng, cls, scheme, nb, failures=False, slots=None, reverse=False, start=0):
    """all orders of arrival of the images"""
    files, subset, pairs = SCHEMES[scheme]
    names = files(nb)
    expected = [tuple(names[i] for i in pair) for pair in pairs(nb)[start:]]
    used = [n for n in names if any(n in pair for pair in expected)]
    nb_slots = slots or len(used)
    times = arrivals(eng, used, nb_slots)
    with images(names) as path, sched.quiet():
        values = dict(ind_start=start) if start else {}
        topo = make_topology(cls, path, str_subset=subset, **values)
        work = global_work(topo)
        queue_names, queue_arrays = work.input_queue
        output = work.output_queue
        # the queues are filled by the first work
        fill = topo.works[0]
        fill.func_or_cls(fill.input_queue, fill.output_queue)
        eng.check(
            [tuple(v) for v in queue_names.values()] == expected, "couples of names"
        )
        queue_paths = fill.output_queue[1]
        eng.check(sorted(queue_paths) == sorted(used), "images to be read once")
        eng.check(
            all(str(queue_paths[n]) == str(path / "src" / n) for n in queue_paths),
            "images to be read once",
        )
        keys = list(queue_names)
        couple_of = {key: tuple(queue_names[key]) for key in keys}
        if reverse:
            for key in keys:
                queue_names.move_to_end(key, last=False)
        arrived = {}
        failed = set()
        formed = []
        for slot in range(nb_slots):
            for i, name in enumerate(used):
                if name not in arrived and bool(times[name] == slot):
                    image = Image(name)
                    if failures and bool(eng.bool(f"fail_{i}")):
                        image = ReadError(name)
                        failed.add(name)
                    arrived[name] = image
                    queue_arrays[name] = image
            if queue_arrays and queue_names:
                work.func_or_cls(work.input_queue, output)
            for key in keys:
                there = all(n in arrived for n in couple_of[key])
                eng.check((key in output) == there, "formed as soon as possible, only then")
                eng.check((key in queue_names) == (not there), "formed once")
                if key in output and key not in [k for k, _ in formed]:
                    formed.append((key, output[key]))
            for name in arrived:
                needed = any(name in couple_of[key] for key in queue_names)
                eng.check((name in queue_arrays) == needed, "images kept as long as needed")
                if name in queue_arrays:
                    eng.check(queue_arrays[name] is arrived[name], "images kept as long as needed")
        eng.check(len(output) == len(keys), "formed once")
        for key, first in formed:
            result = output[key]
            eng.check(result is first, "formed once")
            bad = [arrived[n] for n in couple_of[key] if n in failed]
            if bad:
                eng.check(any(result is e for e in bad), "error of an image")
                continue
            eng.check(tuple(result.names) == couple_of[key], "right names in the right order")
            arrays = result.get_arrays()
            eng.check(
                all(a is arrived[n] for a, n in zip(arrays, couple_of[key])),
                "right images in the right order",
            )
            eng.check(
                tuple(result.serie.get_name_arrays()) == couple_of[key],
                "right names in the right order",
            )
            eng.check(
                [str(p) for p in result.paths] == [str(path / "src" / n) for n in couple_of[key]],
                "right names in the right order",
            )


def surface_tracking(eng, nb, step=1, slots=None):
    """each phase is corrected once, with the corrected phase of the previous image"""
    names = [f"im_{i:02d}.png" for i in range(nb * step)]
    used = names[::step]
    nb_slots = slots or len(used)
    times = arrivals(eng, used, nb_slots)
    with images(names) as path, sched.quiet():
        cls = fluidimage.topologies.surface_tracking.TopologySurfaceTracking
        topo = make_surface(cls, path, step)
        work = next(w for w in topo.works if w.name == "create_couple")
        queue_mod0, queue_angles, queue_names = work.input_queue
        queue_mod, queue_couples = work.output_queue
        fill = topo.works[0]
        fill.func_or_cls(fill.input_queue, fill.output_queue)
        eng.check(list(fill.output_queue[0]) == used, "images to be read once")
        arrived = {}
        corrected = {}
        order = []

        def advance():
            # the work on couples and the correction, until nothing changes
            for _ in range(2 * len(used) + 3):
                before = len(order), len(queue_mod)
                if any(work.input_queue):
                    work.func_or_cls(work.input_queue, work.output_queue)
                while queue_couples:
                    key, couple = queue_couples.pop_first_item()
                    i = used.index(key)
                    eng.check(key not in corrected, "corrected once")
                    previous = arrived[key] if i == 0 else corrected[used[i - 1]]
                    eng.check(
                        len(couple) == 2 and couple[0] is previous and couple[1] is arrived[key],
                        "right images in the right order",
                    )
                    corrected[key] = Image("corrected " + key)
                    queue_mod0[key] = corrected[key]
                    order.append(key)
                if (len(order), len(queue_mod)) == before:
                    break

        for slot in range(nb_slots):
            for name in used:
                if name not in arrived and bool(times[name] == slot):
                    arrived[name] = queue_angles[name] = Image(name)
            advance()
            nb_first = 0
            while nb_first < len(used) and used[nb_first] in arrived:
                nb_first += 1
            eng.check(order == used[:nb_first], "formed as soon as possible, only then")
            for name in used[nb_first:]:
                eng.check(
                    (name in queue_angles) == (name in arrived), "images kept as long as needed"
                )
        advance()
        eng.check(order == used, "corrected once")
        eng.check(
            {k: queue_mod[k] for k in queue_mod} == corrected, "each corrected image given once"
        )
        eng.check(
            not queue_mod0 and not queue_angles and not queue_names, "nothing left behind"
        )


def make_surface(cls, path, step, how="recompute"):
    params = cls.create_default_params()
    params.images.path = str(path / "src")
    if step != 1:
        params.images.str_subset = f"::{step}"
    params.images.path_ref = str(path / "src")
    params.saving.how = how
    params.surface_tracking  # noqa
    real = fluidimage.topologies.surface_tracking.WorkSurfaceTracking
    # the reference images are not read
    fluidimage.topologies.surface_tracking.WorkSurfaceTracking = FakeWork
    FakeWork._complete_params_with_default = real._complete_params_with_default
    try:
        return cls(params, logging_level=None)
    finally:
        fluidimage.topologies.surface_tracking.WorkSurfaceTracking = real


class FakeWork:
    def __init__(self, params):
        pass

    def _nothing(self, *args):
        raise AssertionError("not called")

    process_frame_func = correctcouple = calculheight_func = set_borders_zero_func = _nothing


TopologyPIV = fluidimage.topologies.piv.TopologyPIV
TopologyOpticalFlow = fluidimage.topologies.optical_flow.Topology

LABELS = ["couples of names", "images to be read once", "formed as soon as possible, only then",
          "formed once", "images kept as long as needed", "right names in the right order",
          "right images in the right order"]

HARNESSES = [
    Harness(
        couples,
        quick=[
            dict(cls=TopologyPIV, scheme="successive", nb=4),
            dict(cls=TopologyPIV, scheme="successive", nb=4, slots=2, reverse=True),
            dict(cls=TopologyPIV, scheme="distance", nb=4),
            dict(cls=TopologyPIV, scheme="distance", nb=5, slots=2),
            dict(cls=TopologyPIV, scheme="pairs", nb=4),
            dict(cls=TopologyPIV, scheme="unpadded", nb=12, start=8, slots=2),
            dict(cls=TopologyPIV, scheme="letters", nb=6, slots=3),
            dict(cls=TopologyPIV, scheme="successive", nb=3, failures=True),
            dict(cls=TopologyPIV, scheme="successive", nb=4, failures=True, slots=2),
            dict(cls=TopologyOpticalFlow, scheme="successive", nb=3, failures=True),
        ],
        thorough=[
            dict(cls=TopologyPIV, scheme="successive", nb=5),
            dict(cls=TopologyPIV, scheme="distance", nb=5, failures=True, slots=3),
            dict(cls=TopologyPIV, scheme="pairs", nb=6, slots=4),
            dict(cls=TopologyPIV, scheme="successive", nb=4, failures=True, reverse=True),
        ],
        labels=LABELS + ["error of an image"],
        bounds="3 to 6 images, four ways to form couples, every arrival time of each image "
        "(hence several images at a time, any order), every subset of images that can not be read",
        validate=False,
    ),
    Harness(
        surface_tracking,
        quick=[dict(nb=4), dict(nb=3, step=2)],
        thorough=[dict(nb=5)],
        labels=["images to be read once", "formed as soon as possible, only then",
                "corrected once", "right images in the right order",
                "images kept as long as needed", "each corrected image given once",
                "nothing left behind"],
        bounds="3 or 4 (5) images, every arrival time of each image",
        validate=False,
    ),
]
