"""Summary of the log files of a run.

The log is written by the real executors (symbolic schedule, failures and names of the
items) and read by the real `LogTopology`, also when the run was interrupted at any
character.
"""

import math
import time

import fluidimage.executors.exec_async
import fluidimage.executors.exec_async_multiproc
import fluidimage.executors.exec_async_seq_for_multi
import fluidimage.executors.exec_async_sequential
import fluidimage.executors.exec_async_servers
import fluidimage.executors.exec_sequential
import fluidimage.topologies.base
import fluidimage.topologies.log
import fluidimage.util.util as util
from fluidimage.topologies import LogTopology
from fluidimage.topologies.log import DataLogFile

from checks import sched
from symx.runner import Harness

ASSUMPTIONS = [
    "same model of the schedules as C01; time advances only during the works",
    "the log is cut between two characters, after its header",
    "a work is given twice the same key only if its executions do not overlap (global works)",
]

KEYS = [("a", "b"), ("im 1", "im 2"), ("a", "a b"), ("a (1)", "a"), ("a) done in (b", "b"), ("a", "a. mem")]
WORKS = [
    (("comp", None), ("comp piv", "io")),
    (("work", "io"), ("work 2", None)),
    (("move", "global"), ("comp", None)),
    (("comp", None), ("move", "global")),
]


class Clock:
    """time of the works"""

    def __init__(self):
        self.now = 1.6e9

    def __call__(self):
        return self.now


def run(eng, executor, items, works, fails, durations, budget):
    """-> path of the results, observed calls {(name, key): [(start, end)]}"""
    clock = Clock()
    calls = {}

    def called(name, key):
        start = clock.now
        clock.now += durations(name, key, len(calls.get((name, key), [])))
        calls.setdefault((name, key), []).append((start, clock.now))

    path = run.path
    topo, log = sched.make_topology(path, items, works, collect=False, save_kind=None)
    for work in topo.works:
        if work.kind is not None and "one shot" in work.kind:
            continue
        wrap(work, called, fails)
    fake = sched.FakeTrio(eng, budget)
    table = sched.executor_table(executor, [])
    table[id(time.time)] = clock
    table[id(util.get_memory_usage)] = lambda: 123.456
    finished = True
    t_start = clock.now
    with sched.patch_trio(fake), sched.patch_fluidimage(table), clock_of_module(clock):
        ex = sched.make_executor(executor, topo, path, nb_max_workers=2)
        try:
            ex.compute()
        except sched.NotFinished:
            finished = False
    return finished, calls, t_start


def wrap(work, called, fails):
    func = work.func_or_cls
    name = work.name_no_space
    if work.kind == "global":
        def new(input_queue, output_queue):
            called(name, "kind='global'")
            return func(input_queue, output_queue)
    else:
        def new(value):
            called(name, value[0])
            if fails(name, value[0]):
                raise sched.Failure(f"failure of {name}")
            return func(value)
    work.func_or_cls = new


class TimeModule:
    """the module time, with another clock"""

    def __init__(self, clock):
        self.clock = clock

    def __getattr__(self, name):
        return self.clock if name == "time" else getattr(time, name)


def clock_of_module(clock):
    return sched.patch_fluidimage({id(time): TimeModule(clock)})


def summary(eng, executor, budget=0, nb_keys=len(KEYS), failing=True):
    """all works, durations of the right ones"""
    items = eng.choice("keys", KEYS[:nb_keys])
    works = eng.choice("works", WORKS)
    increasing = eng.choice("increasing", [True, False])
    decided = {}
    number = [0]

    def durations(name, key, index):
        number[0] += 1
        n = number[0]
        return 1.5 + n if increasing else 20.25 - n

    def fails(name, key):
        if not failing:
            return False
        if (name, key) not in decided:
            decided[name, key] = bool(eng.bool(f"fail_{name}_{key}"))
        return decided[name, key]

    with sched.run_directory() as path, sched.quiet():
        run.path = path
        finished, calls, t_start = run(eng, executor, items, works, fails, durations, budget)
        if finished:
            log = LogTopology(path)
    eng.check(finished, "finished")
    if not finished:
        return
    if executor == "exec_sequential" and "move" not in log.names_works:
        # (global works are not in the log of this executor)
        calls = {(name, key): c for (name, key), c in calls.items() if name != "move"}
    names = {name for name, key in calls}
    eng.check(set(log.names_works) == names, "works", "names of the works")
    eng.check(len(log.names_works) == len(names), "works", "each name once")
    nb_done = 0
    for name in names:
        expected = [(k, c) for (n, k), cs in calls.items() if n == name for c in cs]
        expected.sort(key=lambda item: item[1])
        nb_done += sum(not decided.get((name, k), False) for k, _ in expected)
        keys, times, values = log.keys[name], log.times[name], log.durations[name]
        eng.check(
            len(keys) == len(times) == len(values) == len(expected), "works",
            f"number of executions of {name}",
        )
        eng.check(sorted(keys) == sorted(k for k, _ in expected), "keys", f"{name} {keys}")
        left = list(expected)
        for key, t, value in zip(keys, times, values):
            item = next((e for e in left if e[0] == key), None)
            if item is None:
                eng.check(False, "keys", f"{name} {key}")
                continue
            left.remove(item)
            start, end = item[1]
            failed = decided.get((name, key), False)
            msg = f"{name} ({key})"
            eng.check(t <= start - t_start + 0.01, "start", msg)
            if failed:
                eng.check(math.isnan(value), "failed works have no duration", msg)
            else:
                eng.check(value >= end - start - 0.01, "duration", msg)
                if executor == "exec_sequential":
                    eng.check(abs(value - (end - start)) < 0.01, "duration", msg)
                    eng.check(abs(t - (start - t_start)) < 0.011, "start", msg)
    eng.check(len(log.works_ended) == nb_done, "ended", "number of ended works")
    eng.check(log.nb_max_workers == (1 if executor == "exec_sequential" else 2), "run", "limit")
    eng.check(log.topology_name.endswith("TopologyBase"), "run", "topology")
    eng.check(log.executor_name is not None and executor in log.executor_name, "run", "executor")


def interrupted(eng, executor, nb_items=2):
    """log of a run stopped at any time"""
    items = ("im 1", "im 2", "im 3")[:nb_items]
    works = eng.choice("works", WORKS[:3])
    with sched.run_directory() as path, sched.quiet():
        # the same log for all the cuts
        texts = eng.memo.setdefault("logs", {}) if eng.symbolic else {}
        if works not in texts:
            run.path = path
            numbers = iter(range(1, 100))
            run(
                eng, executor, items, works, lambda name, key: False,
                lambda name, key, index: 1.0 + next(numbers), 0,
            )
            full = LogTopology(path)
            texts[works] = full, full.path_log_file.name, full.path_log_file.read_text()
        full, name, text = texts[works]
        lines = text.splitlines(keepends=True)
        i = eng.choice("line", range(1, len(lines)))
        column = eng.choice("column", range(len(lines[i])))
        (path / name).write_text("".join(lines[:i]) + lines[i][:column])
        log = LogTopology(path / name)
    nb = len(log.works)
    eng.check(log.works == full.works[:nb], "started works")
    nb = len(log.works_ended)
    eng.check(log.works_ended == full.works_ended[:nb], "ended works")
    for name in log.names_works:
        for i, (key, value) in enumerate(zip(log.keys[name], log.durations[name])):
            ok = math.isnan(value) or value == full.durations[name][i]
            eng.check(key == full.keys[name][i] and ok, "durations", f"{name} {key}")
    nb_done = sum(not math.isnan(d) for ds in log.durations.values() for d in ds)
    eng.check(nb_done == len(log.works_ended), "durations", "all ended works")


def server(eng, nb_jobs=2, budget=0):
    """log of a server"""
    items = [f"{key} {i}" for i, key in enumerate(eng.choice("keys", KEYS) * 2)][:nb_jobs]
    works = (("comp", None), ("comp piv", None))
    decided = {}

    def fails(name, key):
        if (name, key) not in decided:
            decided[name, key] = bool(eng.bool(f"fail_{name}_{key}"))
        return decided[name, key]

    jobs = [(works[i % 2][0], key, (key,)) for i, key in enumerate(items)]
    with sched.run_directory() as path, sched.quiet():
        finished, answers, observed, messages = sched.serve(eng, path, works, jobs, fails, budget)
        log = DataLogFile(path / "process_000.txt")
    eng.check(finished, "finished")
    names = [(name.replace(" ", "_"), key) for name, key, _ in jobs]
    eng.check(sorted((w["name"], w["key"]) for w in log.works) == sorted(names), "works")
    done = [n for n, (name, key, _) in zip(names, jobs) if not decided[name, key]]
    eng.check(sorted((w["name"], w["key"]) for w in log.works_ended) == sorted(done), "ended")


K = dict(shims=dict(prefix=(), builtins_=False), validate=False)
HARNESSES = [
    Harness(summary, quick=[dict(executor="exec_sequential"), dict(executor="exec_async_sequential"),
            dict(executor="exec_async"),
            dict(executor="exec_async", budget=1, nb_keys=2, failing=False)],
            thorough=[dict(executor="exec_async", budget=2, nb_keys=2, failing=False),
                      dict(executor="exec_async_sequential", budget=1),
                      dict(executor="exec_async_multiproc", budget=1, failing=False)],
            labels=["finished", "works", "keys", "start", "duration", "ended", "run",
                    "failed works have no duration"],
            bounds="2 items with 6 pairs of names, 2 works and the save, every subset of failing "
            "calls or 1 deviation from the default schedule", **K),
    Harness(server, quick=[{}, dict(budget=1)], thorough=[dict(nb_jobs=3, budget=1)],
            labels=["finished", "works", "ended"],
            bounds="2 or 3 jobs of two works, any subset of failing ones, up to 1 deviation", **K),
    Harness(interrupted, quick=[dict(executor="exec_sequential"), dict(executor="exec_async_sequential")],
            thorough=[dict(executor="exec_async", nb_items=3)],
            labels=["started works", "ended works", "durations"],
            bounds="2 items, log cut at any character after its first line", **K),
]
