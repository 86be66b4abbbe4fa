"""Limits on the concurrent works and on the lengths of the queues.

Whole runs with a symbolic scheduler and symbolic limits; decisions of the polling loops
and of the choice of a server from any state.
"""

import fluidimage.executors.exec_async
import fluidimage.executors.exec_async_multiproc
import fluidimage.executors.exec_async_sequential
import fluidimage.executors.exec_async_servers
import fluidimage.topologies.base

from checks import sched
from checks.c01 import CPU_CPU, IO_CPU, Started, counters, step
from symx.core import land, lnot, lor
from symx.runner import Harness

ASSUMPTIONS = [
    "trio is replaced by a scheduler (checks/sched.py): any order of the tasks in a tick, "
    "any duration of the threads, tasks started in a tick run in the next one",
    "schedules with at most the stated number of deviations from the default one",
    "pipes, processes and servers are stand-ins",
]

THREE = (("read", "io"), ("write", "io"), ("compute", None), ("improve", None))


def whole_run(eng, executor, items, works=CPU_CPU, budget=1, max_limit=2, nb_queue=None):
    """number of works in progress and lengths of the output queues at each start"""
    limit = eng.int("nb_max_workers", 1, max_limit)
    limit_queue = 1000 if nb_queue is None else eng.int("nb_items_queue_max", 1, nb_queue)
    limit, limit_queue = int(limit), int(limit_queue)
    running = {"io": 0, "cpu": 0}
    observed = []

    with sched.run_directory() as path, sched.quiet():
        topo, log = sched.make_topology(path, items, works)
        category = {}
        for work in topo.works:
            category[id(work.func_or_cls)] = "io" if "io" in (work.kind or "") else "cpu"
        fake = sched.FakeTrio(eng, budget)

        def started(func, args):
            # functions given to threads: the works, or a function doing one CPU work
            c = category.get(id(func), "cpu")
            running[c] += 1
            observed.append((c, running[c]))

        def ended(func, args):
            running[category.get(id(func), "cpu")] -= 1

        fake.on_thread_start, fake.on_thread_end = started, ended
        starts = []

        def spawn_and_look(func, *args):
            for work in args:
                if isinstance(work, type(topo.works[0])):
                    nb = None if work.output_queue is None else len(work.output_queue)
                    starts.append((work.name, len(work.input_queue), nb))

        fake.on_start = spawn_and_look
        kw = dict(nb_max_workers=limit, nb_items_queue_max=limit_queue)
        finished = True
        with sched.patch_trio(fake), sched.patch_fluidimage(sched.executor_table(executor, [])):
            ex = sched.make_executor(executor, topo, path, **kw)
            try:
                ex.compute()
            except sched.NotFinished:
                finished = False
    eng.check(finished, "the run ends with any limit")
    for c, nb in observed:
        eng.check(nb <= limit, "number of works of a category", f"{c} {nb} {limit}")
    for name, nb_in, nb_out in starts:
        eng.check(nb_in > 0, "started when an item is waiting")
        eng.check(
            nb_out is None or nb_out < limit_queue, "started when there is room in the queue"
        )


def guard(eng, executor, kind):
    """a work is started if and only if it can be, from any state"""
    works = (("read", "io"), ("write", "io")) if kind == "io" else (("read", None), ("write", "io"))
    with sched.run_directory() as path, sched.quiet():
        topo, log = sched.make_topology(path, ["a"], works)
        fake = sched.FakeTrio(eng, 0)
        with sched.patch_trio(fake), sched.patch_fluidimage(sched.executor_table(executor, [])):
            ex = sched.make_executor(executor, topo, path, nb_max_workers=2)
            ex._init_compute()
            if len(counters(ex)) != 2:
                raise eng.cut("no counters of tasks")
            nursery = ex.nursery = Started()
            io, cpu = eng.int("nb_io", 0), eng.int("nb_cpu", 0)
            ex.nb_working_workers_io, ex.nb_working_workers_cpu = io, cpu
            limit, limit_queue = eng.int("nb_max_workers", 1), eng.int("nb_items_queue_max", 1)
            ex.nb_max_workers, ex.nb_items_queue_max = limit, limit_queue
            work = topo.works_dict["read"]
            work.input_queue.clear()
            nb_in, nb_out = eng.choice("nb_in", [0, 1, 2]), eng.choice("nb_out", [0, 1, 2, 3])
            for i in range(nb_in):
                work.input_queue[str(i)] = (str(i),)
            for i in range(nb_out):
                work.output_queue["out" + str(i)] = (str(i),)
            loop = ex.async_funcs["read"]()
            step(loop, fake)
            if executor == "exec_async_servers" and kind == "cpu":
                # first a server is chosen
                step(loop, fake)
                possible = land(nb_in > 0, nb_out < limit_queue)
            else:
                n = io if kind == "io" else cpu
                possible = land(nb_in > 0, nb_out < limit_queue, n < limit)
            loop.close()
            nb = len(nursery.started)
            eng.check(nb <= 1, "one task at a time")
            eng.check(lnot(land(nb == 1, lnot(possible))), "not started when it can not be")
            eng.check(lor(lnot(possible), nb == 1), "started when it can be")


def two_loops(eng, executor, kind):
    """two works of the same category woken at the same time: the limit holds"""
    works = (("read", kind), ("write", kind))
    with sched.run_directory() as path, sched.quiet():
        topo, log = sched.make_topology(path, ["a"], works)
        fake = sched.FakeTrio(eng, 0)
        with sched.patch_trio(fake), sched.patch_fluidimage(sched.executor_table(executor, [])):
            ex = sched.make_executor(executor, topo, path, nb_max_workers=2)
            ex._init_compute()
            if len(counters(ex)) != 2:
                raise eng.cut("no counters of tasks")
            nursery = ex.nursery = Started()
            n, limit = eng.int("nb", 0), eng.int("nb_max_workers", 1)
            eng.assume(n <= limit)
            ex.nb_working_workers_io = n if kind == "io" else 0
            ex.nb_working_workers_cpu = 0 if kind == "io" else n
            ex.nb_max_workers = limit
            ex.nb_items_queue_max = 10
            loops, coros = [], []
            for name in ("read", "write"):
                queue = topo.works_dict[name].input_queue
                queue.clear()
                queue["x"], queue["y"] = ("x",), ("y",)
                loops.append(ex.async_funcs[name]())
            for loop in loops:
                step(loop, fake)
            nb = 0
            for func, args in nursery.started:
                coros.append(func(*args))
                req = step(coros[-1], fake)
                if req is not None and req.kind == "thread":
                    nb += 1
            for coro in loops + coros:
                coro.close()
            eng.check(n + nb <= limit, "number of works of a category")
            eng.check(lor(n >= limit, nb >= 1), "started when it can be")


class FakeWorker:
    def __init__(self, available, load):
        self.is_available, self.nb_items_to_process = available, load
        self.is_unoccupied = load == 0


def choose_server(eng, nb):
    """the least loaded of the free servers"""
    import fluidimage.executors.exec_async_servers as servers

    with sched.run_directory() as path, sched.quiet():
        topo, log = sched.make_topology(path, ["a"], IO_CPU)
        fake = sched.FakeTrio(eng, 0)
        with sched.patch_trio(fake), sched.patch_fluidimage(
            sched.executor_table("exec_async_servers", [])
        ):
            ex = sched.make_executor("exec_async_servers", topo, path, nb_max_workers=1)
            most = servers.max_items_in_server
            ex.workers = []
            for i in range(nb):
                free = bool(eng.bool(f"free{i}"))
                ex.workers.append(FakeWorker(free, eng.int(f"load{i}", 0, most)))
            before = [(w.is_available, w.nb_items_to_process) for w in ex.workers]
            chosen = ex.get_available_worker()
    can = [land(a, n < most) for a, n in before]
    if not chosen:
        eng.check(lnot(lor(*can)), "a server is found when one can be used")
        return
    index = [w is chosen for w in ex.workers].index(True)
    eng.check(can[index], "free server with room")
    for other, (_, n) in zip(can, before):
        eng.check(lor(lnot(other), before[index][1] <= n), "least loaded server")
    eng.check(not chosen.is_available, "server reserved")
    for i, w in enumerate(ex.workers):
        if i != index:
            eng.check(w.is_available == before[i][0], "other servers unchanged")


def servers_run(eng, items, budget, nb_max_workers=1):
    """whole runs: at most max_items_in_server jobs in a server, one sent at a time"""
    import fluidimage.executors.exec_async_servers as servers

    problems = []
    with sched.run_directory() as path, sched.quiet():
        topo, log = sched.make_topology(path, items, IO_CPU)
        fake = sched.FakeTrio(eng, budget)
        with sched.patch_trio(fake), sched.patch_fluidimage(
            sched.executor_table("exec_async_servers", [])
        ):
            ex = sched.make_executor(
                "exec_async_servers", topo, path, nb_max_workers=nb_max_workers
            )
            most = servers.max_items_in_server

            def look():
                for worker in ex.workers:
                    nb = worker.nb_items_to_process
                    problems.append(nb)

            fake.at_switch = look
            ex.compute()
    eng.check(all(0 <= n <= most for n in problems), "jobs of a server")


HARNESSES = [
    Harness(
        whole_run,
        quick=[
            dict(executor="exec_async", items="ab"),
            dict(executor="exec_async", items="ab", works=THREE),
            dict(executor="exec_async", items="abc", works=IO_CPU, nb_queue=2),
            dict(executor="exec_async_multiproc", items="ab"),
            dict(executor="exec_async_sequential", items="abc", works=IO_CPU, nb_queue=2),
        ],
        thorough=[
            dict(executor="exec_async", items="ab", budget=2),
            dict(executor="exec_async", items="abc", works=IO_CPU, nb_queue=2, budget=2),
            dict(executor="exec_async_multiproc", items="ab", budget=2),
        ],
        labels=["the run ends with any limit", "number of works of a category",
                "started when an item is waiting", "started when there is room in the queue"],
        bounds="2 or 3 items, 3 to 5 works, limits of 1 or 2 workers and of 1, 2 items per "
        "queue; 1 deviation (thorough: 2) from the default schedule",
    ),
    Harness(
        guard,
        quick=[
            dict(executor=e, kind=k)
            for e in ("exec_async", "exec_async_sequential", "exec_async_multiproc",
                      "exec_async_servers")
            for k in ("io", "cpu")
        ],
        labels=["not started when it can not be", "started when it can be"],
        bounds="any numbers of tasks in progress, any limits, up to 2 items in the input "
        "queue, 3 in the output queue",
    ),
    Harness(
        two_loops,
        quick=[
            dict(executor="exec_async", kind="io"), dict(executor="exec_async", kind=None),
            dict(executor="exec_async_multiproc", kind=None),
            dict(executor="exec_async_servers", kind="io"),
        ],
        labels=["number of works of a category", "started when it can be"],
        bounds="two works, any number of tasks in progress, any limit",
    ),
    Harness(
        choose_server,
        quick=[dict(nb=1), dict(nb=2), dict(nb=3)],
        labels=["a server is found when one can be used", "free server with room",
                "least loaded server", "server reserved"],
        bounds="1 to 3 servers, any loads",
    ),
    Harness(
        servers_run,
        quick=[dict(items="abcdef", budget=1)],
        thorough=[dict(items="abcdefg", budget=2), dict(items="abcd", budget=2, nb_max_workers=2)],
        labels=["jobs of a server"],
        bounds="6 items, 1 server, 1 deviation (thorough: 2) from the default schedule",
    ),
]
