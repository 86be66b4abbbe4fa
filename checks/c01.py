"""Asynchronous executors: the run ends when, and only when, everything is done.

Whole runs of the real executors (`compute`) with a symbolic scheduler (checks/sched.py),
and steps of the life of one task from any number of other tasks in progress.
"""

import fluidimage.executors.exec_async
import fluidimage.executors.exec_async_multiproc
import fluidimage.executors.exec_async_seq_for_multi
import fluidimage.executors.exec_async_sequential
import fluidimage.executors.exec_async_servers
import fluidimage.topologies.base

from checks import sched
from symx.core import land, lnot, lor
from symx.runner import Harness

ASSUMPTIONS = [
    "trio is replaced by a scheduler (checks/sched.py): any order of the tasks in a tick, "
    "any duration of the threads, tasks started in a tick run in the next one",
    "schedules with at most the stated number of deviations from the default one",
    "a function run in a thread is one step; pipes, processes and servers are stand-ins "
    "that answer when the job is sent",
]

IO_CPU = (("read", "io"), ("compute", None))
CPU_CPU = (("read", None), ("compute", None))
GLOBAL = (("read", "io"), ("move", "global"), ("compute", None))


def whole_run(eng, executor, items, works=IO_CPU, budget=2, nb_max_workers=2, fail=None, save_kind="io"):
    """any schedule: everything is done once and the run ends"""
    decided = {}

    def fails(name, key):
        # one stage can fail
        if name != fail:
            return False
        if key not in decided:
            decided[key] = bool(eng.bool(f"fail_{name}_{key}"))
        return decided[key]

    with sched.run_directory() as path, sched.quiet():
        topo, log = sched.make_topology(
            path, items, works, fails=fails, save_kind=save_kind
        )
        fake = sched.FakeTrio(eng, budget)
        finished = True
        with sched.patch_trio(fake), sched.patch_fluidimage(sched.executor_table(executor, [])):
            ex = sched.make_executor(executor, topo, path, nb_max_workers=nb_max_workers)
            try:
                ex.compute()
            except sched.NotFinished:
                finished = False
    eng.check(finished, "the run ends")
    if not finished:
        return
    stages = list(works) + [("save", save_kind)]
    names = [name for name, _ in stages]
    for name, kind in stages:
        for key in items:
            failed = bool(decided.get(key))
            nb = log.calls.count((name, key))
            if failed and kind != "global" and names.index(name) > names.index(fail):
                eng.check(nb == 0, "each item processed once", f"{name} {key}: {nb}")
            else:
                eng.check(nb == 1, "each item processed once", f"{name} {key}: {nb}")
    names = tuple(w[0] for w in works)
    expected = sorted((key, *names) for key in items if not decided.get(key))
    eng.check(sorted(log.saved) == expected, "all the results")
    eng.check(all(not q for q in topo.queues), "no item left in the queues")


def step(coro, fake, value=None):
    """one segment of a coroutine: what it waits for, or None at the end"""
    try:
        return coro.send(value)
    except StopIteration:
        return None


class Started:
    """nursery that records the started tasks"""

    def __init__(self):
        self.started = []
        self.cancel_scope = sched.CancelScope()

    def start_soon(self, func, *args, name=None):
        self.started.append((func, args))


def counters(ex):
    return [c for c in ("nb_working_workers_cpu", "nb_working_workers_io") if hasattr(ex, c)]


def detector_stops(ex, fake):
    """does the end-of-run detector stop the run in the present state?"""
    before = ex._has_to_stop
    coro = ex.update_has_to_stop()
    step(coro, fake)
    coro.close()
    stops = bool(ex._has_to_stop)
    ex._has_to_stop = before
    return stops


def task_life(eng, executor, kind, situation):
    """one task, any number of other tasks in progress at each of its steps

    situation: item, exception (from the previous work), empty (queue), fails
    """
    if kind == "io":
        works = (("read", "io"), ("compute", None))
    else:
        works = (("compute", None), ("write", "io"))
    name = works[0][0]

    with sched.run_directory() as path, sched.quiet():
        topo, log = sched.make_topology(
            path, ["a"], works, fails=lambda n, k: situation == "fails" and n == name
        )
        fake = sched.FakeTrio(eng, 0)
        with sched.patch_trio(fake), sched.patch_fluidimage(sched.executor_table(executor, [])):
            nb_servers = 1 if executor == "exec_async_servers" else 2
            ex = sched.make_executor(executor, topo, path, nb_max_workers=nb_servers)
            ex._init_compute()
            nursery = ex.nursery = Started()
            work = topo.works_dict[name]
            names = counters(ex)
            if len(names) != 2:
                raise eng.cut("no counters of tasks")
            ex.nb_max_workers = eng.int("nb_max_workers", 2)
            queue, output = work.input_queue, work.output_queue
            queue.clear()
            queue["a"] = sched.Failure("previous") if situation == "exception" else ("a",)

            # the loop of the work starts a task
            loop = ex.async_funcs[name]()
            for c in names:
                setattr(ex, c, 0)
            for _ in range(5):
                if nursery.started:
                    break
                step(loop, fake)
            loop.close()
            eng.check(len(nursery.started) == 1, "a task is started for a waiting item")
            if len(nursery.started) != 1:
                return
            func, args = nursery.started[0]
            if situation == "empty":
                queue.clear()
            own = {c: getattr(ex, c) for c in names}
            coro = func(*args)
            value = None
            error = None
            nb_steps = 0
            while True:
                others = {}
                for c in names:
                    others[c] = eng.int(f"{c}_{nb_steps}", 0)
                    if nb_steps == 0:
                        # otherwise the task can leave the item in the queue (C02)
                        eng.assume(own[c] + others[c] < ex.nb_max_workers)
                    setattr(ex, c, own[c] + others[c])
                try:
                    req = coro.throw(error) if error else coro.send(value)
                except StopIteration:
                    req = None
                error = value = None
                own = {}
                for c in names:
                    own[c] = getattr(ex, c) - others[c]
                    eng.check(own[c] >= 0, "tasks in progress well counted")
                if req is None:
                    break
                # this task suspended, nothing else in progress
                held = not queue and not output
                if held and not (executor == "exec_async_servers" and kind == "cpu"):
                    for c in names:
                        setattr(ex, c, own[c] + eng.int(f"other_{c}_{nb_steps}", 0))
                    eng.check(
                        not detector_stops(ex, fake), "no end of run while an item is held"
                    )
                elif held:
                    for c in names:
                        setattr(ex, c, own[c])
                    eng.check(
                        not detector_stops(ex, fake), "no end of run while an item is held"
                    )
                nb_steps += 1
                if nb_steps > 10:
                    eng.check(False, "the task ends")
                    return
                if req.kind == "thread":
                    func, args = req.data
                    try:
                        value = func(*args)
                    except Exception as err:
                        error = err
            for c in names:
                eng.check(own[c] == 0, "tasks in progress well counted")
                setattr(ex, c, 0)
            if situation == "empty":
                eng.check(not output, "nothing made from an empty queue")
            else:
                eng.check(list(output) == ["a"], "result in the output queue")
                ok = isinstance(output["a"], Exception) == (situation != "item")
                eng.check(ok, "result in the output queue")
            eng.check(not queue, "item taken")
            # a task that is over does not prevent the end
            output.clear()
            eng.check(detector_stops(ex, fake), "the run can end")
            # nor the start of another one
            nursery.started.clear()
            queue["b"] = ("b",)
            loop = ex.async_funcs[name]()
            for _ in range(5):
                if nursery.started:
                    break
                step(loop, fake)
            loop.close()
            eng.check(len(nursery.started) == 1, "the next item is taken")


def detector(eng, executor, nb_servers=2):
    """end of the run: only when nothing is waiting or in progress"""
    servers = executor == "exec_async_servers"
    with sched.run_directory() as path, sched.quiet():
        topo, log = sched.make_topology(path, ["a"], IO_CPU)
        fake = sched.FakeTrio(eng, 0)
        with sched.patch_trio(fake), sched.patch_fluidimage(sched.executor_table(executor, [])):
            ex = sched.make_executor(executor, topo, path, nb_max_workers=nb_servers)
            ex._init_compute()
            names = counters(ex)
            if len(names) != 2:
                raise eng.cut("no counters of tasks")
            in_progress = []
            if servers:
                # jobs given to the servers
                nursery = ex.nursery = Started()
                work = topo.works_dict["compute"]
                for i in range(eng.choice("nb_jobs", [0, 1, 2])):
                    work.input_queue["k"] = ("k",)
                    loop = ex.async_funcs["compute"]()
                    for _ in range(5):
                        if len(nursery.started) == i + 1:
                            break
                        step(loop, fake)
                    loop.close()
                    if len(nursery.started) == i:
                        # the server has not yet taken the preceding job
                        eng.check(
                            any(job[2] == "to be sent" for job in in_progress),
                            "a free server gets a job",
                        )
                        break
                    func, args = nursery.started[i]
                    coro = func(*args)
                    req = step(coro, fake)
                    state = eng.choice(f"job{i}", ["to be sent", "sent"])
                    in_progress.append([coro, req, state, None])
                    if state == "sent":
                        func, args = req.data
                        in_progress[-1][3] = func(*args)
                for i, job in enumerate(in_progress):
                    if job[2] == "sent" and eng.choice(f"done{i}", [True, False]):
                        # result received: the task ends
                        step(job[0], fake, job[3])
                        job[2] = "done"
            for q in topo.queues:
                q.clear()
            busy = any(job[2] != "done" for job in in_progress)
            for c in names:
                if servers and "cpu" in c:
                    continue
                n = eng.int(c, 0)
                setattr(ex, c, n)
                busy = lor(busy, n > 0)
            for q in topo.queues:
                if eng.bool(q.name):
                    q["k"] = 1
                    busy = True
            stops = detector_stops(ex, fake)
            eng.check(lnot(land(busy, stops)), "no end of run too early")
            eng.check(lor(busy, stops), "the run can end")
            for job in in_progress:
                job[0].close()


def server(eng, nb_jobs, budget):
    """the loop of a server: one answer for each job, on its own connection"""
    works = (("compute", None), ("improve", None))
    jobs, fail = [], {}
    for i in range(nb_jobs):
        name = eng.choice(f"work{i}", ["compute", "improve"])
        # the same key can be received for several works
        key = eng.choice(f"key{i}", ["a", "b"])
        if (name, key) in [job[:2] for job in jobs]:
            return
        jobs.append((name, key, (key, f"value{i}")))
        fail[name, key] = bool(eng.bool(f"fail{i}"))
    with sched.run_directory() as path:
        finished, answers, log, messages = sched.serve(
            eng, path, works, jobs, lambda name, key: fail[name, key], budget
        )
    eng.check(finished, "the server answers")
    if not finished:
        return
    for (name, key, value), got in zip(jobs, answers):
        eng.check(len(got) == 1, "one answer for each job")
        eng.check(log.calls.count((name, key)) == 1, "each job done once")
        eng.check(got[0][:2] == (name, key), "answer of the right job")
        result = got[0][2]
        if fail[name, key]:
            ok = isinstance(result, sched.Failure)
            ok = ok and str(result) == f"failure of {name} for {key}"
        else:
            ok = result == (*value, name)
        eng.check(ok, "result of the job")


ASYNC = ["exec_async", "exec_async_sequential", "exec_async_multiproc", "exec_async_servers"]

HARNESSES = [
    Harness(
        whole_run,
        quick=[
            dict(executor="exec_async", items="ab"),
            dict(executor="exec_async", items="a", works=GLOBAL, budget=1),
            dict(executor="exec_async", items="ab", works=CPU_CPU, budget=1, nb_max_workers=1),
            dict(executor="exec_async", items="ab", fail="read", budget=1),
            dict(executor="exec_async_sequential", items="ab", budget=1),
            *(dict(executor=e, items="ab", works=IO_CPU[:1], budget=0, fail="save", save_kind=None)
              for e in ASYNC),
            dict(executor="exec_async_seq_for_multi", items="ab", budget=1),
            dict(executor="exec_async_multiproc", items="ab", budget=1),
            dict(executor="exec_async_servers", items="ab", budget=1),
            dict(executor="exec_async_servers", items="a", budget=2),
            dict(executor="exec_async_servers", items="abc", nb_max_workers=1, budget=1),
            dict(executor="exec_async_servers", items="abc", nb_max_workers=1, budget=0, fail="read"),
        ],
        thorough=[
            dict(executor=e, items="ab", works=w, budget=2)
            for e in ASYNC + ["exec_async_seq_for_multi"]
            for w in (IO_CPU, CPU_CPU)
        ]
        + [
            dict(executor=e, items="a", works=GLOBAL, budget=2, fail="read")
            for e in ASYNC + ["exec_async_seq_for_multi"]
        ]
        + [
            dict(executor=e, items="a", works=IO_CPU, budget=3)
            for e in ASYNC + ["exec_async_seq_for_multi"]
        ],
        labels=["the run ends", "each item processed once", "all the results",
                "no item left in the queues"],
        bounds="1 to 3 items, 3 or 4 works, 1 or 2 deviations from the default schedule",
    ),
    Harness(
        task_life,
        quick=[
            dict(executor=e, kind=k, situation=s)
            for e in ASYNC
            for k in ("io", "cpu")
            for s in ("item", "exception", "empty", "fails")
        ],
        labels=["no end of run while an item is held", "tasks in progress well counted",
                "result in the output queue", "the run can end", "the next item is taken"],
        bounds="one task; any number of other tasks in progress at each step",
    ),
    Harness(
        detector,
        quick=[dict(executor=e) for e in ASYNC]
        + [dict(executor="exec_async_servers", nb_servers=1)],
        labels=["no end of run too early", "the run can end", "a free server gets a job"],
        bounds="any number of tasks in progress, any empty or non-empty queues, 1 or 2 "
        "servers with up to 2 jobs",
    ),
    Harness(
        server,
        quick=[dict(nb_jobs=1, budget=1), dict(nb_jobs=2, budget=1)],
        thorough=[dict(nb_jobs=2, budget=2), dict(nb_jobs=3, budget=1)],
        labels=["the server answers", "one answer for each job", "each job done once",
                "answer of the right job", "result of the job"],
        bounds="1 or 2 jobs (thorough: 3) of two works, any subset of failing jobs, 1 "
        "deviation (thorough: 2) from the default schedule",
    ),
]
