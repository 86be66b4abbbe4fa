"""A failing item affects only what depends on it.

Whole runs of the real executors with symbolic failures (any subset of the calls of the
works) and a symbolic scheduler.
"""

import fluidimage.executors.exec_async
import fluidimage.executors.exec_async_multiproc
import fluidimage.executors.exec_async_seq_for_multi
import fluidimage.executors.exec_async_sequential
import fluidimage.executors.exec_async_servers
import fluidimage.executors.exec_sequential
import fluidimage.topologies.base

from checks import sched
from checks.c01 import IO_CPU
from symx.runner import Harness

ASSUMPTIONS = [
    "trio is replaced by a scheduler (checks/sched.py), see C01",
    "schedules with at most the stated number of deviations from the default one",
    "pipes, processes and servers are stand-ins",
]

CPU_IO = (("compute", None), ("write", "io"))
EAT = (("read", ("io", "eat key value")), ("compute", "eat key value"))


def failures(eng, executor, items, works=IO_CPU, budget=0, collect=True, save_kind="io"):
    """every subset of failing calls"""
    decided = {}
    stages = [w[0] for w in works] + ([] if collect else ["save"])

    def fails(name, key):
        if (name, key) not in decided:
            decided[name, key] = bool(eng.bool(f"fail_{name}_{key}"))
        return decided[name, key]

    with sched.run_directory() as path, sched.quiet():
        topo, log = sched.make_topology(
            path, items, works, fails=fails, collect=collect, save_kind=save_kind
        )
        fake = sched.FakeTrio(eng, budget)
        finished = True
        with sched.patch_trio(fake), sched.patch_fluidimage(sched.executor_table(executor, [])):
            ex = sched.make_executor(executor, topo, path, nb_max_workers=2)
            with sched.log_records() as messages:
                try:
                    ex.compute()
                except sched.NotFinished:
                    finished = False
        errors = [text for level, text in messages if level >= 40]
        texts = [
            p.read_text(errors="replace")
            for p in path.glob("log_*/*")
            if p.name.startswith("exception")
        ]
    eng.check(finished, "the run goes on")
    if not finished:
        return
    kinds = dict(works, save=save_kind)
    for key in items:
        # first failing stage of this item
        first = None
        for i, name in enumerate(stages):
            if decided.get((name, key)):
                first = i
                break
        for i, name in enumerate(stages):
            expected = 1 if first is None or i <= first else 0
            eng.check(
                log.calls.count((name, key)) == expected, "works called for the right items",
                f"{name} {key}",
            )
        complete = (key, *(w[0] for w in works))
        if collect:
            eng.check(key in log.collected, "same key")
            value = log.collected.get(key)
            if first is None:
                eng.check(value == complete, "other items not affected")
            else:
                eng.check(isinstance(value, sched.Failure), "the failure replaces the result")
                ok = str(value) == f"failure of {stages[first]} for {key}"
                eng.check(ok, "the failure replaces the result")
        else:
            eng.check((complete in log.saved) == (first is None), "other items not affected")
        if first is not None and not (
            executor == "exec_async_servers" and kinds[stages[first]] is None
        ):
            # (the works done by servers: see `server`)
            ok = any(f"{stages[first]} ({key})" in text for text in errors)
            eng.check(ok, "the failure is in the log")
        if first is not None and executor != "exec_async_servers":
            message = f"failure of {stages[first]} for {key}"
            nb = sum(message in text for text in texts)
            eng.check(nb == 1, "the failure is reported")
    if not collect:
        eng.check(len(log.saved) == len(set(log.saved)), "other items not affected")
    nb_failures = sum(decided.values())
    if executor != "exec_async_servers":
        eng.check(len(texts) == nb_failures, "the failure is reported")


def stop_if_error(eng, executor, items, works=IO_CPU, budget=0):
    """the first error is raised to the caller"""
    decided = {}

    def fails(name, key):
        decided[name, key] = bool(eng.bool(f"fail_{name}_{key}"))
        return decided[name, key]

    raised = None
    with sched.run_directory() as path, sched.quiet():
        topo, log = sched.make_topology(path, items, works, fails=fails)
        fake = sched.FakeTrio(eng, budget)
        finished = True
        with sched.patch_trio(fake), sched.patch_fluidimage(sched.executor_table(executor, [])):
            ex = sched.make_executor(
                executor, topo, path, nb_max_workers=2, stop_if_error=True
            )
            try:
                ex.compute()
            except sched.NotFinished:
                finished = False
            except Exception as error:
                raised = error
    eng.check(finished, "the run ends")
    failed = any(decided.values())
    eng.check((raised is not None) == failed, "error raised")
    if failed:
        eng.check(isinstance(raised, sched.Failure), "error raised")
        if executor == "exec_sequential":
            eng.check(sum(decided.values()) == 1, "stopped at the first error")
    else:
        eng.check(len(log.saved) == len(items), "complete without error")


def server(eng, nb_jobs, budget):
    """failing jobs of a server: the failure is sent back, and written in its log"""
    works = (("compute", None),)
    keys = "abc"[:nb_jobs]
    fail = {key: bool(eng.bool(f"fail_{key}")) for key in keys}
    with sched.run_directory() as path:
        finished, answers, log, messages = sched.serve(
            eng, path, works, [("compute", key, (key,)) for key in keys],
            lambda name, key: fail[key], budget,
        )
    eng.check(finished, "the run goes on")
    errors = [text for level, text in messages if level >= 40]
    for key, got in zip(keys, answers):
        if not got:
            eng.check(not finished, "the failure replaces the result")
            continue
        result = got[0][2]
        nb = sum(f"compute ({key})" in text for text in errors)
        if fail[key]:
            ok = isinstance(result, sched.Failure) and str(result) == f"failure of compute for {key}"
            eng.check(ok, "the failure replaces the result")
            eng.check(nb == 1, "the failure is in the log")
        else:
            eng.check(result == (key, "compute"), "other items not affected")
            eng.check(nb == 0, "the failure is in the log")


EXECUTORS = [
    "exec_sequential", "exec_async", "exec_async_sequential", "exec_async_seq_for_multi",
    "exec_async_multiproc", "exec_async_servers",
]
STOP = ["exec_sequential", "exec_async", "exec_async_sequential", "exec_async_multiproc"]

HARNESSES = [
    Harness(
        failures,
        quick=[dict(executor=e, items="ab") for e in EXECUTORS]
        + [dict(executor=e, items="ab", collect=False) for e in EXECUTORS]
        + [dict(executor=e, items="a", works=CPU_IO, budget=1) for e in EXECUTORS]
        + [dict(executor=e, items="ab", works=IO_CPU[:1], collect=False, save_kind=None)
           for e in EXECUTORS],
        thorough=[dict(executor=e, items="ab", budget=1) for e in EXECUTORS]
        + [dict(executor=e, items="abc", collect=False) for e in EXECUTORS],
        labels=["the run goes on", "works called for the right items",
                "other items not affected", "the failure replaces the result",
                "the failure is reported", "the failure is in the log"],
        bounds="1 or 2 items (thorough: 3), 3 works, any subset of failing calls, 0 or 1 "
        "deviation from the default schedule",
    ),
    Harness(
        stop_if_error,
        quick=[dict(executor=e, items="ab") for e in STOP],
        thorough=[dict(executor=e, items="ab", budget=1) for e in STOP],
        labels=["error raised", "complete without error"],
        bounds="2 items, 3 works, any subset of failing calls",
    ),
    Harness(
        server,
        quick=[dict(nb_jobs=2, budget=1)],
        thorough=[dict(nb_jobs=3, budget=1)],
        labels=["the run goes on", "the failure replaces the result",
                "the failure is in the log", "other items not affected"],
        bounds="2 jobs (thorough: 3), any subset of failing jobs, 1 deviation from the "
        "default schedule",
    ),
]
