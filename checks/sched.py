"""Stand-in for trio: a scheduler whose decisions are symbolic.

Model of trio: tasks run until their next await; all the tasks that are runnable at the
beginning of a tick run during this tick, in any order; tasks started during a tick run
in the next one; sleeping tasks are woken in the order of their deadlines, when the time
has passed; the time taken by threads is arbitrary.

A schedule is described by its deviations from a default one (first in, first out;
threads end at once; time passes only when nothing is runnable).  The decisions are
inputs of the engine; the number of deviations is bounded.
"""

import contextlib


class Suspend:
    def __init__(self, kind, data=None):
        self.kind, self.data = kind, data

    def __await__(self):
        return (yield self)


class Cancelled(BaseException):
    pass


class CancelScope:
    cancelled = False

    def cancel(self):
        self.cancelled = True


class Nursery:
    def __init__(self, sched):
        self.sched = sched
        self.nb_children = 0
        self.cancel_scope = CancelScope()
        self.error = None

    def start_soon(self, func, *args, name=None):
        if self.sched.on_start is not None:
            self.sched.on_start(func, *args)
        self.sched.spawn(func(*args), self)

    async def __aenter__(self):
        return self

    async def __aexit__(self, type_, value, tb):
        await Suspend("join", self)
        if self.error is not None:
            raise self.error
        return False


class Task:
    def __init__(self, coro, nursery, index):
        self.coro, self.nursery, self.index = coro, nursery, index
        self.value = self.error = None


class NotFinished(Exception):
    """The run does not end"""


class ToThread:
    def __init__(self, sched):
        self.sched = sched

    async def run_sync(self, func, *args, cancellable=False, abandon_on_cancel=None, limiter=None):
        return await Suspend("thread", (func, args))


class Lowlevel:
    @staticmethod
    async def checkpoint():
        await Suspend("ready")


class FakeTrio:
    """Used instead of the module trio"""

    def __init__(self, eng, budget, max_ticks=80, unit=0.01, slow=()):
        self.eng, self.left, self.max_ticks, self.unit = eng, budget, max_ticks, unit
        # time of the threads for each call (deviations are added)
        self.slow = slow
        self.to_thread = ToThread(self)
        self.lowlevel = Lowlevel()
        self.now = 0.0
        self.ready, self.sleeping, self.threads, self.joining = [], [], [], []
        self.nb_tasks = self.nb_decisions = 0
        self.on_thread_start = self.on_thread_end = None
        self.at_switch = self.on_start = None

    def decide(self, options):
        """default: first option"""
        options = list(options)
        if len(options) == 1 or self.left <= 0:
            return options[0]
        self.nb_decisions += 1
        r = self.eng.choice(f"d{self.nb_decisions}", options)
        if r != options[0]:
            self.left -= 1
        return r

    async def sleep(self, seconds):
        await Suspend("sleep", seconds)

    def open_nursery(self, **kw):
        return Nursery(self)

    def spawn(self, coro, nursery):
        task = Task(coro, nursery, self.nb_tasks)
        self.nb_tasks += 1
        if nursery is not None:
            nursery.nb_children += 1
        self.ready.append(task)

    def run(self, func, *args, **kw):
        main = Task(func(*args), None, -1)
        self.main = main
        self.ready.append(main)
        try:
            for _ in range(self.max_ticks):
                if self.tick(main):
                    if main.error is not None:
                        raise main.error
                    return main.value
            raise NotFinished(f"{self.max_ticks} ticks")
        finally:
            for task in self.all_tasks():
                with contextlib.suppress(BaseException):
                    task.coro.close()

    def all_tasks(self):
        return (
            self.ready
            + [t for _, t in self.sleeping]
            + [t for _, _, t in self.threads]
            + [t for _, t in self.joining]
        )

    def tick(self, main):
        # threads
        for item in list(self.threads):
            if item[0] <= self.now and not self.blocked(item):
                self.threads.remove(item)
                self.end_thread(item)
        # time
        advance = not self.ready
        if not advance and (self.sleeping or self.threads):
            advance = self.decide([False, True])
        if advance:
            times = [s[0] for s in self.sleeping]
            times += [t[0] for t in self.threads if not self.blocked(t)]
            if not times:
                if not self.ready:
                    raise NotFinished("no task can run")
            else:
                self.now = max(self.now, min(times))
                for item in list(self.threads):
                    if item[0] <= self.now and not self.blocked(item):
                        self.threads.remove(item)
                        self.end_thread(item)
                expired = sorted(
                    (s for s in self.sleeping if s[0] <= self.now),
                    key=lambda s: (s[0], s[1].index),
                )
                # the deadlines can differ by any small duration
                nb = self.decide(range(len(expired), 0, -1)) if expired else 0
                for s in expired[:nb]:
                    self.sleeping.remove(s)
                    self.ready.append(s[1])
        batch, self.ready = self.ready, []
        while batch:
            task = batch.pop(self.decide(range(len(batch))))
            self.step(task)
        return getattr(main, "done", False)

    @staticmethod
    def blocked(item):
        """thread waiting for something to be received"""
        is_blocked = getattr(item[1][0], "__self__", None)
        is_blocked = getattr(is_blocked, "blocks", None)
        return is_blocked is not None and is_blocked()

    def end_thread(self, item):
        _, (func, args), task = item
        try:
            task.value = func(*args)
        except Exception as error:
            task.error = error
        if self.on_thread_end is not None:
            self.on_thread_end(func, args)
        self.ready.append(task)

    def step(self, task):
        nursery = task.nursery
        try:
            if nursery is not None and nursery.cancel_scope.cancelled:
                req = task.coro.throw(Cancelled())
            elif task.error is not None:
                error, task.error = task.error, None
                req = task.coro.throw(error)
            else:
                value, task.value = task.value, None
                req = task.coro.send(value)
        except StopIteration as stop:
            self.end(task, stop.value, None)
        except Cancelled:
            self.end(task, None, None)
        except Exception as error:
            self.end(task, None, error)
        else:
            if not isinstance(req, Suspend):
                raise TypeError(f"unknown awaitable: {req!r}")
            if req.kind == "sleep":
                self.sleeping.append((self.now + float(req.data) / self.unit, task))
            elif req.kind == "ready":
                self.ready.append(task)
            elif req.kind == "thread":
                if self.on_thread_start is not None:
                    self.on_thread_start(*req.data)
                dt = self.decide([0, 1, 3])
                self.threads.append((self.now + dt, req.data, task))
            elif req.kind == "join":
                if req.data.nb_children == 0:
                    self.ready.append(task)
                else:
                    self.joining.append((req.data, task))
        if self.at_switch is not None:
            self.at_switch()

    def end(self, task, value, error):
        nursery = task.nursery
        if nursery is None:
            task.done, task.value, task.error = True, value, error
            return
        nursery.nb_children -= 1
        if error is not None and nursery.error is None:
            nursery.error = error
            nursery.cancel_scope.cancel()
        if nursery.cancel_scope.cancelled:
            # wake up everybody
            for s in list(self.sleeping):
                self.sleeping.remove(s)
                self.ready.append(s[1])
        if nursery.nb_children == 0:
            for item in list(self.joining):
                if item[0] is nursery:
                    self.joining.remove(item)
                    self.ready.append(item[1])


def patch_trio(fake):
    """context manager: fake instead of trio in all the modules of fluidimage"""
    import sys

    import trio

    table = {
        id(trio): fake, id(trio.sleep): fake.sleep, id(trio.run): fake.run,
        id(trio.open_nursery): fake.open_nursery, id(trio.to_thread): fake.to_thread,
        id(trio.to_thread.run_sync): fake.to_thread.run_sync,
        id(trio.lowlevel): fake.lowlevel,
    }
    return patch_fluidimage(table)


@contextlib.contextmanager
def patch_fluidimage(table):
    """table {id of the object: stand-in}"""
    import sys

    done = []
    try:
        for name, mod in list(sys.modules.items()):
            if mod is None or not (name == "fluidimage" or name.startswith("fluidimage.")):
                continue
            for k, v in list(vars(mod).items()):
                if id(v) in table:
                    done.append((mod, k, v))
                    setattr(mod, k, table[id(v)])
        yield
    finally:
        for mod, k, v in reversed(done):
            setattr(mod, k, v)


# --- topologies -------------------------------------------------------------

class Failure(Exception):
    pass


class Log:
    """what has been observed during a run"""

    def __init__(self):
        self.calls = []
        self.collected = {}
        self.saved = []
        self.nb_fills = 0


def make_topology(
    path, items, works, fails=None, collect=False, log=None, save_kind="io"
):
    """fill -> works -> save (or collect)

    works: sequence of (name, kind); kind "global" moves the items one by one."""
    from fluidimage import ParamContainer
    from fluidimage.topologies.base import TopologyBase

    log = log or Log()
    fails = fails or (lambda name, key: False)
    topo = TopologyBase(
        ParamContainer("params"), path_dir_src=path, path_dir_result=path, logging_level=None
    )
    topo.results = log.saved
    queues = [topo.add_queue(f"queue{i}") for i in range(len(works) + 1)]

    class Fill:
        def fill(self, input_queue, output_queue):
            log.nb_fills += 1
            for key in items:
                output_queue[key] = (key,)

    topo.add_work(
        "fill", Fill().fill, output_queue=queues[0], kind=("global", "one shot")
    )

    def make(name):
        def func(value):
            log.calls.append((name, value[0]))
            if fails(name, value[0]):
                raise Failure(f"failure of {name} for {value[0]}")
            return value + (name,)

        return func

    def make_global(name):
        def func(input_queue, output_queue):
            key, value = input_queue.pop_first_item()
            log.calls.append((name, key))
            output_queue[key] = value if isinstance(value, Exception) else value + (name,)

        return func

    for i, (name, kind) in enumerate(works):
        func = make_global(name) if kind == "global" else make(name)
        topo.add_work(
            name, func, input_queue=queues[i], output_queue=queues[i + 1], kind=kind
        )

    if collect:
        def func(input_queue, output_queue):
            while input_queue:
                key, value = input_queue.pop_first_item()
                log.calls.append(("collect", key))
                log.collected[key] = value

        topo.add_work("collect", func, input_queue=queues[-1], kind="global")
    else:
        def save(value):
            log.calls.append(("save", value[0]))
            if fails("save", value[0]):
                raise Failure(f"failure of save for {value[0]}")
            log.saved.append(value)

        topo.add_work("save", save, input_queue=queues[-1], kind=save_kind)
    return topo, log


class FakePipe:
    """The two ends of a pipe with a server that answers at once"""

    def __init__(self):
        self.items = []

    def send(self, obj):
        self.items.append(obj)

    def recv(self):
        return self.items.pop(0)


class ServerConn:
    """connection to a server: the job is done when it is received"""

    def __init__(self, topology, observed):
        self.topology, self.observed = topology, observed

    def send(self, obj):
        if obj[0] == "__t_start__":
            return
        name, key, value, conn = obj
        self.observed.append((name, key))
        work = self.topology.works_dict[name]
        try:
            ret = work.func_or_cls(work.prepare_argument(key, value))
        except Exception as error:
            ret = error
        conn.send((name, key, ret))


class FakeEvent:
    def __init__(self):
        self.flag = False

    def set(self):
        self.flag = True

    def is_set(self):
        return self.flag

    def wait(self, timeout=None):
        return self.flag


class FakeProcess:
    """process: its target is run at once"""

    exitcode = 0
    pid = None

    def __init__(self, target=None, args=(), kwargs=None):
        self.target, self.args = target, args

    def start(self):
        self.target(*self.args)

    def join(self, timeout=None):
        pass

    def terminate(self):
        pass


def executor_table(tag, observed):
    """stand-ins of multiprocessing"""
    import multiprocessing

    import fluidimage.executors.exec_async_multiproc
    import fluidimage.executors.exec_async_servers
    import fluidimage.executors.servers as servers

    def new_pipe(*args):
        pipe = FakePipe()
        return pipe, pipe

    def launch_server(topology, *args, **kwargs):
        return servers.WorkerMultiprocessing(
            ServerConn(topology, observed), FakeEvent(), FakeProcess()
        )

    return {
        id(multiprocessing.Pipe): new_pipe,
        id(multiprocessing.Event): FakeEvent,
        id(multiprocessing.Process): FakeProcess,
        id(servers.launch_server): launch_server,
    }


class JobsConn:
    """connection of a server: jobs to be received, then nothing more"""

    def __init__(self, jobs):
        self.jobs = list(jobs)

    def blocks(self):
        return not self.jobs

    def recv(self):
        return self.jobs.pop(0)


class AnswerConn:
    """connection on which the answer to a job is sent"""

    def __init__(self):
        self.answers = []

    def send(self, obj):
        self.answers.append(obj)


@contextlib.contextmanager
def log_records():
    """messages of the logger of fluidimage"""
    import logging

    from fluidimage.util import logger

    messages = []

    class Handler(logging.Handler):
        def emit(self, record):
            messages.append((record.levelno, record.getMessage()))

    handler = Handler()
    level, handlers = logger.level, list(logger.handlers)
    logger.addHandler(handler)
    logger.setLevel("INFO")
    try:
        yield messages
    finally:
        logger.handlers[:] = handlers
        logger.setLevel(level)


def serve(eng, path, works, jobs, fails, budget, max_ticks=60):
    """the real loop of a server: jobs [(name of the work, key, value)]

    Gives the answers received on the connection of each job and the log messages.
    """
    import fluidimage.executors.servers as servers

    topo, log = make_topology(path, [], works, fails=fails)
    conns = [AnswerConn() for _ in jobs]
    received = [("__t_start__", 0.0)]
    received += [(*job, conn) for job, conn in zip(jobs, conns)]
    fake = FakeTrio(eng, budget, max_ticks=max_ticks)
    event = FakeEvent()

    class Done(BaseException):
        pass

    def look():
        if all(conn.answers for conn in conns):
            fake.nb_after = getattr(fake, "nb_after", 0) + 1
            if fake.nb_after > 30:
                raise Done

    fake.at_switch = look
    finished = True
    with patch_trio(fake), quiet(), log_records() as messages:
        try:
            servers.WorkerServerMultiprocessing(
                JobsConn(received), event, lambda params: topo, topo.params, 0.01, False,
                path / "process_000.txt", None,
            )
        except Done:
            pass
        except NotFinished:
            finished = False
    return finished, [conn.answers for conn in conns], log, messages


def executor_class(tag):
    import importlib

    return importlib.import_module("fluidimage.executors." + tag).Executor


@contextlib.contextmanager
def quiet():
    import io
    import sys

    out, err = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = sys.__stdout__ = io.StringIO()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = out, err
        sys.__stdout__ = out


@contextlib.contextmanager
def run_directory():
    import shutil
    import tempfile
    from pathlib import Path

    path = tempfile.mkdtemp(prefix="verif_exec_")
    try:
        yield Path(path)
    finally:
        shutil.rmtree(path, ignore_errors=True)


def make_executor(tag, topo, path, observed=None, **kwargs):
    """executor built with stand-ins"""
    import signal

    cls = executor_class(tag)
    kw = dict(logging_level=None)
    kw.update(kwargs)
    if tag == "exec_async_seq_for_multi":
        import os
        import time

        (path / "log_x").mkdir(exist_ok=True)
        (path / "job_x").mkdir(exist_ok=True)
        kw.update(path_log=path / "log_x" / "process_000.txt", t_start=time.time(), index_process=0)
        kw.pop("nb_items_queue_max", None)
    old = {n: signal.getsignal(n) for n in (signal.SIGINT, 12)}
    try:
        return cls(topo, path, **kw)
    finally:
        for n, h in old.items():
            signal.signal(n, h)
