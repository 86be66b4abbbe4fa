"""Runs the harnesses of one property and writes the evidence file."""

from __future__ import annotations

import argparse
import contextlib
import importlib
import io
import json
import multiprocessing
import os
import re
import sys
import time
import traceback
import warnings
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
SRC = REPO / "src"


def setup_imports():
    """Import fluidimage from the working tree, as plain Python source."""
    sys.meta_path[:] = [
        f
        for f in sys.meta_path
        if "editable" not in type(f).__module__.lower()
        and "editable" not in getattr(f, "__name__", "").lower()
    ]
    sys.path[:] = [str(SRC)] + [p for p in sys.path if p != str(SRC)]
    vt = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    if vt not in sys.path:
        sys.path.append(vt)
    warnings.simplefilter("ignore")
    with contextlib.redirect_stdout(io.StringIO()):
        import fluidimage

    assert Path(fluidimage.__file__).resolve().is_relative_to(SRC), fluidimage.__file__


class Harness:
    def __init__(
        self,
        func,
        quick=({},),
        thorough=None,
        labels=(),
        bounds="",
        shims=None,
        stubs=(),
        timeout_ms=20000,
        budget_s=200,
        thorough_budget_s=1500,
        name=None,
        nlogic=None,
        validate=True,
        merge=(),
    ):
        self.func = func
        self.name = name or func.__name__
        self.quick = list(quick)
        self.thorough = self.quick + [p for p in thorough or [] if p not in self.quick]
        self.labels = list(labels)
        self.bounds = bounds
        self.shims = {} if shims is None else shims
        self.stubs = list(stubs)
        self.timeout_ms = timeout_ms
        self.budget_s = budget_s
        self.thorough_budget_s = thorough_budget_s
        self.logic = nlogic
        self.validate = validate
        self.merge = list(merge)


class _Recorder:
    """Which functions of /repo were executed (sys.monitoring)."""

    TOOL = 4

    def __init__(self):
        self.functions = set()

    def __enter__(self):
        mon = sys.monitoring
        prefix = str(SRC)

        def on_start(code, offset):
            fn = code.co_filename
            if fn.startswith(prefix):
                self.functions.add((os.path.relpath(fn, REPO), code.co_qualname))
            return mon.DISABLE

        mon.use_tool_id(self.TOOL, "verif")
        mon.register_callback(self.TOOL, mon.events.PY_START, on_start)
        mon.set_events(self.TOOL, mon.events.PY_START)
        mon.restart_events()
        return self

    def __exit__(self, *exc):
        mon = sys.monitoring
        mon.set_events(self.TOOL, 0)
        mon.free_tool_id(self.TOOL)


def _run_concrete(func, params, values):
    """-> (status, detail, observed)"""
    from . import core

    eng = core.ConcreteEngine(values)
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            eng.run(lambda e: func(e, **params))
    except core.CheckFailed as err:
        return "failed", str(err), eng.observed
    except core.ReplayInvalid as err:
        return "invalid", str(err), eng.observed
    except Exception:
        return "exception", traceback.format_exc(), eng.observed
    return "passed", f"{eng.nchecks} checks", eng.observed


def run_job(args):
    modname, iharness, params, tier, seed = args
    t0 = time.time()
    from . import core
    from .arr import Shims
    from .merge import Merged

    mod = importlib.import_module(modname)
    harness = mod.HARNESSES[iharness]
    import random

    random.seed(seed)
    budget = harness.budget_s if tier == "quick" else harness.thorough_budget_s
    result = dict(
        harness=harness.name,
        params=params,
        iharness=iharness,
        confirmed=[],
        unconfirmed=[],
        errors=[],
        validation_mismatch=[],
        samples=[],
    )
    rec = _Recorder()
    buf = io.StringIO()
    try:
        import z3

        z3.set_param("smt.random_seed", seed % 1000)
        z3.set_param("sat.random_seed", seed % 1000)
        shims = Shims(**harness.shims)
        with rec:
            with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
                with Merged(harness.merge), shims, warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    eng = core.SymEngine(
                        timeout_ms=harness.timeout_ms,
                        budget_s=budget,
                        logic=harness.logic,
                    )
                    if not harness.validate:
                        eng.max_models = 0
                    eng.explore(lambda e: harness.func(e, **params))
            result["stats"] = eng.stats.as_dict()
            result["inconclusive"] = eng.inconclusive[:10]
            result["errors"] += eng.errors
            result["reached_end"] = eng.reached_end
            # counterexamples are replayed on the real code
            for v in eng.violations:
                status, detail, _ = _run_concrete(harness.func, params, v.values)
                item = dict(
                    label=v.label,
                    kind=v.kind,
                    msg=v.msg,
                    values=v.values,
                    replay=status,
                    detail=detail,
                )
                if status == "failed" or (
                    status == "exception" and v.kind == "exception"
                ):
                    result["confirmed"].append(item)
                elif status == "exception":
                    result["confirmed"].append(item)
                else:
                    result["unconfirmed"].append(item)
            # the symbolic runs are validated against concrete runs
            validated = 0
            if harness.validate:
                for values, obs in eng.path_models:
                    status, detail, observed = _run_concrete(
                        harness.func, params, values
                    )
                    if status == "failed" or status == "exception":
                        item = dict(
                            label=detail.split(":")[0]
                            if status == "failed"
                            else "exception in a concrete run",
                            kind="concrete",
                            msg="a model of a path fails on the real code",
                            values=values,
                            replay=status,
                            detail=detail,
                        )
                        result["confirmed"].append(item)
                        continue
                    if status == "invalid":
                        continue
                    validated += 1
                    expected = core._plain([o for o in obs])
                    if not core.same_observation(
                        [[n, v] for n, v in expected],
                        [[n, v] for n, v in observed],
                    ):
                        result["validation_mismatch"].append(
                            dict(values=values, symbolic=expected, concrete=observed)
                        )
            result["validated"] = validated
            for values, obs in eng.path_models[:2]:
                result["samples"].append(_short(values))
    except core.Unsupported as err:
        result["errors"].append("unsupported: " + str(err) + "\n" + traceback.format_exc())
    except Exception:
        result["errors"].append(traceback.format_exc())
    except BaseException as err:  # engine control exceptions
        result["errors"].append(f"{type(err).__name__}\n" + traceback.format_exc())
    result["functions"] = sorted(f"{f}:{q}" for f, q in rec.functions)
    result["wall_s"] = round(time.time() - t0, 2)
    result["output"] = buf.getvalue()[-2000:]
    return result


def _short(values):
    out = {}
    for k, v in list(values.items())[:40]:
        if isinstance(v, list) and len(v) == 2:
            v = v[0] / v[1] if v[1] != 1 else v[0]
        if isinstance(v, int) and abs(v) > 10**15:
            v = str(v)
        out[k] = v
    return out


def load_known(prop):
    """Known findings: lines `KNOWN-FINDING property=<id> label=<label> <what>`."""
    known = {}
    path = ROOT / "known_findings.txt"
    if path.exists():
        for line in path.read_text().splitlines():
            m = re.match(
                r"KNOWN-FINDING property=(\S+) label=(\S+)\s+(.*)", line.strip()
            )
            if m and m.group(1) == prop:
                known[m.group(2)] = m.group(3)
    return known


def main(argv=None):
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", 1)))
    parser.add_argument("--replay")
    parser.add_argument("--only")
    parser.add_argument("-v", action="store_true")
    parser.add_argument("-j", type=int, default=min(8, os.cpu_count() or 1))
    args = parser.parse_args(argv)
    prop = args.property.upper()
    t0 = time.time()
    setup_imports()
    modname = f"checks.{prop.lower()}"
    mod = importlib.import_module(modname)

    if args.replay:
        data = json.loads(Path(args.replay).read_text())
        harness = mod.HARNESSES[data["iharness"]]
        status, detail, obs = _run_concrete(
            harness.func, data["params"], data["values"]
        )
        print(f"replay of {data['harness']} {data['params']}: {status}\n{detail}")
        return 1 if status in ("failed", "exception") else 0

    known = load_known(prop)
    jobs = []
    for i, h in enumerate(mod.HARNESSES):
        if args.only and args.only not in h.name:
            continue
        for params in h.quick if args.tier == "quick" else h.thorough:
            jobs.append((modname, i, params, args.tier, args.seed))
    ctx = multiprocessing.get_context("fork")
    results = []
    if args.j == 1 or len(jobs) == 1:
        results = [run_job(job) for job in jobs]
    else:
        import concurrent.futures as cf

        with cf.ProcessPoolExecutor(
            max_workers=args.j, mp_context=ctx, max_tasks_per_child=None
        ) as ex:
            futs = {ex.submit(run_job, job): job for job in jobs}
            todo, limit = set(futs), None
            while todo:
                done, todo = cf.wait(todo, limit and max(limit - time.time(), 0),
                                     cf.FIRST_COMPLETED)
                if not done:
                    break
                for fut in done:
                    job = futs[fut]
                    try:
                        results.append(fut.result())
                    except Exception as err:
                        results.append(
                            dict(harness=mod.HARNESSES[job[1]].name, params=job[2],
                                 iharness=job[1], errors=[f"worker died: {err!r}"],
                                 confirmed=[], unconfirmed=[], validation_mismatch=[],
                                 samples=[], functions=[], wall_s=0, output="")
                        )
                    if limit is None and any(
                        v["label"] not in known for v in results[-1]["confirmed"]
                    ):
                        # the property is violated: no need for the other cases
                        limit = time.time() + 20
            if todo:
                print(f"{len(todo)} cases not explored after a violation")
                for fut in todo:
                    fut.cancel()
                for process in list(ex._processes.values()):
                    process.terminate()
        order = {str(job[1:3]): i for i, job in enumerate(jobs)}
        results.sort(key=lambda r: order[str((r["iharness"], r["params"]))])

    code = 0
    violations = []
    problems = []
    known_seen = {}
    label_witness = {}
    tot = dict(paths=0, queries=0, branches=0, solver_s=0.0, checks=0, discharged=0)
    functions = set()
    validated = 0
    samples = []
    cuts = {}
    per_harness = {}
    for r in results:
        h = mod.HARNESSES[r["iharness"]]
        functions.update(r["functions"])
        validated += r.get("validated", 0)
        st = r.get("stats")
        ph = per_harness.setdefault(
            h.name, dict(bounds=h.bounds, stubs=h.stubs, cases=0, paths=0, queries=0, solver_s=0.0, checks={})
        )
        ph["cases"] += 1
        if st:
            for k in tot:
                tot[k] += st[k]
            for k, v in st["cut"].items():
                cuts[k] = cuts.get(k, 0) + v
            ph["paths"] += st["paths"]
            ph["queries"] += st["queries"]
            ph["solver_s"] = round(ph["solver_s"] + st["solver_s"], 3)
            for label, n in st["labels"].items():
                ph["checks"][label] = ph["checks"].get(label, 0) + n
                w = st["witnessed"].get(label, False)
                label_witness[(h.name, label)] = (
                    label_witness.get((h.name, label), False) or w
                )
        for s in r["samples"][:1]:
            samples.append(dict(harness=h.name, params=str(r["params"]), inputs=s))
        for v in r["confirmed"]:
            if v["label"] in known:
                known_seen[v["label"]] = v
                continue
            violations.append((r, v))
        for v in r["unconfirmed"]:
            if v["label"] in known:
                continue
            problems.append(
                f"{h.name} {r['params']}: counterexample not reproduced ({v['replay']}) "
                f"{v['label']}: {v['msg']} {_short(v['values'])} {v['detail']}"
            )
        for e in r["errors"]:
            problems.append(f"{h.name} {r['params']}: {e}")
        for e in r.get("inconclusive", []):
            problems.append(f"{h.name} {r['params']}: inconclusive: {e}")
        for m in r["validation_mismatch"][:3]:
            problems.append(f"{h.name} {r['params']}: engine mismatch: {str(m)[:1500]}")
        if args.v:
            st = st or {}
            print(
                h.name, str(r["params"])[:70],
                *(f"{k}={st.get(k)}" for k in ("paths", "aborted", "queries", "solver_s", "checks", "unknown", "cut")),
                "wall", r["wall_s"], "validated", r.get("validated"),
            )
            if r["errors"] or args.only:
                print(r["output"])
    seen = {r["iharness"] for r in results}
    for i, h in enumerate(mod.HARNESSES):
        if i not in seen:
            continue
        for label in h.labels:
            if not label_witness.get((h.name, label)):
                problems.append(f"{h.name}: check {label!r} was never reached (vacuous)")

    replay_dir = ROOT / "replays"
    if violations:
        replay_dir.mkdir(exist_ok=True)
    printed = set()
    for n, (r, v) in enumerate(violations):
        path = replay_dir / f"{prop}-{n}.json"
        path.write_text(
            json.dumps(
                dict(property=prop, harness=r["harness"], iharness=r["iharness"],
                     params=r["params"], **v),
                indent=1,
                default=str,
            )
        )
        key = (r["harness"], v["label"])
        if key in printed:
            continue
        printed.add(key)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  {r['harness']} {r['params']} [{v['label']}] {v['msg'][-600:]}")
        print(f"  inputs: {_short(v['values'])}")
        print(f"  real code: {v['replay']}: {v['detail'][-1200:]}")
        code = 1
    for label, v in known_seen.items():
        print(f"KNOWN-FINDING: property={prop} {label} {known[label]}")
    for p in problems:
        print("PROBLEM", p, file=sys.stderr)
    if code == 0 and problems:
        code = 2

    wall = time.time() - t0
    level = getattr(mod, "LEVEL", "model_checking")
    coverage = dict(
        explanation=mod.__doc__ or "",
        states=tot["paths"],
        transitions=tot["branches"],
        traces_validated_against_impl=validated,
        samples=samples[:12] or ["none"],
        functions_encoded=sorted(functions),
        queries_discharged=tot["queries"],
        assertions=tot["checks"],
        assertions_discharged=tot["discharged"],
        solver_time_s=round(tot["solver_s"], 3),
        harnesses=per_harness,
        cut_paths=cuts,
        inconclusive=len([p for p in problems if "inconclusive" in p]),
        meaning=(
            "states: feasible paths explored symbolically to their end; transitions: "
            "branch decisions settled by the solver; "
            "traces_validated_against_impl: path models re-run on the real code "
            "without the engine, with the same observed results"
        ),
    )
    evidence = dict(
        property=prop,
        tier=args.tier if args.tier in ("quick", "thorough") else "quick",
        seed=args.seed,
        level=level,
        coverage=coverage,
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(wall, 2),
        violations=len(violations),
    )
    if not args.only:
        (ROOT / "evidence").mkdir(exist_ok=True)
        (ROOT / "evidence" / f"{prop}.json").write_text(
            json.dumps(evidence, indent=1, default=str)
        )
    print(
        f"{prop}: {'ok' if code == 0 else 'violation' if code == 1 else 'ERROR'}; "
        f"{tot['paths']} paths, {tot['checks']} assertions, {tot['queries']} queries, "
        f"solver {tot['solver_s']:.1f} s, validated {validated}, wall {wall:.1f} s"
    )
    return code
