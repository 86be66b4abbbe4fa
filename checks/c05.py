"""Existing results are completed, redone or kept apart as asked."""

import os
import shutil
import tempfile
from pathlib import Path

import fluiddyn.io.query
import fluidimage.topologies.base
from fluidimage import ParamContainer

from checks import sched
from symx.patch import patched
from symx.runner import Harness

ASSUMPTIONS = [
    "the question asked to the user is a stand-in (fluiddyn.io.query.query) which gives the "
    "answers chosen by the solver; the directories are real, in a scratch directory",
]

MODES = ["ask", "new_dir", "complete", "recompute", "from_path_indices", "overwrite", "New_dir"]
VALID = MODES[:5]
ANSWERS = ["n", "N", "c", "C", "r", "R", "s", "S", "", "x", "new", "no"]

# how the input directory is given (working directory: parent of the images)
INPUTS = {
    "absolute": lambda path: str(path / "Images"),
    "separator": lambda path: str(path / "Images") + os.sep,
    "relative": lambda path: "Images",
    "relative separator": lambda path: "Images" + os.sep,
    "Path": lambda path: path / "Images",
    "dot": lambda path: ".",
    "empty": lambda path: "",
}


class Topology(fluidimage.topologies.base.TopologyBase):
    _short_name = "short"


class TooManyQuestions(Exception):
    pass


def all_directories(path):
    return {str(p.relative_to(path)) for p in path.rglob("*") if p.is_dir()}


def directory(eng, given, saving, postfix=None, nb_existing=3, nb_answers=3, files=False):
    """every mode, existing directories and answers"""
    mode = eng.choice("mode", MODES)
    existing = [eng.bool(f"exists_{i}") for i in range(nb_existing)]
    path = Path(tempfile.mkdtemp(prefix="verif_dir_")).resolve()
    cwd = os.getcwd()
    try:
        (path / "Images").mkdir()
        inside = given in ("dot", "empty")
        os.chdir(path / "Images" if inside else path)
        params = ParamContainer(tag="params")
        Topology._add_default_params_saving(params)
        params.saving.how = mode
        if postfix is not None:
            params.saving.postfix = postfix
        if saving is None:
            base = path / ("Images." + (postfix or "short"))
        else:
            base = path / "Results"
            params.saving.path = {"str": str(base), "Path": base, "relative": "Results",
                                  "separator": str(base) + os.sep}[saving]
        names = [base.name + suffix for suffix in ("", "0", "1", "2")]
        exists = [bool(e) for e in existing]
        if files:
            # a file has the name of the first candidate
            (path / names[1]).write_text("a file")
            exists[1] = False
        for name, there in zip(names, exists):
            if there:
                (path / name).mkdir()
                (path / name / "file.txt").write_text("old result")
        before = all_directories(path)
        asked = []

        def query(*args, **kwargs):
            if len(asked) >= nb_answers:
                raise TooManyQuestions
            answer = eng.choice(f"answer_{len(asked)}", ANSWERS)
            asked.append(answer)
            return answer

        error = None
        result = None
        with patched((fluiddyn.io.query.query, query)), sched.quiet():
            try:
                topo = Topology(params, path_dir_src=INPUTS[given](path), logging_level=None)
                result = Path(os.path.abspath(topo.path_dir_result))
            except (Exception, SystemExit) as e:
                error = e
        created = all_directories(path) - before
        eng.check(
            all((path / n / "file.txt").read_text() == "old result"
                for n, there in zip(names, exists) if there)
            and (not files or (path / names[1]).read_text() == "a file"),
            "existing results not touched",
        )
        if mode not in VALID:
            eng.check(
                isinstance(error, ValueError) and not created, "invalid mode refused", str(error)
            )
            return
        asks = mode == "ask" and exists[0]
        how = mode
        if asks:
            valid = [i for i, a in enumerate(asked) if a.lower() in list("ncrs")]
            if not valid:
                eng.check(
                    isinstance(error, TooManyQuestions) and not created,
                    "asked again until there is a valid answer",
                )
                return
            eng.check(
                len(asked) == valid[0] + 1, "asked again until there is a valid answer"
            )
            answer = asked[valid[0]].lower()
            if answer == "s":
                eng.check(
                    isinstance(error, SystemExit) and not created, "stop leaves at once"
                )
                return
            how = {"n": "new_dir", "c": "complete", "r": "recompute"}[answer]
        else:
            eng.check(not asked, "no question when it is useless")
            if mode == "ask":
                how = "recompute"
        eng.check(error is None, "no error", repr(error))
        if how == "new_dir" and exists[0]:
            eng.check(
                result.parent == path and result.name.startswith(base.name)
                and result.name[len(base.name):].isdigit(), "name of the new directory",
                str(result),
            )
            eng.check(
                result.name not in before | set(names[1:2] if files else ()) and created == {result.name},
                "new directory different from the existing ones",
            )
        else:
            eng.check(result == base, "the directory asked for", f"{result} {base}")
            eng.check(
                created == (set() if exists[0] else {base.name}), "no other directory created"
            )
        eng.check(result.is_dir(), "the directory exists")
        eng.check(topo.how_saving == how, "mode used for the computation", topo.how_saving)
        eng.check(
            Path(os.path.abspath(params.saving.path)) == result,
            "directory recorded in the parameters",
        )
    finally:
        os.chdir(cwd)
        shutil.rmtree(path, ignore_errors=True)


HARNESSES = [
    Harness(
        directory,
        quick=[
            dict(given="absolute", saving=None),
            dict(given="absolute", saving="Path"),
            dict(given="absolute", saving=None, files=True, nb_answers=1),
            dict(given="relative", saving="relative", nb_answers=2),
            dict(given="separator", saving=None, postfix="other", nb_answers=2),
            dict(given="relative", saving=None, nb_answers=1),
            dict(given="relative separator", saving=None, nb_answers=1),
            dict(given="Path", saving="str", nb_answers=2),
            dict(given="absolute", saving="separator", nb_answers=1),
            dict(given="dot", saving=None, nb_answers=1),
            dict(given="empty", saving=None, nb_answers=1),
        ],
        thorough=[
            dict(given="Path", saving=None, nb_existing=4, nb_answers=3),
            dict(given="separator", saving="Path", nb_existing=4, nb_answers=3),
        ],
        labels=[
            "existing results not touched", "invalid mode refused",
            "asked again until there is a valid answer", "stop leaves at once",
            "no question when it is useless", "no error", "name of the new directory",
            "new directory different from the existing ones", "the directory asked for",
            "no other directory created", "the directory exists", "mode used for the computation",
            "directory recorded in the parameters",
        ],
        bounds="5 valid and 2 invalid modes, every pattern of 3 (4) existing directories, every "
        "sequence of 3 answers among 12, paths absolute, relative, with a separator at the end",
        validate=False,
        shims=dict(prefix=(), builtins_=False),
    ),
]
