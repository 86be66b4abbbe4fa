"""Parameters of the PIV imported from a document of UVmat."""

import shutil
import sys
import tempfile
from pathlib import Path

import fluidimage.uvmat as uvmat
from fluiddyn.util.serieofarrays import SeriesOfArrays
from fluidimage import ParamContainer
from fluidimage.uvmat import actions_classes

from checks import sched
from symx.runner import Harness

ASSUMPTIONS = [
    "documents of the action civ_series; consecutive images for series(Di) and series(Dj), second "
    "index written as a number for series(Dj)",
    "reading XML and listing images are those of fluiddyn (executed, with files)",
]


def node(tag, content):
    if isinstance(content, dict):
        inner = "\n".join(node(k, v) for k, v in content.items())
    else:
        inner = str(content)
    return f"<{tag}>\n{inner}\n</{tag}>"


def document(path, mode, names, pair, index_range, **action_input):
    base, index, ext = names
    return {
        "InputTable": f"{path} &amp; /Images &amp; /{base} &amp; {index} &amp; {ext}",
        "OutputDirExt": ".civ",
        "Action": {"ActionName": "civ_series", "RUN": 1},
        "IndexRange": index_range,
        "ActionInput": {
            **action_input,
            "PairIndices": {"ListPairCiv1": pair, "ListPairMode": mode},
            "Program": "civ_series",
        },
    }


def instructions_of(path, doc):
    file = path / "instructions.xml"
    file.write_text('<?xml version="1.0" ?>\n' + node("Series", doc))
    instructions = ParamContainer(path_file=str(file))
    uvmat.tidy_uvmat_instructions(instructions)
    return instructions


# mode: (base, index and extension of the input table, couple, names of the images)
MODES = {
    "series(Di)": (("im", "_01", ".png"), "Di= 0|1 :dt= 1", lambda i, j: f"im_{i:02}.png"),
    "pair j1-j2": (("c", "001a", ".png"), "j= a-b", lambda i, j: f"c{i:03}{' abc'[j]}.png"),
    "series(Dj)": (("im", "_1-1", ".png"), "Dj= 0|1 :dt= 1", lambda i, j: f"im_{i}-{j}.png"),
}
CIV1 = {"SearchBoxSize": "55\t55"}
FIX1 = {"MinCorr": 0.2}


def couples(eng, mode, ni=6, nj=1):
    """images of the couples"""
    table, pair, name = MODES[mode]
    tmp = Path(tempfile.mkdtemp(prefix="verif_uvmat_"))
    try:
        images = tmp / "Images"
        images.mkdir()
        for i in range(1, ni + 1):
            for j in range(1, nj + 1):
                (images / name(i, j)).touch()
        # other files
        (images / "other_01.png").touch()
        n = ni if mode != "series(Dj)" else nj
        top = n if mode == "pair j1-j2" else n - 1
        first = int(eng.int("first", 1, top))
        last = int(eng.int("last", 1, top))
        eng.assume(first <= last)
        incr = eng.choice("incr", [1, 2, 3, None])
        fixed = int(eng.int("i", 1, ni)) if mode == "series(Dj)" else None
        k = "j" if mode == "series(Dj)" else "i"
        index_range = {f"first_{k}": first, f"last_{k}": last}
        if incr is not None:
            index_range[f"incr_{k}"] = incr
        if fixed is not None:
            index_range.update(first_i=fixed, last_i=fixed)
        elif nj > 1:
            index_range.update(first_j=1, last_j=nj)
        with sched.quiet():
            doc = document(tmp, mode, table, pair, index_range, Civ1=CIV1, Fix1=FIX1)
            instructions = instructions_of(tmp, doc)
            params = actions_classes["civ_series"].params_from_uvmat_xml(instructions)
            s = params.series
            series = SeriesOfArrays(
                s.path, s.str_subset, ind_start=s.ind_start, ind_stop=s.ind_stop, ind_step=s.ind_step
            )
            got = [tuple(serie.get_name_arrays()) for serie in series]
        steps = range(first, last + 1, incr or 1)
        if mode == "series(Di)":
            expected = [(name(i, 1), name(i + 1, 1)) for i in steps]
        elif mode == "series(Dj)":
            expected = [(name(fixed, j), name(fixed, j + 1)) for j in steps]
        else:
            expected = [(name(i, 1), name(i, 2)) for i in steps]
        eng.check(got == expected, "couples", f"{got} instead of {expected}")
        eng.check(Path(s.path).parent == images, "couples", "directory")
        eng.check(Path(params.saving.path) == tmp / "Images.civ", "saving", f"{params.saving.path}")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def values(eng, passes):
    """numbers"""
    box = int(eng.int("box", 4, 131))
    with sched.run_directory() as path, sched.quiet():
        table, pair, name = MODES["series(Di)"]
        patch = {"FieldSmooth": 2, "MaxDiff": 1.5, "SubDomainSize": 500}
        more = {}
        if "patch1" in passes:
            more["Patch1"] = dict(patch, SubDomainSize=77)
        if "civ2" in passes:
            more["Civ2"] = {"SearchBoxSize": "27\t27"}
            more["Fix2"] = {"MinCorr": 0.7, "MaxVel": 99}
        if "patch2" in passes:
            more["Patch2"] = patch
        fix1 = dict(FIX1)
        if "max" in passes:
            fix1["MaxVel"] = 5
        instructions = instructions_of(Path(path), document(
            path, "series(Di)", table, pair, {"first_i": 1, "last_i": 3, "incr_i": 1},
            Civ1={"SearchBoxSize": f"{box}\t{box + 8}"}, Fix1=fix1, **more))
        a = instructions.action_input
        correl = eng.real("min_corr", 0, 1)
        vel = eng.real("max_vel", 0, 100)
        smooth, diff = eng.real("smooth", 0, 100), eng.real("max_diff", 0, 10)
        size = eng.int("size", 1, 5000)
        a.fix1._set_attrib("min_corr", correl)
        if "max" in passes:
            a.fix1._set_attrib("max_vel", vel)
        if "patch2" in passes:
            a.patch2._set_attribs(
                {"field_smooth": smooth, "max_diff": diff, "sub_domain_size": size})
        params = actions_classes["civ_series"].params_from_uvmat_xml(instructions)
    m = params.multipass
    # search box rounded to an even number of pixels
    eng.check(params.piv0.shape_crop_im0 == box - box % 2, "window", f"{params.piv0.shape_crop_im0}")
    eng.check(m.number == (2 if "civ2" in passes else 1), "number of passes", f"{m.number}")
    eng.check(params.fix.correl_min == correl, "thresholds", "correlation")
    if "max" in passes:
        eng.check(params.fix.displacement_max == vel, "thresholds", "displacement")
    else:
        eng.check(params.fix.displacement_max is None, "thresholds", "no maximum of displacement")
    if "patch2" in passes:
        eng.check(bool(m.use_tps), "splines", "used")
        eng.check(m.smoothing_coef == smooth, "splines", "smoothing")
        eng.check(m.threshold_tps == diff, "splines", "threshold")
        eng.check(m.subdom_size == size, "splines", "subdomains")
    else:
        eng.check(not m.use_tps, "splines", "not used")


def command(eng):
    """command fluidimage.run_from_xml: one computation, mode of the command line"""
    from fluidimage import run_from_xml
    from fluidimage.topologies.piv import TopologyPIV

    events = []

    def init(self, params, *args, **kwargs):
        self.params = params
        events.append(("init", params))

    def compute(self, **kwargs):
        events.append(("compute", kwargs))

    mode = eng.choice("mode", [None, "new_dir", "complete", "recompute", "ask"])
    kind = eng.choice("program", ["uvmat", "fluidimage"])
    how = "recompute"
    kwargs = {}
    saved = TopologyPIV.__init__, TopologyPIV.compute, sys.argv
    with sched.run_directory() as path, sched.quiet():
        path = Path(path)
        if kind == "uvmat":
            table, pair, name = MODES["series(Di)"]
            instructions_of(path, document(
                path, "series(Di)", table, pair, {"first_i": 1, "last_i": 3}, Civ1=CIV1, Fix1=FIX1))
            file = path / "instructions.xml"
        else:
            params = TopologyPIV.create_default_params()
            params.series.path = str(path)
            params.saving.how = how = eng.choice("how", ["ask", "complete", "recompute"])
            number = eng.choice("number", [1, 2, 5])
            params.multipass.number = number
            if eng.bool("kwargs"):
                kwargs = {"executor": "exec_async_sequential", "nb_max_workers": 3}
                params._set_child("compute_kwargs", attribs=kwargs)
            file = path / "params.xml"
            params._save_as_xml(path_file=file)
        TopologyPIV.__init__, TopologyPIV.compute = init, compute
        try:
            sys.argv = ["run", str(file)] + ([] if mode is None else [
                eng.choice("option", ["-m", "--mode"]), mode])
            run_from_xml.main()
        finally:
            TopologyPIV.__init__, TopologyPIV.compute, sys.argv = saved[:3]
    eng.check([e[0] for e in events] == ["init", "compute"], "one computation", f"{events}")
    params = events[0][1]
    eng.check(params.saving.how == (mode or how), "mode", f"{params.saving.how}")
    eng.check(events[-1][1] == kwargs, "arguments", f"{events[-1][1]}")
    if kind == "fluidimage":
        eng.check(params.multipass.number == number, "parameters of the document", "number")
        eng.check(params.series.path == str(path), "parameters of the document", "path")


HARNESSES = [
    Harness(
        command,
        labels=["one computation", "mode", "arguments", "parameters of the document"],
        bounds="all modes, with or without arguments of compute",
        shims=dict(prefix=(), builtins_=False),
        validate=False,
    ),
    Harness(
        couples,
        quick=[dict(mode="series(Di)"), dict(mode="pair j1-j2", ni=5, nj=2),
               dict(mode="series(Dj)", ni=3, nj=5), dict(mode="pair j1-j2", ni=4, nj=3)],
        labels=["couples", "saving"],
        bounds="up to 6 images along an index, any first and last indices, increments 1 to 3 or absent",
        shims=dict(prefix=(), builtins_=False),
        validate=False,
    ),
    Harness(
        values,
        quick=[dict(passes=p) for p in (("max",), ("civ2", "patch2", "patch1"), ("civ2", "max"),
                                        ("patch2", "max", "patch1"), ("patch1",))],
        labels=["window", "number of passes", "thresholds", "splines"],
        bounds="any thresholds and coefficients, search boxes from 4 to 131 pixels",
        shims=dict(builtins_=False),
    ),
]
