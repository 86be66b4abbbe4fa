"""Saved PIV fields are loaded back unchanged.

The real code saves and loads with an in-memory stand-in of h5py whose arrays hold
symbolic values; concrete runs (validation, replay) use the real h5py and real files.
"""

import contextlib
import os
import sys

import fluiddyn.util.paramcontainer
import fluiddyn.util.util
import h5netcdf
import h5py
import numpy as np

import fluidimage.data_objects.piv as piv
from fluidimage import create_object_from_file
from fluidimage.works.piv import WorkPIV

from checks import sched
from symx.core import is_sym, ite, to_real
from symx.runner import Harness

ASSUMPTIONS = [
    "values saved with the precision of float32 (documented); the parameters themselves are "
    "saved by fluiddyn (not part of this repository), which is executed",
    "h5py is replaced by an in-memory stand-in with the groups, attributes, data sets and order "
    "of the keys of HDF5; the models of the paths are run with the real h5py",
    "h5netcdf is replaced by a recorder of the variables",
]


class Attrs(dict):
    def __setitem__(self, key, value):
        if isinstance(value, (bytes, np.bytes_)):
            value = np.bytes_(value)
        elif isinstance(value, (bool, int)):
            value = np.int64(value)
        elif isinstance(value, float):
            value = np.float64(value)
        elif isinstance(value, (list, tuple)):
            value = np.array(value)
        super().__setitem__(key, value)


class Dataset:
    def __init__(self, data):
        if data is None:
            raise TypeError("One of data, shape or dtype must be specified")
        self.data = data.copy() if isinstance(data, np.ndarray) else np.array(data)
        if self.data.dtype.kind == "U":
            raise TypeError("No conversion path for dtype: <U")

    shape = property(lambda self: self.data.shape)
    size = property(lambda self: self.data.size)
    dtype = property(lambda self: self.data.dtype)

    def __getitem__(self, key):
        r = self.data[key]
        return r.copy() if isinstance(r, np.ndarray) else r

    def __iter__(self):
        return iter(self.data)

    def __len__(self):
        return len(self.data)

    def __array__(self, dtype=None, copy=None):
        return self.data


class Group:
    def __init__(self, name, parent):
        self.name, self.parent = name, parent
        self.attrs, self.items_ = Attrs(), {}

    def create_group(self, name):
        self._new(name)
        self.items_[name] = g = Group(self.name.rstrip("/") + "/" + name, self)
        return g

    def require_group(self, name):
        return self.items_[name] if name in self.items_ else self.create_group(name)

    def create_dataset(self, name, data=None, **kw):
        self._new(name)
        self.items_[name] = d = Dataset(data)
        return d

    __setitem__ = create_dataset

    def _new(self, name):
        if name in self.items_:
            raise ValueError("Unable to create (name already exists)")

    def __getitem__(self, name):
        r = self
        if name.startswith("/"):
            while r.parent is not None and r.parent is not r:
                r = r.parent
        for part in name.split("/"):
            if part:
                r = r.items_[part]
        return r

    def get(self, name, default=None):
        return self.items_.get(name, default)

    def __contains__(self, name):
        return name in self.items_

    def keys(self):
        return sorted(self.items_)

    def values(self):
        return [self.items_[k] for k in self.keys()]

    def items(self):
        return [(k, self.items_[k]) for k in self.keys()]

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return len(self.items_)


class FakeH5:
    def __init__(self):
        self.store = store = {}

        class File(Group):
            def __new__(cls, path, mode="r", **kw):
                path = os.path.abspath(str(path))
                if mode[0] in "wx":
                    store[path] = f = object.__new__(cls)
                    Group.__init__(f, "/", None)
                    f.parent = f
                    open(path, "w").close()
                elif path not in store:
                    raise OSError(f"no file {path}")
                return store[path]

            def __init__(self, *args, **kw):
                pass

            def close(self):
                pass

            def __enter__(self):
                return self

            def __exit__(self, *args):
                pass

        self.File, self.Group, self.Dataset = File, Group, Dataset


class FakeNetcdf:
    def __init__(self):
        self.files = {}

    def File(self, path, mode="r", **kw):
        netcdf = self

        class F:
            def __init__(self):
                self.dimensions, self.variables = {}, {}

            def create_variable(self, name, dims=(), dtype=None, data=None, **kw):
                self.variables[name] = Dataset(data)

            def __enter__(self):
                return self

            def __exit__(self, *args):
                pass

        self.files[str(path)] = f = F()
        return f


@contextlib.contextmanager
def storage(eng):
    """directory, with stand-ins for h5py if the run is symbolic"""
    netcdf = FakeNetcdf()
    with sched.run_directory() as path, contextlib.ExitStack() as stack:
        table = {id(h5netcdf): netcdf, id(h5netcdf.File): netcdf.File}
        if eng.symbolic:
            fake = FakeH5()
            table[id(h5py)] = fake
            table[id(h5py.File)] = fake.File
            old = fluiddyn.util.paramcontainer.h5py, sys.modules["h5py"]
            fluiddyn.util.paramcontainer.h5py = sys.modules["h5py"] = fake

            def restore():
                fluiddyn.util.paramcontainer.h5py, sys.modules["h5py"] = old

            stack.callback(restore)
        stack.enter_context(sched.patch_fluidimage(table))
        with sched.quiet():
            yield path, netcdf


# content of a pass: [names of the data sets] (documentation of HeavyPIVResults)
ALWAYS = ["xs", "ys", "deltaxs", "deltays", "correls_max"]
APPROX = ["deltaxs_approx", "deltays_approx", "ixvecs_approx", "iyvecs_approx"]
FINAL = ["deltaxs_final", "deltays_final", "ixvecs_final", "iyvecs_final"]
SMOOTH = ["xs_smooth", "ys_smooth", "deltaxs_smooth", "deltays_smooth"]
INTEGERS = ["xs", "ys", "ixvecs_approx", "iyvecs_approx", "ixvecs_final", "iyvecs_final"]
MESSAGES = [
    "Correlation peak touching boundary.",
    "correl < correl_min",
    "delta2 < displacement_max2",
    "diff neighbour too large",
    "Input displacement is nan.",
    "Bad im_crop shape.",
]
# messages of the different stages are joined in the code
LONG = [
    "Correlation peak touching boundary. + correl < correl_min + delta2 < displacement_max2",
    "Input displacement is nan. + diff neighbour too large + Bad im_crop shape. (première) " * 3,
]


class Content:
    """PIV results with symbolic values"""

    def __init__(self, eng, nb_passes, nb_subdomains=None, errors=(), nan=(), crop=None,
                 absent=None, nb=2):
        self.eng, self.absent = eng, absent
        self.params = WorkPIV.create_default_params()
        self.params.multipass.number = nb_passes
        self.params.multipass.use_tps = nb_subdomains is not None
        self.params.fix.displacement_max = 3.5
        if crop is not None:
            self.params.mask.strcrop = crop
        self.arrays = {}
        names = ("im_01a.png", "im_01b.png")
        self.couple = piv.ArrayCouple(
            names=names,
            arrays=(np.zeros((9, 12)), np.zeros((9, 12))),
            paths=["/data/" + n for n in names],
        )
        self.results = []
        self.tps = {}
        self.nan_keys = nan
        for ip in range(nb_passes):
            last = ip == nb_passes - 1
            for k in ALWAYS + (FINAL if last else APPROX):
                self.array(ip, k, nb)
            if nb_subdomains:
                for k in SMOOTH:
                    self.array(ip, k, nb)
                self.tps[ip] = {
                    k: [eng.real_array(f"{k}{ip}_{i}", 1 + i % 2) for i in range(nb_subdomains)]
                    for k in ("deltaxs_tps", "deltays_tps")
                }
        self.errors = {}
        for ip in range(nb_passes):
            self.errors[ip] = errs = {}
            for i, options in enumerate(errors):
                m = eng.choice(f"error{ip}_{i}", [None, *options])
                if m is not None:
                    errs[i * 3] = m
            self.errors[ip, "deltaxs_wrong"] = {i: eng.real(f"wx{ip}_{i}") for i in errs}
            self.errors[ip, "deltays_wrong"] = {i: eng.real(f"wy{ip}_{i}") for i in errs}
            self.results.append(self.make(ip))

    def array(self, ip, k, nb):
        if k == self.absent:
            return
        name = f"{k}_{ip}"
        if k in INTEGERS:
            a = self.eng.int_array(name, nb, -5, 100)
        else:
            a = self.eng.real_array(name, nb, nan=k in self.nan_keys)
        self.arrays[ip, k] = a

    def make(self, ip):
        a = {k: v.copy() for (i, k), v in self.arrays.items() if i == ip}
        init = {k: a.pop(k, None) for k in ALWAYS}
        r = piv.HeavyPIVResults(
            couple=self.couple, params=self.params, errors=dict(self.errors[ip]), **init
        )
        r.__dict__.update(a)
        r.deltaxs_wrong = dict(self.errors[ip, "deltaxs_wrong"])
        r.deltays_wrong = dict(self.errors[ip, "deltays_wrong"])
        for k, v in self.tps.get(ip, {}).items():
            setattr(r, k, [arr.copy() for arr in v])
        return r

    # -- comparison
    def same(self, loaded, expected, label, what):
        eng = self.eng
        loaded = np.asarray(loaded) if not isinstance(loaded, np.ndarray) else loaded
        eng.check(loaded.shape == expected.shape, label, f"shape of {what}: {loaded.shape}")
        for i, (x, y) in enumerate(zip(loaded.ravel().tolist(), expected.ravel().tolist())):
            eng.check_close(x, y, label, msg=f"{what}[{i}]")

    def check_pass(self, r, ip):
        eng = self.eng
        for k in ALWAYS + APPROX + FINAL + SMOOTH:
            value = getattr(r, k, None)
            expected = self.arrays.get((ip, k))
            if expected is None:
                eng.check(value is None, "data sets", f"{k} of pass {ip} not saved")
                continue
            eng.check(value is not None, "data sets", f"{k} of pass {ip} missing")
            if value is None:
                return
            self.same(value, expected, "data sets", f"{k} of pass {ip}")
        errs = getattr(r, "errors", None)
        eng.check(errs == self.errors[ip], "errors", f"pass {ip}: {errs}")
        for k in ("deltaxs_wrong", "deltays_wrong"):
            got, expected = getattr(r, k, None), self.errors[ip, k]
            ok = got is not None and {int(i) for i in got} == set(expected)
            eng.check(ok, "rejected values", f"pass {ip}")
            if ok:
                for i, v in expected.items():
                    eng.check_close(got[i], v, "rejected values", msg=f"{k}[{i}]")
        for k, arrays in self.tps.get(ip, {}).items():
            got = getattr(r, k, None)
            ok = got is not None and len(got) == len(arrays)
            eng.check(ok, "subdomains", f"{k} of pass {ip}")
            if ok:
                for i, (x, y) in enumerate(zip(got, arrays)):
                    self.same(x, y, "subdomains", f"{k} {i} of pass {ip}")

    def check_common(self, r):
        eng = self.eng
        eng.check(tuple(r.couple.names) == self.couple.names, "couple", "names")
        eng.check(tuple(r.couple.paths) == self.couple.paths, "couple", "paths")
        eng.check(list(r.couple.shape_images) == [9, 12], "couple", "shape")

        def compare(new, old):
            for k in old._key_attribs:
                a, b = new[k], old[k]
                if isinstance(b, (int, float, str, type(None))):
                    eng.check(a == b, "parameters", f"{k}: {a!r} != {b!r}")
            for tag in old._tag_children:
                compare(new[tag], old[tag])

        compare(r.params, self.params)


def multipass(content):
    m = piv.MultipassPIVResults()
    for r in content.results:
        m.append(r)
    m.couple, m.params = content.couple, content.params
    return m


def full(eng, nb_passes, max_subdomains=0, errors=(), nan=(), absent=False, again=False,
         crop=None):
    nb_sub = eng.choice("subdomains", list(range(1, max_subdomains + 1))) if max_subdomains else None
    if absent:
        absent = eng.choice("absent", ["correls_max", *SMOOTH, *FINAL, "xs"])
    with storage(eng) as (path, _):
        content = Content(eng, nb_passes, nb_sub, errors, nan, crop, absent)
        name = multipass(content).save(str(path))
        for i in range(2 if again else 1):
            loaded = piv.MultipassPIVResults(str_path=str(name))
            if i == 0 and again:
                name = loaded.save(str(path / "again.h5"))
        eng.check(len(loaded.passes) == nb_passes, "data sets", "number of passes")
        for ip in range(nb_passes):
            content.check_pass(loaded.passes[ip], ip)
            content.check_pass(getattr(loaded, f"piv{ip}"), ip)
        content.check_common(loaded)
        eng.check(type(create_object_from_file(str(name))) is piv.MultipassPIVResults,
                  "type of the result")


def single(eng, errors=(), nan=()):
    with storage(eng) as (path, _):
        content = Content(eng, 1, None, errors, nan)
        r = content.results[0]
        name = r.save(str(path))
        loaded = piv.HeavyPIVResults(str_path=str(name))
        content.check_pass(loaded, 0)
        content.check_common(loaded)
        eng.check(type(create_object_from_file(str(name))) is piv.HeavyPIVResults,
                  "type of the result")


def precision(eng):
    """at least the precision of float32"""
    with storage(eng) as (path, _):
        content = Content(eng, 2)
        index = eng.choice("index", list(range(5)))
        values = [1234.5678, -98765.4321, 3.1415926e-3, 70000.125, 1e-9]
        for ip, r in enumerate(content.results):
            for k in ("deltaxs", "deltays", "correls_max", ("deltaxs_approx", "deltaxs_final")[ip]):
                value = values[(index + ip + len(k)) % len(values)]
                content.arrays[ip, k] = np.array([value, -value])
                setattr(r, k, content.arrays[ip, k].copy())
        loaded = piv.MultipassPIVResults(str_path=str(multipass(content).save(str(path))))
        for ip in range(2):
            for k in ("deltaxs", "deltays", "correls_max"):
                got = getattr(loaded.passes[ip], k)
                for x, y in zip(got.tolist(), content.arrays[ip, k].tolist()):
                    eng.check(abs(x - y) <= 1e-6 * abs(y), "precision", f"{k}: {x} instead of {y}")


def light(eng, nb_passes, max_subdomains=0, nan=()):
    """field of the requested pass, kept by saving and loading"""
    with storage(eng) as (path, _):
        content = Content(eng, nb_passes, max_subdomains or None, (), nan)
        m = multipass(content)
        if eng.bool("loaded"):
            m = piv.MultipassPIVResults(str_path=m.save(str(path)))
        m.file_name = "piv_01a-b.h5"
        which = eng.choice("which", [-1, *range(nb_passes)])
        result = m.make_light_result() if which == -1 and eng.bool("default") else (
            m.make_light_result(which))
        ip = range(nb_passes)[which]
        kinds = FINAL if ip == nb_passes - 1 else APPROX
        expected = [content.arrays[ip, k] for k in kinds]
        result.save(str(path))
        loaded = piv.LightPIVResults(str_path=str(path / "piv_01a-b_light.h5"))
        for r in (result, loaded):
            for k, e in zip(FINAL, expected):
                content.same(getattr(r, k), e, "light result", k)
        content.check_common(loaded)


def uvmat(eng, nb_passes, nb_subdomains=0, nan=()):
    """variables of the uvmat layout"""
    with storage(eng) as (path, netcdf):
        content = Content(eng, nb_passes, nb_subdomains or None, (), nan)
        m = multipass(content)
        if nb_passes == 1 and eng.bool("loaded"):
            m = piv.MultipassPIVResults(str_path=m.save(str(path / "full.h5")))
        name = str(path / "field.nc")
        m.save(name, out_format="uvmat")
        variables = netcdf.files[name].variables
        for ip in range(nb_passes):
            civ = f"Civ{ip + 1}_"
            values = {k: content.arrays[ip, k] for k in ALWAYS}
            for k, v in (("X", "xs"), ("Y", "ys"), ("C", "correls_max")):
                content.same(variables[civ + k].data, values[v], "uvmat", civ + k)
            missing = [eng_isnan(x) for x in values["deltaxs"].ravel().tolist()]
            for k, v in (("U", "deltaxs"), ("V", "deltays")):
                for i, x in enumerate(values[v].ravel().tolist()):
                    got = variables[civ + k].data[i]
                    eng.check_close(got, 0 if eng_isnan(x) else x, "uvmat", msg=civ + k)
            for i, flag in enumerate(missing):
                eng.check_close(variables[civ + "FF"].data[i], 1 if flag else 0, "uvmat",
                                msg=civ + "FF")
            if nb_subdomains and not any(missing):
                for k, v in (("U_smooth", "deltaxs_smooth"), ("V_smooth", "deltays_smooth")):
                    content.same(variables[civ + k].data, content.arrays[ip, v], "uvmat", civ + k)


def eng_isnan(x):
    if is_sym(x):
        return bool(x.isnan())
    return x != x


NAN = ("deltaxs", "deltays", "deltaxs_approx", "deltays_final", "correls_max")
LABELS = ["data sets", "errors", "rejected values", "couple", "parameters"]
PAIRS = (MESSAGES[:3], MESSAGES[3:])

HARNESSES = [
    Harness(
        full,
        quick=[
            dict(nb_passes=1, errors=PAIRS),
            dict(nb_passes=1, errors=(LONG,)),
            dict(nb_passes=2, nan=NAN, crop="1:7, :"),
            dict(nb_passes=2, max_subdomains=12),
            dict(nb_passes=2, max_subdomains=1, absent=True),
            dict(nb_passes=2, max_subdomains=3, errors=(MESSAGES[:1], MESSAGES[1:2]), again=True),
            dict(nb_passes=12),
        ],
        thorough=[
            dict(nb_passes=2, errors=PAIRS, nan=NAN),
            dict(nb_passes=3, max_subdomains=25),
            dict(nb_passes=3, max_subdomains=3, errors=(MESSAGES[:2],), again=True),
        ],
        labels=LABELS + ["subdomains", "type of the result"],
        bounds="1, 2 or 12 passes, two vectors, any values (also missing), up to two errors, one "
        "data set absent, 1 to 12 subdomains",
        shims=dict(builtins_=False),
    ),
    Harness(
        single,
        quick=[dict(errors=PAIRS), dict(nan=NAN)],
        labels=LABELS + ["type of the result"],
        bounds="two vectors, any values",
        shims=dict(builtins_=False),
    ),
    Harness(
        precision,
        quick=[dict()],
        labels=["precision"],
        bounds="five values with many digits, in any data set, two passes",
        shims=dict(builtins_=False),
    ),
    Harness(
        light,
        quick=[dict(nb_passes=n) for n in (1, 2, 3)]
        + [dict(nb_passes=2, max_subdomains=2, nan=("deltaxs_final", "deltays_approx"))],
        labels=["light result", "couple", "parameters"],
        bounds="1 to 3 passes, any requested pass",
        shims=dict(builtins_=False),
    ),
    Harness(
        uvmat,
        quick=[dict(nb_passes=1, nan=("deltaxs", "deltays")), dict(nb_passes=2, nb_subdomains=1),
               dict(nb_passes=1, nb_subdomains=1, nan=("deltaxs", "deltays")),
               dict(nb_passes=2, nan=("deltaxs",))],
        labels=["uvmat"],
        bounds="1 or 2 passes, two vectors, missing or not",
        shims=dict(builtins_=False),
    ),
]
