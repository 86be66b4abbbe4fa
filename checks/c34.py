"""Chain of preprocessing tools: enabled ones only, once, in order, with their parameters."""

import inspect

import numpy as np

from fluidimage.works.preproc import WorkPreproc, _toolbox_cv, _toolbox_py
from fluidimage.works.preproc.toolbox import PreprocToolsCV, PreprocToolsPy

from symx.core import SymBool, is_sym
from symx.runner import Harness

ASSUMPTIONS = [
    "the tools themselves are recorders (C33 for what they compute)",
    "params.tools.sequence contains names of tools",
]

BACKENDS = {
    "python": (PreprocToolsPy, _toolbox_py),
    "opencv": (PreprocToolsCV, _toolbox_cv),
}


class Recorders:
    """replace the tools in the module and in the class"""

    def __init__(self, backend):
        self.cls, self.module = BACKENDS[backend]
        self.calls = []
        # wrapped functions: arguments known by the signature
        self.signatures = {
            name: inspect.signature(getattr(self.module, name)) for name in self.module.__all__
        }

    def __enter__(self):
        self.saved = []
        for name in self.module.__all__:
            recorder = self.make(name)
            for owner in (self.module, self.cls):
                self.saved.append((owner, name, owner.__dict__[name]))
                setattr(owner, name, recorder)
        return self

    def make(self, name):
        signature = self.signatures[name]

        def recorder(*args, **kwargs):
            bound = signature.bind(*args, **kwargs)
            bound.apply_defaults()
            arguments = dict(bound.arguments)
            img = arguments.pop("img")
            out = ("image", len(self.calls))
            self.calls.append((name, img, arguments, out))
            return out

        # the default parameters are taken from the signature
        recorder.__signature__ = signature
        recorder.__name__ = name
        recorder.__doc__ = getattr(self.module, name).__doc__
        return recorder

    def __exit__(self, *args):
        for owner, name, old in self.saved:
            setattr(owner, name, old)


def defaults(signature):
    return {k: p.default for k, p in signature.parameters.items() if k != "img"}


def chain(eng, backend, sequence=None, max_enabled=2, modified=1):
    """what is called"""
    rec = Recorders(backend)
    params = WorkPreproc.create_default_params(backend=backend)
    names = list(rec.module.__all__)
    tools = params.tools
    eng.check(list(tools.available_tools) == names, "available tools")
    expected_arguments = {}
    for name in names:
        attribs = {k: getattr(tools[name], k) for k in defaults(rec.signatures[name])}
        eng.check(attribs == defaults(rec.signatures[name]), "default parameters", name)
        eng.check(tools[name].enable is False, "default parameters", f"{name} enabled")
        expected_arguments[name] = attribs
    order = names
    if sequence:
        # any sequence of this length of tools, also repeated
        order = [eng.choice(f"tool{i}", names[: sequence[1]]) for i in range(sequence[0])]
        tools.sequence = order if eng.bool("list") else tuple(order)
    enabled = {}
    count = 0
    for name in names[: sequence[1]] if sequence else names:
        flag = eng.bool(f"enable_{name}")
        if count == max_enabled:
            eng.assume(~flag if is_sym(flag) else not flag)
            flag = False
        flag = bool(flag)
        count += flag
        enabled[name] = flag
        tools[name].enable = flag
    # a parameter modified
    on = [n for n, f in enabled.items() if f and expected_arguments[n]]
    for i in range(min(modified, len(on))):
        name = eng.choice(f"modified{i}", on)
        keys = list(expected_arguments[name])
        key = eng.choice(f"key{i}", keys)
        value = eng.int(f"value{i}", -1000, 1000)
        setattr(tools[name], key, value)
        expected_arguments[name] = {**expected_arguments[name], key: value}
    with rec:
        image = ("original",)
        result = rec.cls(params).apply(image)
        calls = list(rec.calls)
        # a second image does not depend on the first one
        rec.calls.clear()
        again = rec.cls(params).apply(image)
    expected = [name for name in order if enabled.get(name)]
    for calls, result in ((calls, result), (rec.calls, again)):
        eng.check([c[0] for c in calls] == expected, "enabled tools in order",
                  f"{[c[0] for c in calls]} instead of {expected}")
        current = image
        for name, img, arguments, out in calls:
            eng.check(img == current, "output of the preceding tool", name)
            current = out
            eng.check(set(arguments) == set(expected_arguments[name]), "parameters", name)
            for k, v in expected_arguments[name].items():
                got = arguments.get(k)
                same = got == v if type(got) is not np.ndarray else False
                eng.check(same, "parameters", f"{name}: {k}")
        eng.check(result == current, "result")


HARNESSES = [
    Harness(
        chain,
        quick=[
            dict(backend="python"),
            dict(backend="opencv", max_enabled=4),
            dict(backend="python", sequence=(2, 15), max_enabled=1, modified=0),
            dict(backend="python", sequence=(3, 3), max_enabled=3),
            dict(backend="python", sequence=(1, 4), max_enabled=4),
            dict(backend="opencv", sequence=(3, 4), max_enabled=4, modified=0),
        ],
        thorough=[
            dict(backend="python", max_enabled=3, modified=0),
            dict(backend="python", sequence=(4, 4), max_enabled=4, modified=0),
        ],
        labels=["enabled tools in order", "output of the preceding tool", "parameters", "result",
                "default parameters", "available tools"],
        bounds="up to two enabled tools (thorough three) of the default sequence; all sequences of "
        "two tools, of one or of three of the first three or four tools",
        shims=dict(prefix=(), builtins_=False),
    ),
]
