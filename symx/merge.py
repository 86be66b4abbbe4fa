"""If-conversion of simple conditional assignments (state merging).

`if c: x = e` with a symbolic condition normally splits the path.  For the functions of
the modules asked by a harness, the code is recompiled from the current source such
that conditionals containing only assignments are executed with merged values
(`x = ite(c, e, x)`) when the condition is symbolic.  When merging is not possible (a
branch is needed in the body, or it raises), the conditional is executed normally, with
a path split.  The transformation keeps the semantics.
"""

from __future__ import annotations

import ast
import inspect
import textwrap
import types

from . import core
from .core import SymBool, ite, is_sym, land, lnot, lor


class MergeFail(Exception):
    pass


class _Undef:
    pass


UNDEF = _Undef()


def _mergeable(c):
    return type(c) is SymBool and core.const_value(c) is None


def _ite(c, new, old):
    if new is old:
        return new
    if new is UNDEF or old is UNDEF:
        raise MergeFail
    if not (core._isnum(new) and core._isnum(old)):
        try:
            if type(new) == type(old) and new == old:
                return new
        except Exception:
            pass
        raise MergeFail
    return ite(c, new, old)


class _NoBranch:
    def __enter__(self):
        eng = core.cur()
        eng.no_branch = getattr(eng, "no_branch", 0) + 1

    def __exit__(self, *exc):
        core.cur().no_branch -= 1


def _and(*fs):
    acc = True
    for f in fs:
        if acc is True or not is_sym(acc):
            v = f()
            if not is_sym(v):
                if not v:
                    return v
                acc = v
                continue
            acc = v
        else:
            if type(acc) is not SymBool:
                if not acc:
                    return acc
                acc = f()
                continue
            try:
                with _NoBranch():
                    v = f()
                    acc2 = land(acc, _tob(v))
            except (MergeFail, ZeroDivisionError, IndexError, ValueError):
                if not acc:
                    return False
                acc = f()
            else:
                acc = acc2
                if acc is False:
                    return False
    return acc


def _tob(v):
    if core._isboolish(v):
        return v
    if core._isnum(v):
        return v != 0
    if v is None or isinstance(v, (str, list, tuple, dict)):
        return bool(v)
    raise MergeFail


def _or(*fs):
    acc = False
    for f in fs:
        if not is_sym(acc):
            if acc:
                return acc
            acc = f()
        else:
            if type(acc) is not SymBool:
                if acc:
                    return acc
                acc = f()
                continue
            try:
                with _NoBranch():
                    v = f()
                    acc2 = lor(acc, _tob(v))
            except (MergeFail, ZeroDivisionError, IndexError, ValueError):
                if acc:
                    return True
                acc = f()
            else:
                acc = acc2
    return acc


def _not(x):
    if type(x) is SymBool:
        return lnot(x)
    return not x


HELPERS = dict(
    __mg_ok=_mergeable,
    __mg_ite=_ite,
    __mg_nb=_NoBranch,
    __mg_undef=UNDEF,
    __mg_and=_and,
    __mg_or=_or,
    __mg_not=_not,
)


def _has(node, types_):
    return any(isinstance(n, types_) for n in ast.walk(node))


class _Tests(ast.NodeTransformer):
    """and / or / not in tests of conditionals, without path split."""

    def _lam(self, node):
        return ast.Lambda(
            args=ast.arguments(
                posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]
            ),
            body=node,
        )

    def visit_BoolOp(self, node):
        self.generic_visit(node)
        if _has(node, (ast.NamedExpr, ast.Await, ast.Yield)):
            return node
        name = "__mg_and" if isinstance(node.op, ast.And) else "__mg_or"
        return ast.Call(
            func=ast.Name(name, ast.Load()),
            args=[self._lam(v) for v in node.values],
            keywords=[],
        )

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return ast.Call(
                func=ast.Name("__mg_not", ast.Load()), args=[node.operand], keywords=[]
            )
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 2 and isinstance(
            node.comparators[0], (ast.Name, ast.Constant, ast.Subscript, ast.Attribute)
        ):
            a = ast.Compare(node.left, [node.ops[0]], [node.comparators[0]])
            b = ast.Compare(node.comparators[0], [node.ops[1]], [node.comparators[1]])
            return ast.Call(
                func=ast.Name("__mg_and", ast.Load()),
                args=[self._lam(a), self._lam(b)],
                keywords=[],
            )
        return node

    def visit_Lambda(self, node):
        return node


class _Conv(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.converted = 0

    # `if c: continue` followed by statements -> `if not c: statements`
    def _no_continue(self, stmts):
        for i, st in enumerate(stmts):
            if (
                isinstance(st, ast.If)
                and not st.orelse
                and len(st.body) == 1
                and isinstance(st.body[0], ast.Continue)
                and stmts[i + 1 :]
            ):
                rest = self._no_continue(stmts[i + 1 :])
                return stmts[:i] + [
                    ast.If(
                        test=ast.UnaryOp(ast.Not(), st.test), body=rest, orelse=[]
                    )
                ]
        return stmts

    def visit_For(self, node):
        node.body = self._no_continue(node.body)
        self.generic_visit(node)
        return node

    visit_While = visit_For

    def _targets(self, stmts):
        """Assigned names and subscripts, or None when not convertible."""
        names, subs = [], []

        def walk(stmts):
            for st in stmts:
                if isinstance(st, ast.Pass):
                    continue
                if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                    continue
                if isinstance(st, ast.Assign) and len(st.targets) == 1:
                    t = st.targets[0]
                    ts = t.elts if isinstance(t, ast.Tuple) else [t]
                elif isinstance(st, ast.AugAssign):
                    ts = [st.target]
                elif isinstance(st, ast.If):
                    if not walk(st.body) or not walk(st.orelse):
                        return False
                    continue
                else:
                    return False
                for t in ts:
                    if isinstance(t, ast.Name):
                        if t.id not in names:
                            names.append(t.id)
                    elif isinstance(t, ast.Subscript):
                        src = ast.unparse(t)
                        if src not in subs:
                            subs.append(src)
                    else:
                        return False
            return True

        if not walk(stmts):
            return None
        # the subscripts must not depend on names assigned here
        for s in subs:
            used = {
                n.id for n in ast.walk(ast.parse(s)) if isinstance(n, ast.Name)
            }
            if used & set(names):
                return None
        if _has(ast.Module(stmts, []), (ast.Await, ast.Yield, ast.NamedExpr)):
            return None
        return names, subs

    def visit_If(self, node):
        if _has(node.test, (ast.NamedExpr, ast.Await, ast.Yield)):
            self.generic_visit(node)
            return node
        targets = self._targets(node.body + node.orelse)
        self.generic_visit(node)
        node.test = _Tests().visit(node.test)
        if targets is None or not (targets[0] or targets[1]):
            return node
        names, subs = targets
        self.converted += 1
        self.n += 1
        k = self.n
        lines = [f"__mg_c{k} = None", f"__mg_done{k} = False"]
        code = []
        code.append(f"if __mg_ok(__mg_c{k}):")
        places = [(f"__n{k}_{i}", n, True) for i, n in enumerate(names)] + [
            (f"__s{k}_{i}", s, False) for i, s in enumerate(subs)
        ]
        for v, p, isname in places:
            code.append("    try:")
            code.append(f"        __mg_old{v} = {p}")
            code.append("    except NameError:")
            code.append(f"        __mg_old{v} = __mg_undef")
        code.append("    try:")
        code.append("        with __mg_nb():")
        code.append("            __BODY__")
        for v, p, isname in places:
            if isname:
                code.append(
                    f"            __mg_new{v} = {p}"
                )
            else:
                code.append(f"            __mg_new{v} = {p}")
            code.append(f"            {p} = __mg_old{v}")
        code.append("            __ORELSE__")
        for v, p, isname in places:
            code.append(
                f"            __mg_new{v} = __mg_ite(__mg_c{k}, __mg_new{v}, {p})"
            )
        for v, p, isname in places:
            code.append(f"        {p} = __mg_new{v}")
        code.append(f"        __mg_done{k} = True")
        code.append("    except Exception:")
        for v, p, isname in places:
            code.append(f"        {p} = __mg_old{v}")
        if not places:
            code.append("        pass")
        code.append(f"if not __mg_done{k}:")
        code.append(f"    if __mg_c{k}:")
        code.append("        __BODY__")
        code.append("    else:")
        code.append("        __ORELSE__")
        tree = ast.parse("\n".join(lines + code))
        import copy

        body, orelse = node.body, node.orelse

        class Sub(ast.NodeTransformer):
            def visit_Expr(self, n):
                if isinstance(n.value, ast.Name):
                    if n.value.id == "__BODY__":
                        return [copy.deepcopy(s) for s in body]
                    if n.value.id == "__ORELSE__":
                        return [copy.deepcopy(s) for s in orelse] or [ast.Pass()]
                return n

        tree = Sub().visit(tree)
        stmts = tree.body
        stmts[0].value = node.test
        return stmts


def convert_function(func):
    """New code object of `func` with merged conditionals, or None."""
    try:
        src = textwrap.dedent(inspect.getsource(func))
        tree = ast.parse(src)
    except (OSError, SyntaxError, TypeError):
        return None
    if len(tree.body) != 1 or not isinstance(tree.body[0], ast.FunctionDef):
        return None
    fdef = tree.body[0]
    if func.__code__.co_freevars:
        return None
    fdef.decorator_list = []
    fdef.returns = None
    for a in fdef.args.args + fdef.args.kwonlyargs + fdef.args.posonlyargs:
        a.annotation = None
    conv = _Conv()
    fdef.body = _visit_list(conv, fdef.body)
    if not conv.converted and "__mg_" not in ast.unparse(tree):
        return None
    ast.fix_missing_locations(tree)
    code = compile(tree, func.__code__.co_filename, "exec")
    for const in code.co_consts:
        if isinstance(const, types.CodeType) and const.co_name == fdef.name:
            if const.co_freevars:
                return None
            return const.replace(
                co_qualname=func.__code__.co_qualname,
                co_firstlineno=func.__code__.co_firstlineno,
            )
    return None


def _visit_list(conv, stmts):
    out = []
    for s in stmts:
        r = conv.visit(s)
        if isinstance(r, list):
            out += r
        elif r is not None:
            out.append(r)
    return out


def functions_of(module):
    for value in list(vars(module).values()):
        f = inspect.unwrap(value) if callable(value) and hasattr(value, "__wrapped__") else value
        if isinstance(f, types.FunctionType) and f.__module__ == module.__name__:
            yield f
        elif isinstance(value, type) and value.__module__ == module.__name__:
            for m in list(vars(value).values()):
                if isinstance(m, (staticmethod, classmethod)):
                    m = m.__func__
                if isinstance(m, types.FunctionType):
                    yield m


class Merged:
    """Context manager: merged conditionals in the functions of some modules."""

    def __init__(self, modules):
        self.modules = modules

    def __enter__(self):
        import importlib

        self.saved = []
        self.globals = []
        for name in self.modules:
            module = importlib.import_module(name)
            for key, value in HELPERS.items():
                module.__dict__[key] = value
            self.globals.append(module)
            for f in functions_of(module):
                code = convert_function(f)
                if code is not None and len(code.co_freevars) == len(
                    f.__code__.co_freevars
                ):
                    self.saved.append((f, f.__code__))
                    f.__code__ = code
        return self

    def __exit__(self, *exc):
        for f, code in self.saved:
            f.__code__ = code
        for module in self.globals:
            for key in HELPERS:
                module.__dict__.pop(key, None)
        return False
