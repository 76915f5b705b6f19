"""
vsym.instrument - loads modules from their current source with every
operation Python doesn't let a class overload routed through vsym.models.

Two modes: "sym" (operations routed, functions recorded) and "yield" (the code
itself unchanged, a scheduling point before every statement).
"""

import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
from typing import Dict, Iterable

SKIP_CALLS = {
    "super",
    "locals",
    "globals",
    "vars",
    "dir",
    "eval",
    "exec",
    "TypeVar",
    "NamedTuple",
}
HOOK = "__vp__"


def hook(name: str) -> ast.expr:
    """An expression for a hook function."""
    return ast.Attribute(ast.Name(HOOK, ast.Load()), name, ast.Load())


class SymTransformer(ast.NodeTransformer):
    """Routes operations through the hooks."""

    def __init__(self, modname: str, yields: bool) -> None:
        self.modname = modname
        self.stack: list = []
        self.temp = 0
        self.yields = yields

    # -- helpers

    def call(self, name, *args):
        return ast.Call(hook(name), list(args), [])

    def fix(self, new, old):
        ast.copy_location(new, old)
        return ast.fix_missing_locations(new)

    def tempname(self):
        self.temp += 1
        return f"__vp_t{self.temp}"

    def index(self, node):
        """Index expression: slices become slice(...) calls."""
        if isinstance(node, ast.Slice):
            none = ast.Constant(None)
            return ast.Call(
                hook("slice"),
                [
                    self.visit(x) if x is not None else none
                    for x in (node.lower, node.upper, node.step)
                ],
                [],
            )
        if isinstance(node, ast.Tuple):
            return ast.Tuple([self.index(x) for x in node.elts], ast.Load())
        return self.visit(node)

    # -- definitions

    def _function(self, node):
        self.stack.append(node.name)
        node.decorator_list = [self.visit(x) for x in node.decorator_list]
        args = node.args
        args.defaults = [self.visit(x) for x in args.defaults]
        args.kw_defaults = [
            None if x is None else self.visit(x) for x in args.kw_defaults
        ]
        name = f"{self.modname}:{'.'.join(self.stack)}"
        body = []
        doc = []
        stmts = node.body
        if (
            stmts
            and isinstance(stmts[0], ast.Expr)
            and isinstance(stmts[0].value, ast.Constant)
            and isinstance(stmts[0].value.value, str)
        ):
            doc, stmts = [stmts[0]], stmts[1:]
        enter = ast.Expr(self.call("enter", ast.Constant(name)))
        body.append(self.fix(enter, node))
        node.body = doc + body + self.block(stmts)
        self.stack.pop()
        return node

    visit_FunctionDef = _function
    visit_AsyncFunctionDef = _function

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        node.decorator_list = [self.visit(x) for x in node.decorator_list]
        node.bases = [self.visit(x) for x in node.bases]
        node.body = self.block(node.body, inside=False)
        self.stack.pop()
        return node

    def visit_Lambda(self, node):
        node.args.defaults = [self.visit(x) for x in node.args.defaults]
        node.body = self.visit(node.body)
        return node

    def block(self, stmts, inside=True):
        out = []
        for stmt in stmts:
            if self.yields and inside and self.stack:
                point = ast.Expr(
                    self.call(
                        "yield_",
                        ast.Constant(f"{self.modname}:{stmt.lineno}"),
                    )
                )
                if not isinstance(
                    stmt, (ast.Nonlocal, ast.Global, ast.Pass, ast.Import)
                ) and not isinstance(
                    getattr(stmt, "value", None), ast.Constant
                ):
                    out.append(self.fix(point, stmt))
            res = self.visit(stmt)
            if isinstance(res, list):
                out += res
            elif res is not None:
                out.append(res)
        return out

    def generic_visit(self, node):
        # statement lists need 'block' for yields
        for field, old in list(ast.iter_fields(node)):
            if isinstance(old, list):
                if old and isinstance(old[0], ast.stmt):
                    setattr(
                        node,
                        field,
                        self.block(old, not isinstance(node, ast.Module)),
                    )
                else:
                    new = []
                    for item in old:
                        if isinstance(item, ast.AST):
                            item = self.visit(item)
                            if item is None:
                                continue
                            if isinstance(item, list):
                                new += item
                                continue
                        new.append(item)
                    setattr(node, field, new)
            elif isinstance(old, ast.AST):
                setattr(node, field, self.visit(old))
        return node

    # -- statements

    def visit_AnnAssign(self, node):
        if node.value is None:
            return node
        node.value = self.visit(node.value)
        if isinstance(node.target, ast.Subscript):
            return self._store(node.target, node.value, node)
        if isinstance(node.target, ast.Attribute):
            node.target.value = self.visit(node.target.value)
        return node

    def _store(self, target, value, node):
        return self.fix(
            ast.Expr(
                self.call(
                    "setitem",
                    self.visit(target.value),
                    self.index(target.slice),
                    value,
                )
            ),
            node,
        )

    def visit_Assign(self, node):
        value = self.visit(node.value)
        if not any(
            isinstance(x, ast.Subscript)
            for t in node.targets
            for x in ast.walk(t)
            if isinstance(getattr(x, "ctx", None), ast.Store)
        ):
            node.value = value
            node.targets = [self._target(t) for t in node.targets]
            return node
        if len(node.targets) == 1 and isinstance(
            node.targets[0], ast.Subscript
        ):
            # evaluation order: value first
            name = self.tempname()
            first = self.fix(
                ast.Assign([ast.Name(name, ast.Store())], value), node
            )
            return [
                first,
                self._store(
                    node.targets[0], ast.Name(name, ast.Load()), node
                ),
            ]
        out = []
        name = self.tempname()
        out.append(
            self.fix(ast.Assign([ast.Name(name, ast.Store())], value), node)
        )
        for target in node.targets:
            out += self._unpack(target, ast.Name(name, ast.Load()), node)
        return out

    def _target(self, target):
        if isinstance(target, ast.Attribute):
            target.value = self.visit(target.value)
        elif isinstance(target, (ast.Tuple, ast.List)):
            target.elts = [self._target(x) for x in target.elts]
        elif isinstance(target, ast.Starred):
            target.value = self._target(target.value)
        return target

    def _unpack(self, target, value, node):
        """Statements for one assignment target."""
        if isinstance(target, ast.Subscript):
            return [self._store(target, value, node)]
        if isinstance(target, (ast.Tuple, ast.List)) and any(
            isinstance(x, ast.Subscript)
            and isinstance(x.ctx, ast.Store)
            for x in ast.walk(target)
        ):
            names, post = [], []
            for elt in target.elts:
                name = self.tempname()
                if isinstance(elt, ast.Starred):
                    names.append(
                        ast.Starred(ast.Name(name, ast.Store()), ast.Store())
                    )
                    elt = elt.value
                else:
                    names.append(ast.Name(name, ast.Store()))
                post += self._unpack(elt, ast.Name(name, ast.Load()), node)
            return [
                self.fix(
                    ast.Assign([ast.Tuple(names, ast.Store())], value), node
                )
            ] + post
        return [self.fix(ast.Assign([self._target(target)], value), node)]

    def visit_AugAssign(self, node):
        value = self.visit(node.value)
        target = node.target
        if isinstance(target, ast.Subscript):
            obj, idx, val = self.tempname(), self.tempname(), self.tempname()
            load = [ast.Name(x, ast.Load()) for x in (obj, idx, val)]
            out = [
                ast.Assign(
                    [ast.Name(obj, ast.Store())], self.visit(target.value)
                ),
                ast.Assign(
                    [ast.Name(idx, ast.Store())], self.index(target.slice)
                ),
                ast.Assign(
                    [ast.Name(val, ast.Store())],
                    self.call("getitem", load[0], load[1]),
                ),
            ]
            if self.yields:
                out.append(
                    ast.Expr(
                        self.call(
                            "yield_",
                            ast.Constant(f"{self.modname}:{node.lineno}+"),
                        )
                    )
                )
            out += [
                ast.AugAssign(ast.Name(val, ast.Store()), node.op, value),
                ast.Expr(self.call("setitem", *load)),
            ]
            return [self.fix(x, node) for x in out]
        if isinstance(target, ast.Attribute):
            if self.yields:
                obj, val = self.tempname(), self.tempname()
                out = [
                    ast.Assign(
                        [ast.Name(obj, ast.Store())],
                        self.visit(target.value),
                    ),
                    ast.Assign(
                        [ast.Name(val, ast.Store())],
                        ast.Attribute(
                            ast.Name(obj, ast.Load()),
                            target.attr,
                            ast.Load(),
                        ),
                    ),
                    ast.Expr(
                        self.call(
                            "yield_",
                            ast.Constant(f"{self.modname}:{node.lineno}+"),
                        )
                    ),
                    ast.AugAssign(
                        ast.Name(val, ast.Store()), node.op, value
                    ),
                    ast.Assign(
                        [
                            ast.Attribute(
                                ast.Name(obj, ast.Load()),
                                target.attr,
                                ast.Store(),
                            )
                        ],
                        ast.Name(val, ast.Load()),
                    ),
                ]
                return [self.fix(x, node) for x in out]
            target.value = self.visit(target.value)
        node.value = value
        return node

    def visit_Delete(self, node):
        out = []
        for target in node.targets:
            if isinstance(target, ast.Subscript):
                out.append(
                    ast.Expr(
                        self.call(
                            "delitem",
                            self.visit(target.value),
                            self.index(target.slice),
                        )
                    )
                )
            else:
                out.append(ast.Delete([target]))
        return [self.fix(x, node) for x in out]

    def _loop(self, node):
        if isinstance(node.target, ast.Subscript):
            raise SyntaxError("subscript loop target")
        node.target = self._target(node.target)
        node.iter = self.visit(node.iter)
        node.body = self.block(node.body)
        node.orelse = self.block(node.orelse)
        return node

    visit_For = _loop
    visit_AsyncFor = _loop

    # -- expressions

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in SKIP_CALLS:
            node.args = [self.visit(x) for x in node.args]
            node.keywords = [self.visit(x) for x in node.keywords]
            return node
        func = self.visit(node.func)
        new = ast.Call(
            hook("call"),
            [func] + [self.visit(x) for x in node.args],
            [self.visit(x) for x in node.keywords],
        )
        return self.fix(new, node)

    def visit_Subscript(self, node):
        if isinstance(node.ctx, ast.Load):
            return self.fix(
                self.call(
                    "getitem", self.visit(node.value), self.index(node.slice)
                ),
                node,
            )
        node.value = self.visit(node.value)
        node.slice = (
            self.visit(node.slice)
            if not isinstance(node.slice, ast.Slice)
            else node.slice
        )
        return node

    def visit_Compare(self, node):
        if len(node.ops) == 1 and isinstance(
            node.ops[0], (ast.In, ast.NotIn)
        ):
            name = (
                "contains"
                if isinstance(node.ops[0], ast.In)
                else "not_contains"
            )
            item = self.visit(node.left)
            where = self.visit(node.comparators[0])
            # evaluation order: item, then container
            return self.fix(self.call("r_" + name, item, where), node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Eq, ast.NotEq)):
            return self.fix(
                self.call(
                    "eq" if isinstance(node.ops[0], ast.Eq) else "ne",
                    self.visit(node.left),
                    self.visit(node.comparators[0]),
                ),
                node,
            )
        return self.generic_visit(node)

    def visit_UnaryOp(self, node):
        if isinstance(node.op, ast.Not):
            return self.fix(
                self.call("not_", self.visit(node.operand)), node
            )
        return self.generic_visit(node)

    def visit_BinOp(self, node):
        if isinstance(node.op, ast.Mod):
            return self.fix(
                self.call("mod", self.visit(node.left), self.visit(node.right)),
                node,
            )
        return self.generic_visit(node)

    def visit_JoinedStr(self, node):
        parts = []
        for val in node.values:
            if isinstance(val, ast.Constant):
                parts.append(val)
            else:
                spec = (
                    ast.Constant("")
                    if val.format_spec is None
                    else self.visit(val.format_spec)
                )
                parts.append(
                    ast.Tuple(
                        [
                            self.visit(val.value),
                            ast.Constant(val.conversion),
                            spec,
                        ],
                        ast.Load(),
                    )
                )
        return self.fix(self.call("fstr", *parts), node)

    def visit_DictComp(self, node):
        pairs = ast.ListComp(
            ast.Tuple([node.key, node.value], ast.Load()), node.generators
        )
        ast.copy_location(pairs, node)
        return self.fix(self.call("mkdict", self.generic_visit(pairs)), node)

    def visit_SetComp(self, node):
        items = ast.ListComp(node.elt, node.generators)
        ast.copy_location(items, node)
        return self.fix(self.call("mkset", self.generic_visit(items)), node)

    def visit_Dict(self, node):
        if all(x is None or isinstance(x, ast.Constant) for x in node.keys):
            return self.generic_visit(node)
        pairs = []
        for key, val in zip(node.keys, node.values):
            pairs.append(
                ast.Tuple(
                    [
                        ast.Constant(None) if key is None else self.visit(key),
                        self.visit(val),
                        ast.Constant(key is None),
                    ],
                    ast.Load(),
                )
            )
        return self.fix(
            self.call("mkdict3", ast.List(pairs, ast.Load())), node
        )

    def visit_Set(self, node):
        if any(isinstance(x, ast.Starred) for x in node.elts):
            return self.generic_visit(node)
        items = ast.List([self.visit(x) for x in node.elts], ast.Load())
        return self.fix(self.call("mkset", items), node)

    def visit_NamedExpr(self, node):
        node.value = self.visit(node.value)
        return node

    def visit_arguments(self, node):
        return node


class YieldTransformer(SymTransformer):
    """Only adds scheduling points."""

    def visit_Call(self, node):
        return self.generic_visit(node)

    def visit_Subscript(self, node):
        return self.generic_visit(node)

    visit_Compare = visit_Call
    visit_DictComp = visit_Call
    visit_SetComp = visit_Call
    visit_Dict = visit_Call
    visit_Set = visit_Call
    visit_UnaryOp = visit_Call
    visit_BinOp = visit_Call
    visit_JoinedStr = visit_Call

    def visit_Assign(self, node):
        return self.generic_visit(node)

    def visit_AnnAssign(self, node):
        return node

    def visit_Delete(self, node):
        return node

    def _store(self, target, value, node):
        raise AssertionError


def compile_source(path: str, modname: str, mode: str):
    """Compile a module's current source."""
    with open(path, "rb") as src:
        source = src.read()
    tree = ast.parse(source, path)
    if mode != "plain":
        cls = YieldTransformer if mode == "yield" else SymTransformer
        trans = cls(modname, mode in ("yield", "symyield"))
        tree.body = [
            x if not isinstance(x, list) else x
            for x in trans.block(tree.body, inside=False)
        ]
        ast.fix_missing_locations(tree)
    return compile(tree, path, "exec", dont_inherit=True)


class Loader(importlib.abc.Loader):
    """Loads one instrumented module."""

    def __init__(self, path: str, mode: str, hooks) -> None:
        self.path = path
        self.mode = mode
        self.hooks = hooks

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code = compile_source(self.path, module.__name__, self.mode)
        module.__dict__[HOOK] = self.hooks
        exec(code, module.__dict__)  # pylint: disable=exec-used


class Finder(importlib.abc.MetaPathFinder):
    """Finds the modules to instrument."""

    def __init__(self, roots: Dict[str, str], mode: str, hooks) -> None:
        self.roots = roots
        self.mode = mode
        self.hooks = hooks
        self.modes: Dict[str, str] = {}

    def find_spec(self, fullname, path=None, target=None):
        root = fullname.split(".")[0]
        if root not in self.roots:
            return None
        rel = fullname.replace(".", os.sep)
        base = os.path.join(self.roots[root], rel)
        mode = self.modes.get(fullname, self.mode)
        for cand, pkg in (
            (os.path.join(base, "__init__.py"), True),
            (base + ".py", False),
        ):
            if os.path.isfile(cand):
                spec = importlib.util.spec_from_file_location(
                    fullname,
                    cand,
                    loader=Loader(cand, mode, self.hooks),
                    submodule_search_locations=(
                        [os.path.dirname(cand)] if pkg else None
                    ),
                )
                return spec
        return None


def install(roots: Dict[str, str], mode: str, hooks) -> Finder:
    """Start instrumenting imports."""
    finder = Finder(roots, mode, hooks)
    sys.meta_path.insert(0, finder)
    sys.dont_write_bytecode = True
    return finder
