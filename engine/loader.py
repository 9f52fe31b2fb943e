"""Loads the package from /repo's working tree with the dependencies replaced.

The text that is executed is the text of the repository; nothing is dropped.  (For the obligations
about loops over sequences of unknown length, loops.py additionally rewrites the syntax tree of
loops and comprehensions; see there.)
"""
import ast
import builtins
import importlib
import os
import sys
import types

from . import stubs

REPO = os.environ.get("ZKSK_REPO", "/repo")
VENV_SITE = "/opt/venv/lib/python3.12/site-packages"

_code = {}


def source_path(name):
    base = os.path.join(REPO, *name.split("."))
    if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
        return os.path.join(base, "__init__.py"), True
    if os.path.exists(base + ".py"):
        return base + ".py", False
    return None, False


def code_for(name, transform):
    key = (name, transform)
    if key not in _code:
        path, pkg = source_path(name)
        if path is None:
            raise ModuleNotFoundError("No module named %r" % name)
        import warnings
        with open(path) as f:
            src = f.read()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tree = ast.parse(src, path)
            if transform is not None:
                tree = transform(tree)
            _code[key] = (compile(tree, path, "exec"), path, pkg)
    return _code[key]


def _petlib_pack_code():
    key = "petlib.pack"
    if key not in _code:
        path = os.path.join(VENV_SITE, "petlib/pack.py")
        with open(path) as f:
            src = f.read()
        _code[key] = (compile(src, path, "exec"), path, False)
    return _code[key]


class World:
    """One instance of the package and its (symbolic) dependencies."""

    def __init__(self, transform=None, extra_builtins=None):
        self.transform = transform
        self.mods = stubs.make_modules()
        b = dict(vars(builtins))
        b["__import__"] = self._import
        b["int"] = stubs.int_
        b["print"] = lambda *a, **k: None
        if extra_builtins:
            b.update(extra_builtins)
        self.builtins = b

    def _exec(self, name, code, path, pkg):
        m = types.ModuleType(name)
        m.__file__ = path
        m.__dict__["__builtins__"] = self.builtins
        if pkg:
            m.__path__ = [os.path.dirname(path)]
            m.__package__ = name
        else:
            m.__package__ = name.rpartition(".")[0]
        self.mods[name] = m
        try:
            exec(code, m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        parent, _, leaf = name.rpartition(".")
        if parent and parent in self.mods:
            setattr(self.mods[parent], leaf, m)
        return m

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if name == "petlib.pack":
            return self._exec(name, *_petlib_pack_code())
        root = name.split(".")[0]
        if root == "zksk":
            parent = name.rpartition(".")[0]
            if parent:
                self.load(parent)
                if name in self.mods:
                    return self.mods[name]
            return self._exec(name, *code_for(name, self.transform))
        if root in ("petlib", "bplib"):
            raise ModuleNotFoundError(name)
        return importlib.import_module(name)

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__")
            parts = pkg.split(".")
            base = ".".join(parts[: len(parts) - level + 1])
            name = base + "." + name if name else base
        root = name.split(".")[0]
        if name in self.mods and root not in ("zksk", "petlib", "bplib"):
            return self.mods[name] if fromlist else self.mods[root]
        if root not in ("zksk", "petlib", "bplib", "hashlib", "secrets", "random"):
            return builtins.__import__(name, globals, locals, fromlist, 0)
        mod = self.load(name)
        if not fromlist:
            return self.load(root)
        for n in fromlist:
            if n != "*" and not hasattr(mod, n) and hasattr(mod, "__path__"):
                try:
                    self.load(name + "." + n)
                except ModuleNotFoundError:
                    pass
        return mod
