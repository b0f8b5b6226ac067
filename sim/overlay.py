"""Imports the code under test straight from the repository's working tree.

The installed layout merges python/torch_mlir and projects/pt1/python/torch_mlir
into one package; the finder below does the same without writing anything, and
serves stand-ins for the native modules (MLIR bindings) that do not exist here.
"""

import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from . import core

sys.dont_write_bytecode = True

ROOTS = {
    "torch_mlir": [
        os.path.join(core.REPO, "python"),
        os.path.join(core.REPO, "projects/pt1/python"),
    ],
    "torch_mlir_e2e_test": [os.path.join(core.REPO, "projects/pt1/python")],
    "e2e_testing": [os.path.join(core.REPO, "projects/pt1")],
}

# fn(path) -> AST transformer or None, applied to what is loaded from now on
TRANSFORM = None

# fullname -> module factory(name) for stand-ins
FAKES = {}
_CODE = {}


class _FileLoader(importlib.machinery.SourceFileLoader):
    """Source loader which keeps code objects, so that re-imports are cheap."""

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        code = _CODE.get(path)
        if code is None:
            with open(path, "rb") as f:
                code = f.read()
            transform = TRANSFORM(path) if TRANSFORM is not None else None
            if transform is not None:
                code = transform(compile(code, path, "exec", ast.PyCF_ONLY_AST, dont_inherit=True))
            code = compile(code, path, "exec", dont_inherit=True)
            _CODE[path] = code
        return code


class _FakeLoader(importlib.abc.Loader):
    def create_module(self, spec):
        return FAKES[spec.name](spec.name)

    def exec_module(self, module):
        pass


class OverlayFinder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        top = fullname.partition(".")[0]
        if top not in ROOTS:
            return None
        if fullname in FAKES:
            return importlib.machinery.ModuleSpec(fullname, _FakeLoader())
        rel = fullname.replace(".", os.sep)
        dirs, init = [], None
        for root in ROOTS[top]:
            d = os.path.join(root, rel)
            if os.path.isfile(d + ".py"):
                return importlib.util.spec_from_file_location(
                    fullname, d + ".py", loader=_FileLoader(fullname, d + ".py")
                )
            if os.path.isdir(d):
                dirs.append(d)
                i = os.path.join(d, "__init__.py")
                if init is None and os.path.isfile(i):
                    init = i
        if init:
            return importlib.util.spec_from_file_location(
                fullname,
                init,
                loader=_FileLoader(fullname, init),
                submodule_search_locations=dirs,
            )
        if dirs:
            spec = importlib.machinery.ModuleSpec(fullname, None, is_package=True)
            spec.submodule_search_locations = dirs
            return spec
        return None


_installed = False


def install():
    global _installed
    if not _installed:
        sys.meta_path.insert(0, OverlayFinder())
        _installed = True


def load_file(name, relpath):
    """A fresh module from a file of the repository that is in no package."""
    path = os.path.join(core.REPO, relpath)
    loader = _FileLoader(name, path)
    spec = importlib.util.spec_from_file_location(name, path, loader=loader)
    mod = importlib.util.module_from_spec(spec)
    sys.modules[name] = mod
    spec.loader.exec_module(mod)
    return mod


def is_target_module(name):
    return name.partition(".")[0] in ROOTS


def detach_target_modules():
    """Take the target's modules out of sys.modules and return them."""
    taken = {}
    for n in [n for n in sys.modules if is_target_module(n)]:
        taken[n] = sys.modules.pop(n)
    return taken


def attach_target_modules(mods):
    detach_target_modules()
    sys.modules.update(mods)
