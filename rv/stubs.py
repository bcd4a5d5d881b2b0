"""Empty stand-ins for packages that are not installed and that nothing under test calls (torch, ray, sklearn)."""
import importlib.abc
import importlib.machinery
import importlib.util
import sys
import types

MISSING = ('torch', 'ray', 'sklearn')


class _Meta(type):
    def __getattr__(cls, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return _stub(name)


def _stub(name):
    return _Meta(name, (), {})


class _Module(types.ModuleType):
    __path__ = []

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return _stub(name)


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, names):
        self.names = names

    def find_spec(self, fullname, path=None, target=None):
        if fullname.split('.')[0] in self.names:
            return importlib.machinery.ModuleSpec(fullname, self, is_package=True)
        return None

    def create_module(self, spec):
        return _Module(spec.name)

    def exec_module(self, module):
        pass


def install():
    names = [n for n in MISSING if n not in sys.modules and importlib.util.find_spec(n) is None]
    if names:
        sys.meta_path.append(_Finder(names))
