"""Deterministic simulation of the braids project (see DESIGN.md)."""
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

_REPO = os.environ.get('SIM_REPO', '/repo')


class _Loader(importlib.machinery.SourceFileLoader):
    """Always compile from the working tree: a stale bytecode file must never hide a change."""

    def get_code(self, fullname):
        return compile(self.get_data(self.path), self.path, 'exec', dont_inherit=True)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != 'peyl' and not name.startswith('peyl.'):
            return None
        base = os.path.join(_REPO, *name.split('.'))
        if os.path.isdir(base):
            f = os.path.join(base, '__init__.py')
            return importlib.util.spec_from_file_location(name, f, loader=_Loader(name, f), submodule_search_locations=[base])
        f = base + '.py'
        if os.path.isfile(f):
            return importlib.util.spec_from_file_location(name, f, loader=_Loader(name, f))
        return None


sys.meta_path.insert(0, _Finder())
