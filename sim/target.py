"""Loads the code under test from /repo's working tree."""

import importlib
import importlib.machinery
import os
import sys
import types

from . import lines

REPO = os.environ.get('AIUTI_SIM_REPO', '/repo')


class _Loader(importlib.machinery.SourceFileLoader):
    """Compiles from source, always; instruments what it loads."""

    registered = set()

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, 'rb') as f:
            code = compile(f.read(), path, 'exec', dont_inherit=True)
        first = fullname not in _Loader.registered
        _Loader.registered.add(fullname)
        lines.instrument(code, register=first)
        return code


class _Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if not name.startswith('aiuti.'):
            return None
        tail = name.split('.')[1:]
        base = os.path.join(REPO, 'aiuti', *tail)
        for p, pkg in ((base + '.py', False),
                       (os.path.join(base, '__init__.py'), True)):
            if os.path.exists(p):
                spec = importlib.machinery.ModuleSpec(
                    name, _Loader(name, p), origin=p, is_package=pkg)
                spec.has_location = True
                if pkg:
                    spec.submodule_search_locations = [base]
                return spec
        return None


_started = False


def setup():
    global _started
    if _started:
        return
    _started = True
    lines.start()
    sys.meta_path.insert(0, _Finder)
    _package()


def _package():
    pkg = types.ModuleType('aiuti')
    pkg.__path__ = [os.path.join(REPO, 'aiuti')]
    pkg.__version__ = '0'
    sys.modules['aiuti'] = pkg
    return pkg


def load(name):
    setup()
    return importlib.import_module(name)


def fresh(name):
    """A private copy of a module and of every aiuti module it imports."""
    setup()
    saved = {k: v for k, v in sys.modules.items()
             if k == 'aiuti' or k.startswith('aiuti.')}
    for k in saved:
        del sys.modules[k]
    try:
        _package()
        return importlib.import_module(name)
    finally:
        for k in [k for k in sys.modules
                  if k == 'aiuti' or k.startswith('aiuti.')]:
            del sys.modules[k]
        sys.modules.update(saved)
