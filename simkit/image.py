"""Isolated copies ("images") of the spaudiopy package: one per simulated process.

The source is read from the repository's working tree, compiled once per interpreter, and executed into fresh module
objects for every image.  Code objects keep the repository path (for tracing); `__file__` points into the simulated
file system root, so that everything the package locates relative to itself is simulated.
"""
import sys
import os
import types
import importlib.util
import importlib.machinery

PKG = 'spaudiopy'


class Sources:
    def __init__(self, repo):
        self.repo = os.path.abspath(repo)
        self.dir = os.path.join(self.repo, PKG)
        self.code = {}

    def path(self, name):
        rel = name.split('.')[1:]
        base = os.path.join(self.dir, *rel)
        if os.path.isdir(base):
            p = os.path.join(base, '__init__.py')
            return (p, True) if os.path.exists(p) else (None, False)
        if os.path.exists(base + '.py'):
            return base + '.py', False
        return None, False

    def get(self, name):
        if name not in self.code:
            p, is_pkg = self.path(name)
            if p is None:
                return None
            with _real_open(p, 'rb') as f:
                src = f.read()
            self.code[name] = (compile(src, p, 'exec', dont_inherit=True), p, is_pkg)
        return self.code[name]


_real_open = open


class Loader:
    def __init__(self, finder, name):
        self.finder = finder
        self.name = name

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code, path, is_pkg = self.finder.sources.get(self.name)
        root = self.finder.root or self.finder.sources.repo
        module.__file__ = os.path.join(root, os.path.relpath(path, self.finder.sources.repo))
        exec(code, module.__dict__)


class Finder:
    def __init__(self, sources):
        self.sources = sources
        self.root = None          # simulated checkout root (holds data/)

    def find_spec(self, name, path=None, target=None):
        if name != PKG and not name.startswith(PKG + '.'):
            return None
        c = self.sources.get(name)
        if c is None:
            return None
        NAMES.add(name)
        spec = importlib.machinery.ModuleSpec(name, Loader(self, name), origin=c[1], is_package=c[2])
        if c[2]:
            root = self.root or self.sources.repo
            spec.submodule_search_locations = [os.path.dirname(
                os.path.join(root, os.path.relpath(c[1], self.sources.repo)))]
        return spec


NAMES = {PKG}         # every package module ever looked up


def pkg_modules():
    return {k: sys.modules[k] for k in sorted(NAMES) if k in sys.modules}


def switch_to(mods):
    """Make `mods` the visible package."""
    sm = sys.modules
    for k in NAMES:
        if k in mods:
            sm[k] = mods[k]
        else:
            sm.pop(k, None)


class Image:
    """Namespace of one simulated process."""

    def __init__(self):
        self.mods = {}

    def load(self):
        """Fresh import in the calling context; leaves the image visible."""
        switch_to({})
        try:
            __import__(PKG)
        finally:
            self.mods = pkg_modules()
        return self

    @property
    def spa(self):
        return self.mods[PKG]

    def capture(self):
        self.mods = pkg_modules()
