"""Loads the modules of /repo from source.

Each simulated process gets module objects of its own (load_set), executed from
code objects compiled once, so that the monitoring events set on the code
objects serve every process.
"""
import builtins
import os
import sys
import types

from . import env

SKIP = {"worker", "textbox_get_example", "materials_converter"}
CODES = {}          # module name -> code object
REPO_CODES = []     # every code object of the repository, nested ones included
_real_import = builtins.__import__


def _nested(code):
    yield code
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            yield from _nested(c)


def compile_all():
    for f in sorted(os.listdir(env.SRC)):
        name, ext = os.path.splitext(f)
        if ext != ".py" or name.endswith("_setup") or name == "textbox_get_example":
            continue
        path = os.path.join(env.SRC, f)
        with open(path, "rb") as fh:
            CODES[name] = compile(fh.read(), path, "exec", dont_inherit=True)
    for name, code in CODES.items():
        REPO_CODES.extend(_nested(code))


class ModuleSet:
    """the repository's modules as one process sees them"""

    def __init__(self):
        self.mods = {}
        self.builtins = dict(vars(builtins))
        self.builtins["__import__"] = self._import

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0 and name in CODES:
            return self.load(name)
        return _real_import(name, globals, locals, fromlist, level)

    def load(self, name):
        m = self.mods.get(name)
        if m is None:
            m = types.ModuleType(name)
            m.__file__ = CODES[name].co_filename
            m.__builtins__ = self.builtins
            self.mods[name] = m
            try:
                exec(CODES[name], m.__dict__)
            except BaseException:
                del self.mods[name]
                raise
        return m

    def run_main(self, name):
        """run a script as __main__ (top-level code, as `python name.py` does)"""
        m = types.ModuleType("__main__")
        m.__file__ = CODES[name].co_filename
        m.__builtins__ = self.builtins
        exec(CODES[name], m.__dict__)
        return m


def setup():
    """build, compile, and import third-party dependencies once"""
    so = env.build_ext()
    if sys.path[0] != so:
        sys.path.insert(0, so)
    if env.SRC not in sys.path:
        sys.path.append(env.SRC)    # packages below it, importlib
    compile_all()
    s = ModuleSet()
    for name in CODES:
        if name not in SKIP:
            s.load(name)
    return s
