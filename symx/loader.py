"""Load the package from /repo's current source so that it runs on symbolic
values: same source text, other builtins and other imported modules."""
import builtins
import os
import sys
import types

from . import nps, shims

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
PKG = "climate_indices"
_code = {}
TOOL = 3
seen = set()


def _mon():
    m = sys.monitoring
    if m.get_tool(TOOL) is None:
        m.use_tool_id(TOOL, "symx")

        def start(code, off):
            seen.add((os.path.basename(code.co_filename), code.co_qualname, code.co_firstlineno))
            return m.DISABLE
        m.register_callback(TOOL, m.events.PY_START, start)


def _watch(code):
    m = sys.monitoring
    m.set_local_events(TOOL, code, m.events.PY_START)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            _watch(c)


class Loader:
    def __init__(self, extra=None):
        self.mods = {}
        self.np = nps.NumpyShim()
        self.ext = {"numpy": self.np, "math": shims.MathShim(), "calendar": shims.CalShim(),
                    "datetime": shims.make_datetime(), "logging": shims.make_logging()}
        self.ext["numpy.lib"] = self.np.lib
        self.ext["numpy.lib.stride_tricks"] = self.np.lib.stride_tricks
        self.ext.update(shims.make_scipy())
        self.ext.update(shims.make_distutils())
        if extra:
            self.ext.update(extra)
        self.builtins = shims.make_builtins(self._import)
        _mon()

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = globals["__package__"] if globals else PKG
            for _ in range(level - 1):
                base = base.rpartition(".")[0]
            name = f"{base}.{name}" if name else base
        root = name.split(".")[0]
        if root == PKG:
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f):
                        if self._path(f"{name}.{f}"):
                            setattr(m, f, self.load(f"{name}.{f}"))
                return m
            return self.load(PKG)
        if name in self.ext or root in self.ext:
            if name not in self.ext:
                raise ImportError(f"No module named {name!r} in the model")
            return self.ext[name] if fromlist else self.ext[root]
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def _path(self, name):
        p = os.path.join(SRC, *name.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py")
        if os.path.exists(p + ".py"):
            return p + ".py"
        return None

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        path = self._path(name)
        if path is None:
            raise ModuleNotFoundError(f"No module named {name!r}")
        if "." in name:
            parent = self.load(name.rpartition(".")[0])
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if path.endswith("__init__.py") else name.rpartition(".")[0]
        if path.endswith("__init__.py"):
            m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.builtins
        self.mods[name] = m
        if "." in name:
            setattr(parent, name.rpartition(".")[2], m)
        code = _code.get(path)
        if code is None:
            with open(path) as f:
                code = compile(f.read(), path, "exec", dont_inherit=True)
            _code[path] = code
            _watch(code)
        exec(code, m.__dict__)
        return m
