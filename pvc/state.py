"""Module-level state of the code under contract: every path starts from the state after import.

Containers in module globals, class attributes, default arguments, closures and function attributes; functools caches."""
import importlib
import sys
import types

PREFIX = "aws.osml"
SKIP = ("aws.osml.formats",)


class State:
    def __init__(self, functions=()):
        self.saved, self.caches, self.attrs, self.seen = [], [], [], set()
        for f in functions:
            parts = f.split(".")
            for k in (len(parts) - 1, len(parts) - 2):
                try:
                    importlib.import_module(PREFIX + "." + ".".join(parts[:k]))
                    break
                except Exception:
                    pass
        for name, m in list(sys.modules.items()):
            if m is not None and name.startswith(PREFIX) and not name.startswith(SKIP):
                self.space(m, vars(m), name)

    def space(self, owner, d, mod):
        keep = {k: v for k, v in d.items() if not k.startswith("__pvc")}
        self.attrs.append((owner, keep))
        for k, v in keep.items():
            if k not in ("__builtins__", "__dict__", "__weakref__"):
                self.value(v, mod)

    def value(self, v, mod, depth=0):
        if id(v) in self.seen or depth > 4:
            return
        if isinstance(v, (staticmethod, classmethod)):
            v = v.__func__
        if isinstance(v, property):
            for f in (v.fget, v.fset):
                if f is not None:
                    self.value(f, mod, depth)
            return
        if isinstance(v, type):
            if getattr(v, "__module__", None) == mod:
                self.seen.add(id(v))
                self.space(v, dict(vars(v)), mod)
            return
        if hasattr(v, "cache_clear"):
            self.seen.add(id(v))
            self.caches.append(v)
            return
        if isinstance(v, types.FunctionType):
            if v.__module__ != mod:
                return
            self.seen.add(id(v))
            for x in list(v.__defaults__ or ()) + list((v.__kwdefaults__ or {}).values()) + list(vars(v).values()):
                self.value(x, mod, depth + 1)
            for c in v.__closure__ or ():
                try:
                    x = c.cell_contents
                except ValueError:
                    continue
                if not isinstance(x, type):
                    self.value(x, mod, depth + 1)
            if vars(v):
                self.saved.append((vars(v), dict(vars(v))))
            return
        if isinstance(v, (dict, list, set)):
            self.seen.add(id(v))
            try:
                self.saved.append((v, type(v)(v) if type(v) in (dict, list, set) else v.copy()))
            except Exception:
                return
            for x in list(v.values() if isinstance(v, dict) else v)[:200]:
                if isinstance(x, (dict, list, set)):
                    self.value(x, mod, depth + 1)

    def restore(self):
        for v, old in self.saved:
            if isinstance(v, dict):
                if len(v) != len(old) or any(k not in v or v[k] is not x for k, x in old.items()):
                    v.clear()
                    v.update(old)
            elif isinstance(v, list):
                if len(v) != len(old) or any(a is not b for a, b in zip(v, old)):
                    v[:] = old
            elif len(v) != len(old):
                v.clear()
                v.update(old)
        for c in self.caches:
            try:
                c.cache_clear()
            except Exception:
                pass
        for owner, keep in self.attrs:
            d = vars(owner)
            if len(d) != len(keep) or any(d.get(k) is not v for k, v in keep.items()):
                for k in list(d):
                    if k not in keep and not k.startswith("__"):
                        try:
                            delattr(owner, k)
                        except Exception:
                            pass
                for k, v in keep.items():
                    if not k.startswith("__") and d.get(k) is not v:
                        try:
                            setattr(owner, k, v)
                        except Exception:
                            pass
