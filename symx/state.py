"""Snapshot/restore of the mutable module- and class-level state of the code
under test, so that every path starts from the state right after import."""
import collections
import sys
import types

_ATOM = (str, bytes, int, float, bool, type(None),
         types.ModuleType, types.BuiltinFunctionType)


class Snapshot(object):
    def __init__(self, prefixes, modules=()):
        self.saved = []          # (object, kind, copy)
        self.seen = set()
        self.keep = []
        for name, mod in list(sys.modules.items()):
            if mod is None or (name.split(".")[0] not in prefixes and
                               name not in modules):
                continue
            self._module(mod)

    def _module(self, mod):
        d = mod.__dict__
        self.saved.append((d, "dict", dict(d)))
        for k, v in list(d.items()):
            if k.startswith("__"):
                continue
            self._value(v, mod.__name__)

    def _function(self, f, modname, depth):
        """Mutable defaults, attributes and closure variables."""
        if (f.__module__ or "").split(".")[0] != modname.split(".")[0]:
            return
        self.seen.add(id(f))
        self.keep.append(f)
        for x in f.__defaults__ or ():
            self._value(x, modname, depth - 1)
        for x in (f.__kwdefaults__ or {}).values():
            self._value(x, modname, depth - 1)
        self.saved.append((f.__dict__, "dict", dict(f.__dict__)))
        for x in f.__dict__.values():
            self._value(x, modname, depth - 1)
        for c in f.__closure__ or ():
            try:
                x = c.cell_contents
            except ValueError:
                continue
            if isinstance(x, (list, dict, set, types.FunctionType,
                              collections.deque)):
                self._value(x, modname, depth - 1)
            self.saved.append((c, "cell", x))

    def _value(self, v, modname, depth=6):
        if isinstance(v, _ATOM) or id(v) in self.seen or depth == 0:
            return
        if isinstance(v, (staticmethod, classmethod)):
            v = v.__func__
        if isinstance(v, property):
            for g in (v.fget, v.fset, v.fdel):
                if g is not None:
                    self._value(g, modname, depth)
            return
        if isinstance(v, types.FunctionType):
            if id(v) not in self.seen:
                self._function(v, modname, depth)
            return
        if isinstance(v, type):
            if (getattr(v, "__module__", "") or "").split(".")[0] != \
                    modname.split(".")[0]:
                return
            self.seen.add(id(v))
            items = {k: x for k, x in v.__dict__.items()
                     if not k.startswith("__")}
            self.saved.append((v, "class", items))
            for x in items.values():
                self._value(x, modname, depth - 1)
            return
        if isinstance(v, (list, collections.deque)):
            self.seen.add(id(v))
            self.saved.append((v, "list", list(v)))
            for x in v:
                self._value(x, modname, depth - 1)
        elif isinstance(v, dict):
            self.seen.add(id(v))
            self.saved.append((v, "dict", dict(v)))
            for x in v.values():
                self._value(x, modname, depth - 1)
        elif isinstance(v, set):
            self.seen.add(id(v))
            self.saved.append((v, "set", set(v)))
        elif isinstance(v, tuple):
            for x in v:
                self._value(x, modname, depth - 1)
        else:
            t = type(v)
            if (getattr(t, "__module__", "") or "").split(".")[0] == \
                    modname.split(".")[0] and hasattr(v, "__dict__"):
                self.seen.add(id(v))
                self.saved.append((v, "inst", dict(v.__dict__)))
                for x in v.__dict__.values():
                    self._value(x, modname, depth - 1)
        self.keep.append(v)

    def restore(self):
        for o, kind, c in self.saved:
            if kind == "dict":
                if len(o) != len(c) or any(o.get(k, self) is not x
                                           for k, x in c.items()):
                    o.clear()
                    o.update(c)
            elif kind == "list":
                if len(o) != len(c) or any(a is not b for a, b in zip(o, c)):
                    o.clear()
                    o.extend(c)
            elif kind == "set":
                if o != c:
                    o.clear()
                    o.update(c)
            elif kind == "cell":
                try:
                    same = o.cell_contents is c
                except ValueError:
                    same = False
                if not same:
                    o.cell_contents = c
            elif kind == "inst":
                d = o.__dict__
                if len(d) != len(c) or any(d.get(k, self) is not x
                                           for k, x in c.items()):
                    d.clear()
                    d.update(c)
            else:
                cur = {k: x for k, x in o.__dict__.items()
                       if not k.startswith("__")}
                for k in cur:
                    if k not in c:
                        delattr(o, k)
                for k, x in c.items():
                    if cur.get(k, self) is not x:
                        setattr(o, k, x)
