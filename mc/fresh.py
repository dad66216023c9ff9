"""State that lives outside of objects (globals of modules, attributes of classes, default arguments, caches): every
execution starts with what it was right after the import, as in a new process.  (What runs in one process do to each other
is the business of C26, whose executions consist of several runs.)"""

import enum
import pathlib
import sys
import types
from collections import OrderedDict, defaultdict, deque

SIMPLE = (int, float, str, bytes, tuple, frozenset, type(None), pathlib.PurePath)
CONTAINERS = (dict, list, set, deque, defaultdict, OrderedDict)


class Fresh:
    def __init__(self, package):
        self.owners = []
        self.values = []
        self.conts = []
        self.caches = []
        self.shared = []
        seen = set()
        for name, mod in list(sys.modules.items()):
            if mod is not None and (name == package or name.startswith(package + ".")):
                self._owner(mod, package, seen)

    def _owner(self, owner, package, seen):
        if id(owner) in seen:
            return
        seen.add(id(owner))
        names = []
        for name, v in list(vars(owner).items()):
            names.append(name)
            if name.startswith("__") and name.endswith("__"):
                continue
            if isinstance(v, type):
                if v.__module__.split(".")[0] == package and not issubclass(v, enum.Enum):
                    self._owner(v, package, seen)
            elif type(v) in CONTAINERS:
                self.values.append((owner, name, v))
                self._container(v)
            elif isinstance(v, SIMPLE):
                self.values.append((owner, name, v))
            elif hasattr(v, "get_lock") and hasattr(v, "value"):  # shared between processes
                self.shared.append((v, v.value))
            f = getattr(v, "__func__", v)
            if hasattr(f, "cache_clear"):
                self.caches.append(f)
                f = getattr(f, "__wrapped__", f)
            if isinstance(f, types.FunctionType) and f.__module__ and f.__module__.split(".")[0] == package:
                for d in list(f.__defaults__ or ()) + list((f.__kwdefaults__ or {}).values()):
                    if type(d) in CONTAINERS:
                        self._container(d)
        self.owners.append((owner, frozenset(names)))

    def _container(self, c):
        self.conts.append((c, list(c.items()) if isinstance(c, dict) else list(c)))

    def restore(self):
        for owner, names in self.owners:
            d = vars(owner)
            if len(d) != len(names):
                for name in [n for n in d if n not in names]:
                    v = d[name]
                    if not (name.startswith("__") and name.endswith("__")) and (
                            type(v) in CONTAINERS or isinstance(v, SIMPLE)):
                        delattr(owner, name)
        for owner, name, v in self.values:
            if vars(owner).get(name, self) is not v:
                setattr(owner, name, v)
        for c, was in self.conts:
            if len(c) or was:
                c.clear()
                (c.update if isinstance(c, (dict, set)) else c.extend)(was)
        for f in self.caches:
            f.cache_clear()
        for v, was in self.shared:
            v.value = was
