"""Module- and class-level state of the code under test is put back between
paths, so every path starts from a freshly imported library."""
import sys
import types

from . import loader


def _copyable(v):
    return type(v) in (dict, list, set) or isinstance(v, (dict, list, set))


class Guard(object):
    def __init__(self):
        self.mods, self.classes, self.cells = [], [], []
        seen = set()
        for name in list(loader.SOURCES):
            m = sys.modules.get(name)
            if m is None:
                continue
            self.mods.append((m, dict(m.__dict__)))
            for v in list(m.__dict__.values()):
                self._note(v, seen)
        # the deferred package object differs from the loaded module
        f = sys.modules.get('flatland')
        if f is not None:
            self.mods.append((f, dict(f.__dict__)))

    def _note(self, v, seen):
        if id(v) in seen:
            return
        seen.add(id(v))
        if isinstance(v, type):
            if v.__module__ in loader.SOURCES:
                self.classes.append((v, dict(v.__dict__)))
                for x in list(v.__dict__.values()):
                    self._note(x, seen)
        elif type(v).__name__ == 'OrderedDict' or _copyable(v):
            if v is not sys.modules and not isinstance(
                    v, types.ModuleType):
                try:
                    self.cells.append((v, type(v) is list and list(v) or
                                       (dict(v) if isinstance(v, dict)
                                        else set(v) if isinstance(v, set)
                                        else list(v))))
                except Exception:
                    pass
        elif type(v).__module__ in loader.SOURCES and hasattr(v, '__dict__'):
            d = v.__dict__
            self.cells.append((d, dict(d)))
            for x in list(d.values()):
                if _copyable(x) and type(x) in (dict, list, set):
                    self._note(x, seen)

    def restore(self):
        for m, d in self.mods:
            cur = m.__dict__
            if len(cur) != len(d) or any(
                    cur.get(k, self) is not v for k, v in d.items()):
                for k in list(cur):
                    if k not in d:
                        del cur[k]
                cur.update(d)
        for c, d in self.classes:
            cur = c.__dict__
            for k in list(cur):
                if k not in d and k not in ('__abstractmethods__',):
                    try:
                        type.__delattr__(c, k)
                    except (AttributeError, TypeError):
                        pass
            for k, v in d.items():
                if cur.get(k, self) is not v:
                    try:
                        type.__setattr__(c, k, v)
                    except (AttributeError, TypeError):
                        pass
        for v, saved in self.cells:
            if isinstance(v, dict):
                if dict(v) is not saved and not _same(v, saved):
                    dict.clear(v)
                    dict.update(v, saved)
            elif isinstance(v, set):
                if len(v) != len(saved) or not (v <= saved):
                    v.clear()
                    v.update(saved)
            else:
                if len(v) != len(saved) or any(
                        a is not b for a, b in zip(v, saved)):
                    v[:] = saved


def _same(a, b):
    if dict.__len__(a) != len(b):
        return False
    for k, v in dict.items(a):
        if b.get(k, _same) is not v:
            return False
    return True
