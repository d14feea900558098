"""Snapshot and restore of the module, class and default-argument state of the code under
test, so that one path leaves nothing behind for the next."""
import sys
import types

_SNAP = None
_BOX = (list, dict, set, bytearray)


def _mods():
    for n, m in list(sys.modules.items()):
        if m is not None and (n == 'gitdb' or n.startswith('gitdb.')):
            yield m


def _copy(x):
    return type(x)(x) if type(x) in (list, dict, set, bytearray) else None


def _refill(x, c):
    if isinstance(x, dict):
        x.clear()
        x.update(c)
    elif isinstance(x, set):
        x.clear()
        x.update(c)
    else:
        x[:] = c


class Snap:
    def __init__(self):
        self.ns = []        # (kind, object, dict copy)
        self.boxes = []     # (container, copy)
        self.caches = []
        seen = set()
        fns = []

        def value(v):
            if id(v) in seen:
                return
            if type(v) in _BOX:
                seen.add(id(v))
                self.boxes.append((v, _copy(v)))
            elif isinstance(v, type) and v.__module__.split('.')[0] == 'gitdb':
                seen.add(id(v))
                self.ns.append(('class', v, dict(v.__dict__)))
                for x in list(v.__dict__.values()):
                    value(x)
            elif isinstance(v, (staticmethod, classmethod)):
                value(v.__func__)
            elif isinstance(v, property):
                for f in (v.fget, v.fset):
                    if f is not None:
                        value(f)
            elif isinstance(v, types.FunctionType):
                seen.add(id(v))
                if v.__module__ and v.__module__.split('.')[0] == 'gitdb':
                    for d in (v.__defaults__ or ()) + tuple((v.__kwdefaults__ or {}).values()):
                        value(d)
                    self.ns.append(('fn', v, dict(v.__dict__)))
                    for c in v.__closure__ or ():
                        try:
                            if type(c.cell_contents) in _BOX:
                                value(c.cell_contents)
                        except ValueError:
                            pass
            elif hasattr(v, 'cache_clear') and callable(getattr(v, 'cache_clear', None)):
                seen.add(id(v))
                self.caches.append(v)
        for m in _mods():
            self.ns.append(('mod', m, dict(vars(m))))
            for v in list(vars(m).values()):
                value(v)

    def restore(self):
        for kind, o, d in self.ns:
            cur = vars(o)
            if len(cur) == len(d) and all(cur.get(k, o) is v for k, v in d.items()):
                continue
            for k in list(cur):
                if k not in d and not (k.startswith('__') and k.endswith('__')):
                    try:
                        delattr(o, k)
                    except (AttributeError, TypeError):
                        pass
            for k, v in d.items():
                if k not in cur or cur[k] is not v:
                    try:
                        setattr(o, k, v)
                    except (AttributeError, TypeError):
                        pass
        for x, c in self.boxes:
            _refill(x, c)
        for f in self.caches:
            f.cache_clear()


def reset():
    global _SNAP
    if _SNAP is None:
        _SNAP = Snap()
    else:
        _SNAP.restore()
