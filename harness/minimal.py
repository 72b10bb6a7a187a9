"""The smallest classes that a user of pcollections.abc can write.

Each defines only the methods that its abstract base class asks for, over a
native collection; everything else is what the base class provides."""
import types

TYPES = ["plist", "tlist", "pset", "tset", "pdict", "tdict"]


def make(pc):
    """A namespace like the library's with the minimal classes in it."""
    import pcollections.abc as A
    put = object.__setattr__

    class plist(A.PersistentSequence):
        __slots__ = ("_c",)

        def __new__(cls, arg=()):
            c = tuple(arg)
            if not c and getattr(cls, "empty", None) is not None:
                return cls.empty
            self = object.__new__(cls)
            put(self, "_c", c)
            return self

        def set(self, index, obj):
            c = list(self._c)
            c[index] = obj
            return plist(c)

        def delete(self, index=-1):
            c = list(self._c)
            del c[index]
            return plist(c)

        def append(self, obj):
            return plist(self._c + (obj,))

        def prepend(self, obj):
            return plist((obj,) + self._c)

        def insert(self, index, obj):
            c = list(self._c)
            c.insert(index, obj)
            return plist(c)

        def clear(self):
            return plist.empty

        def transient(self):
            return tlist(self._c)

        def __iter__(self):
            return iter(self._c)

        def __len__(self):
            return len(self._c)

        def __getitem__(self, i):
            return plist(self._c[i]) if isinstance(i, slice) else self._c[i]

    class tlist(A.TransientSequence):
        def __new__(cls, arg=()):
            self = object.__new__(cls)
            self._c = list(arg)
            return self

        def clear(self):
            self._c.clear()

        def persistent(self):
            return plist(self._c)

        def __iter__(self):
            return iter(list(self._c))

        def __len__(self):
            return len(self._c)

        def __getitem__(self, i):
            return tlist(self._c[i]) if isinstance(i, slice) else self._c[i]

        def __setitem__(self, i, v):
            self._c[i] = v

        def __delitem__(self, i):
            del self._c[i]

        def append(self, obj):
            self._c.append(obj)

        def prepend(self, obj):
            self._c.insert(0, obj)

        def insert(self, index, obj):
            self._c.insert(index, obj)

    class pset(A.PersistentSet):
        __slots__ = ("_c",)

        def __new__(cls, arg=()):
            c = dict.fromkeys(arg)
            if not c and getattr(cls, "empty", None) is not None:
                return cls.empty
            self = object.__new__(cls)
            put(self, "_c", c)
            return self

        def __iter__(self):
            return iter(self._c)

        def __len__(self):
            return len(self._c)

        def __contains__(self, x):
            return x in self._c

        def transient(self):
            return tset(self._c)

        def add(self, obj):
            return self if obj in self._c else pset([*self._c, obj])

        def discard(self, obj):
            if obj not in self._c:
                return self
            c = dict(self._c)
            del c[obj]
            return pset(c)

        def clear(self):
            return pset.empty

    class tset(A.TransientSet):
        def __new__(cls, arg=()):
            self = object.__new__(cls)
            self._c = dict.fromkeys(arg)
            return self

        def __len__(self):
            return len(self._c)

        def __contains__(self, x):
            return x in self._c

        def __iter__(self):
            return iter(list(self._c))

        def add(self, obj):
            self._c.setdefault(obj)

        def discard(self, obj):
            if obj in self._c:
                del self._c[obj]

        def persistent(self):
            return pset(self._c)

        def clear(self):
            self._c.clear()

    def entries(arg, kw):
        c = {}
        if len(arg) > 1:
            raise TypeError("too many arguments")
        if arg:
            for (k, v) in (arg[0].items() if hasattr(arg[0], "items") else arg[0]):
                c[k] = v
        c.update(kw)
        return c

    class pdict(A.PersistentMapping):
        __slots__ = ("_c",)

        def __new__(cls, *arg, **kw):
            c = entries(arg, kw)
            if not c and getattr(cls, "empty", None) is not None:
                return cls.empty
            self = object.__new__(cls)
            put(self, "_c", c)
            return self

        def __len__(self):
            return len(self._c)

        def __iter__(self):
            return iter(self._c)

        def __getitem__(self, k):
            return self._c[k]

        def transient(self):
            return tdict(self._c)

        def set(self, key, val):
            return pdict({**self._c, key: val})

        def drop(self, key, error=False):
            if key not in self._c:
                return self
            c = dict(self._c)
            del c[key]
            return pdict(c)

        def clear(self):
            return pdict.empty

    class tdict(A.TransientMapping):
        def __new__(cls, *arg, **kw):
            self = object.__new__(cls)
            self._c = entries(arg, kw)
            self._v = 0
            return self

        def __len__(self):
            return len(self._c)

        def __iter__(self):
            v = self._v
            for k in list(self._c):
                if v != self._v:
                    raise RuntimeError("changed")
                yield k
            if v != self._v:
                raise RuntimeError("changed")

        def __getitem__(self, k):
            return self._c[k]

        def __setitem__(self, k, v):
            n = len(self._c)
            self._c[k] = v
            if len(self._c) != n:
                self._v += 1

        def __delitem__(self, k):
            del self._c[k]
            self._v += 1

        def persistent(self):
            return pdict(self._c)

        def clear(self):
            self._v += 1
            self._c.clear()

    mine = dict(plist=plist, tlist=tlist, pset=pset, tset=tset, pdict=pdict, tdict=tdict)
    for (n, c) in mine.items():
        c.__module__ = __name__
        c.__qualname__ = c.__name__ = n
        c.__new__.__module__ = __name__
        c.__new__.__qualname__ = n + ".__new__"
        globals()[n] = c
        if n[0] == "p":
            c.empty = c()
    return types.SimpleNamespace(**{n: getattr(pc, n) for n in dir(pc) if not n.startswith("__")
                                    and n not in mine}, **mine)
