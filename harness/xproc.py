"""Reads pickled collections in another process, where strings hash otherwise.

The session sends a collection together with the native list of its items (or
pairs) in one pickle; this process answers what the copy does there: whether
it has that length, gives these items in this order, finds each of them, equals
a collection built there from the same items, hashes like it, and loses one
entry when one is taken away.
"""
import os
import pickle
import struct
import subprocess
import sys
import warnings



def alike(a, b):
    """The same value, after pickling (numbers are not shared in a pickle)."""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, tuple):
        return len(a) == len(b) and all(alike(u, v) for (u, v) in zip(a, b))
    return a == b or repr(a) == repr(b)


def hashed(x):
    try:
        return hash(x)
    except TypeError:
        return None


def look(x, native, persistent):
    """The answers, as 0 and 1; 2 stands for an exception."""
    from collections.abc import Mapping, Set
    ismap = isinstance(x, Mapping)
    isset = isinstance(x, Set)
    own = list(x.items()) if ismap else list(x)

    def items():
        if isset:
            rest = list(own)
            for v in native:
                j = next((j for (j, u) in enumerate(rest) if alike(u, v)), None)
                if j is None:
                    return False
                del rest[j]
            return not rest
        return len(own) == len(native) and all(alike(u, v) for (u, v) in zip(own, native))

    def found():
        if ismap:
            return all(k in x and alike(x[k], v) for (k, v) in own)
        if isset:
            return all(v in x for v in own)
        return all(x[j] is v or alike(x[j], v) for (j, v) in enumerate(own))

    def equal():
        y = type(x)(own)
        return x == y and y == x and not x != y

    def hashes():
        return not persistent or hashed(x) == hashed(type(x)(own))

    def less():
        if not own:
            return True
        if persistent:
            y = x.drop(own[0][0]) if ismap else x.discard(own[0]) if isset else x.delete(0)
        else:
            y = x.copy()
            if ismap:
                del y[own[0][0]]
            elif isset:
                y.discard(own[0])
            else:
                del y[0]
        return len(y) == len(own) - 1 and len(x) == len(own)
    ans = []
    for f in (lambda: len(x) == len(native), items, found, equal, hashes, less):
        try:
            ans.append(1 if f() else 0)
        except Exception:
            ans.append(2)
    return bytes(ans)


class Elsewhere:
    """The other process, started when first needed."""

    def __init__(self):
        self.p = None

    def ask(self, x, native, persistent, protocol):
        data = pickle.dumps((x, native, persistent), protocol)
        if self.p is None:
            env = dict(os.environ, PYTHONHASHSEED="4711", PYTHONPATH=os.pathsep.join(p for p in sys.path if p))
            self.p = subprocess.Popen([sys.executable, os.path.abspath(__file__)], env=env,
                                      stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        try:
            self.p.stdin.write(struct.pack(">q", len(data)) + data)
            self.p.stdin.flush()
            ans = self.p.stdout.read(6)
        except BaseException:
            self.p.kill()
            self.p = None
            raise
        if len(ans) != 6:
            self.p = None
            return [2]
        return list(ans)


def main():
    warnings.simplefilter("ignore")
    (i, o) = (sys.stdin.buffer, sys.stdout.buffer)
    if os.environ.get("PC_ABC"):
        import minimal
        import pcollections
        minimal.make(pcollections)
    while True:
        h = i.read(8)
        if len(h) < 8:
            return
        data = i.read(struct.unpack(">q", h)[0])
        try:
            ans = look(*pickle.loads(data))
        except Exception:
            ans = b"\2" * 6
        o.write(ans)
        o.flush()


if __name__ == "__main__":
    main()
