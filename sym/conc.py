"""Concrete replay context: the same harness on the real code, real numpy, the interpreter histbook runs under."""
import os
import sys


class Skip(BaseException):
    pass


class ConcCtx(object):
    symbolic = False
    REL = 1e-9

    def __init__(self, hb, np, cfg, model):
        self.hb, self.np, self.cfg, self.model = hb, np, cfg, model
        self.failures = []
        self.checks = 0
        self.stubs = []
        self.coarse = False

    def _get(self, name, default):
        v = self.model.get(name, default)
        if isinstance(v, dict) and "f" in v:
            s = v["f"]
            return float(s) if s in ("nan", "inf", "-inf") else float.fromhex(s)
        return v

    def real(self, name, lo=-8, hi=8, g=4, nan=False, inf=False):
        return float(self._get(name, max(lo, min(hi, 0.0))))

    def int(self, name, lo, hi):
        return int(self._get(name, max(lo, min(hi, 0))))

    def boolean(self, name):
        return bool(self._get(name, False))

    def text(self, name, n, alphabet=None):
        return str(self._get(name, (alphabet or "a")[0] * n))

    def word(self, s):
        return s

    def pickled(self, x, protocol=2):
        import pickle
        return pickle.loads(pickle.dumps(x, protocol))

    def jsontext(self, x):
        import json
        return json.loads(json.dumps(x))

    def matches(self, name, pattern):
        import fnmatch
        return fnmatch.fnmatchcase(name, pattern)

    def choose(self, name, options):
        return list(options)[self._get(name, 0)]

    def array(self, values, dtype=None):
        return self.np.array(list(values), dtype)

    def land(self, *xs): return all(bool(x) for x in xs)
    def lor(self, *xs): return any(bool(x) for x in xs)
    def lnot(self, x): return not bool(x)
    def implies(self, a, b): return (not bool(a)) or bool(b)
    def iff(self, a, b): return bool(a) == bool(b)
    def eq(self, a, b): return self._s(a) == self._s(b)
    def lt(self, a, b): return self._s(a) < self._s(b)
    def le(self, a, b): return self._s(a) <= self._s(b)
    def isnan(self, a): return a != a
    def isinf(self, a): return a in (float("inf"), -float("inf"))
    def isfinite(self, a): return a == a and not self.isinf(a)

    def _s(self, x):
        return x.item() if hasattr(x, "item") and hasattr(x, "dtype") else x

    def same(self, a, b):
        a, b = self._s(a), self._s(b)
        try:
            if a == b or (a != a and b != b):
                return True
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                return abs(a - b) <= self.REL * max(1.0, abs(a), abs(b)) and abs(a) != float("inf") and abs(b) != float("inf")
        except TypeError:
            pass
        return False

    def close(self, a, b, tol=1e-9, scale=1.0):
        a, b = self._s(a), self._s(b)
        if a == b or (a != a and b != b):
            return True
        return abs(a - b) <= tol * max(scale, abs(a), abs(b)) and abs(a) != float("inf") and abs(b) != float("inf")

    def ite(self, c, a, b): return a if c else b

    def sum(self, xs):
        out = 0.0
        for x in xs:
            out = out + self._s(x)
        return out

    def ideal(self): pass

    def assume(self, c):
        if not bool(c):
            raise Skip()

    def check(self, c, msg):
        self.checks += 1
        if not bool(c):
            self.failures.append(msg)
            return False
        return True

    def decide(self, c): return bool(c)

    def fail(self, msg):
        self.failures.append(msg)

    def isnumber(self, x):
        import numbers
        return isinstance(x, (numbers.Real, self.np.number, self.np.bool_))

    def issym(self, x): return False
    def scalar(self, x): return self._s(x)
    def permute_sets(self, n):
        """the real code with the set orders of the model: `set` in histbook's modules is a set that iterates as told"""
        picks = self.model.get("setorder", {})

        class ScriptedSet(set):
            def __iter__(self):
                items = list(set.__iter__(self))
                try:
                    items.sort(key=lambda x: (str(type(x)), repr(x), str(x)))
                except Exception:
                    pass
                return iter([items.pop(i) for i in picks.get(" ".join(repr(x) for x in items), [])] + items)

            def pop(self):
                for x in self:
                    self.discard(x)
                    return x
                raise KeyError("pop from an empty set")

            def copy(self): return ScriptedSet(set.copy(self))
            def union(self, *o): return ScriptedSet(set.union(self, *o))
            def intersection(self, *o): return ScriptedSet(set.intersection(self, *o))
            def difference(self, *o): return ScriptedSet(set.difference(self, *o))
        for name, m in list(sys.modules.items()):
            if name.split(".")[0] == "histbook" and m is not None:
                m.set = ScriptedSet

    def done(self):
        for name, m in list(sys.modules.items()):
            if name.split(".")[0] == "histbook" and m is not None:
                m.__dict__.pop("set", None)
    def fork_index(self): pass

    def stub(self, name, module):
        self.stubs.append((name, sys.modules.get(name)))
        sys.modules[name] = module

    def unstub(self, name):
        for n, old in list(self.stubs):
            if n == name:
                if old is None:
                    sys.modules.pop(n, None)
                else:
                    sys.modules[n] = old

    def isarray(self, x): return isinstance(x, self.np.ndarray)
    def shares(self, a, b): return bool(self.np.shares_memory(a, b)) if a.size and b.size else False
    def snapshot(self, arr): return [self._s(x) for x in arr.reshape(-1)]
    def shape(self, arr): return tuple(arr.shape)
