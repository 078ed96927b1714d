"""Symbolic strings of known length.

A symbolic character is a z3 integer; in the text of a SymStr it is a private-use character, so that the interpreter's
own string operations (concatenation, slicing, join, format) carry it along. Comparisons ask the solver and fork.
"""
import ast
import fnmatch as real_fnmatch
import types

import z3

from . import engine as E
from . import values as V

BASE = 0xE000


def code(ch):
    o = ord(ch)
    if o >= BASE and o < BASE + 6400:
        return E.cur().chars[o - BASE]
    return o


def new(name, n, alphabet):
    """n arbitrary characters of the alphabet (a string, or None for any printable but the opening bracket)"""
    e = E.cur()
    text = ""
    vs = []
    for i in range(n):
        v = z3.Int("chr_%s_%d" % (name, i))
        if alphabet is None:
            e.solver.add(v >= 33, v <= 126, v != ord("["))
        else:
            e.solver.add(z3.Or(*[v == ord(c) for c in alphabet]))
        text += chr(BASE + len(e.chars))
        e.chars.append(v)
        vs.append(v)
    e.inputs.append((name, lambda m: "".join(chr(m.eval(v, model_completion=True).as_long()) for v in vs)))
    return SymStr(text)


def same(a, b):
    """z3 condition (or True/False) that two texts are equal"""
    if len(a) != len(b):
        return False
    out = []
    for x, y in zip(str.__iter__(a), str.__iter__(b)):
        if x == y:
            continue
        p, q = code(x), code(y)
        if isinstance(p, int) and isinstance(q, int):
            return False
        out.append(p == q)
    return z3.And(*out) if len(out) > 1 else out[0] if out else True


def decide(c):
    if c is True or c is False:
        return c
    return V.PYBOOL(V.mkbool(c))


def either(cs):
    cs = [c for c in cs if c is not False]
    if any(c is True for c in cs):
        return True
    return z3.Or(*cs) if cs else False


def both(*cs):
    if any(c is False for c in cs):
        return False
    cs = [c for c in cs if c is not True]
    return z3.And(*cs) if cs else True


def neg(c):
    return (not c) if c is True or c is False else z3.Not(c)


class SymStr(str):
    __slots__ = ()

    def __hash__(self):
        return 0

    def __eq__(self, o):
        return decide(same(self, o)) if isinstance(o, str) else False

    def __ne__(self, o):
        return not self.__eq__(o)

    def _less(self, o, eq):
        for x, y in zip(str.__iter__(self), str.__iter__(o)):
            if x == y or decide(same(x, y)):
                continue
            return decide(code(x) < code(y))
        return len(self) < len(o) or (eq and len(self) == len(o))

    def __lt__(self, o): return self._less(o, False)
    def __le__(self, o): return self._less(o, True)
    def __gt__(self, o): return not self._less(o, True)
    def __ge__(self, o): return not self._less(o, False)

    def __str__(self):
        return self

    def __format__(self, spec):
        if spec not in ("", "s"):
            raise E.Unsupported("format of a symbolic string")
        return str.__getitem__(self, slice(None))

    def __add__(self, o):
        return SymStr(str.__add__(self, o)) if isinstance(o, str) else NotImplemented

    def __radd__(self, o):
        return SymStr(str.__add__(o, self)) if isinstance(o, str) else NotImplemented

    def __mul__(self, n): return SymStr(str.__mul__(self, n))

    def __getitem__(self, i): return SymStr(str.__getitem__(self, i))

    def __iter__(self):
        for c in str.__iter__(self):
            yield SymStr(c)

    def _at(self, sub, i):
        return same(str.__getitem__(self, slice(i, i + len(sub))), sub) if i + len(sub) <= len(self) else False

    def __contains__(self, sub):
        return decide(either([self._at(sub, i) for i in range(len(self) - len(sub) + 1)]))

    def find(self, sub, start=0, end=None):
        start, end, _ = slice(start, end).indices(len(self))
        for i in range(start, end - len(sub) + 1):
            if decide(self._at(sub, i)):
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        start, end, _ = slice(start, end).indices(len(self))
        for i in range(end - len(sub), start - 1, -1):
            if decide(self._at(sub, i)):
                return i
        return -1

    def index(self, *a):
        i = self.find(*a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def rindex(self, *a):
        i = self.rfind(*a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            raise E.Unsupported("split at white space")
        out, rest = [], self
        while maxsplit != 0:
            i = rest.find(sep)
            if i < 0:
                break
            out.append(rest[:i])
            rest = rest[i + len(sep):]
            maxsplit -= 1
        return out + [rest]

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            raise E.Unsupported("split at white space")
        out, rest = [], self
        while maxsplit != 0:
            i = rest.rfind(sep)
            if i < 0:
                break
            out.insert(0, rest[i + len(sep):])
            rest = rest[:i]
            maxsplit -= 1
        return [rest] + out

    def partition(self, sep):
        i = self.find(sep)
        return (self, SymStr(""), SymStr("")) if i < 0 else (self[:i], SymStr(sep), self[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        return (SymStr(""), SymStr(""), self) if i < 0 else (self[:i], SymStr(sep), self[i + len(sep):])

    def startswith(self, p, *a):
        if a:
            return self[slice(*a)].startswith(p)
        return any(decide(self._at(x, 0)) for x in (p if isinstance(p, tuple) else (p,)))

    def endswith(self, p, *a):
        if a:
            return self[slice(*a)].endswith(p)
        return any(len(x) <= len(self) and decide(self._at(x, len(self) - len(x))) for x in (p if isinstance(p, tuple) else (p,)))

    def count(self, sub, *a):
        if a or not sub:
            raise E.Unsupported("count")
        return len(self.split(sub)) - 1

    def replace(self, old, new, n=-1):
        if not old:
            raise E.Unsupported("replace nothing")
        return SymStr(str.join(new, self.split(old, n)))

    def lstrip(self, chars=None):
        s = self
        while len(s) and decide(either([same(s[0], c) for c in (chars or " \t\n\r\x0b\x0c")])):
            s = s[1:]
        return s

    def rstrip(self, chars=None):
        s = self
        while len(s) and decide(either([same(s[-1], c) for c in (chars or " \t\n\r\x0b\x0c")])):
            s = s[:-1]
        return s

    def strip(self, chars=None):
        return self.lstrip(chars).rstrip(chars)

    def join(self, xs):
        return SymStr(str.join(self, list(xs)))


    def _mapped(self, f, g):
        """character by character: f on characters, g on symbolic codes (printable ASCII)"""
        e = E.cur()
        out = ""
        for ch in str.__iter__(self):
            v = code(ch)
            if isinstance(v, int):
                out += f(ch)
            else:
                out += chr(BASE + len(e.chars))
                e.chars.append(g(v))
        return SymStr(out)

    def lower(self):
        return self._mapped(str.lower, lambda v: z3.If(z3.And(v >= 65, v <= 90), v + 32, v))

    def upper(self):
        return self._mapped(str.upper, lambda v: z3.If(z3.And(v >= 97, v <= 122), v - 32, v))

    def swapcase(self):
        return self._mapped(str.swapcase, lambda v: z3.If(z3.And(v >= 97, v <= 122), v - 32, z3.If(z3.And(v >= 65, v <= 90), v + 32, v)))

    def casefold(self):
        return self._mapped(str.casefold, lambda v: z3.If(z3.And(v >= 65, v <= 90), v + 32, v))

    def capitalize(self):
        return SymStr(str.__add__(self[:1].upper(), self[1:].lower()))


def _unsupported(name):
    def f(self, *a, **k):
        raise E.Unsupported("str.%s of a symbolic string" % name)
    return f


for _n in ("center", "encode", "expandtabs", "format", "format_map", "isalnum", "isalpha", "isascii", "isdecimal", "isdigit", "isidentifier",
           "islower", "isnumeric", "isprintable", "isspace", "istitle", "isupper", "ljust", "maketrans", "rjust", "splitlines", "title", "translate",
           "zfill", "removeprefix", "removesuffix"):
    setattr(SymStr, _n, _unsupported(_n))


# ------------------------------------------------------------------ source-level hooks: str methods of plain strings on symbolic ones

def hydrate(x):
    if type(x) is str and any(BASE <= ord(c) < BASE + 6400 for c in x):
        return SymStr(x)
    return x


def isin(a, b):
    if type(b) is str and isinstance(a, SymStr):
        return SymStr(b).__contains__(a)
    return a in b


class Rewrite(ast.NodeTransformer):
    """semantics-preserving: x.join(y), x.format(y), x % y, f-strings and x in y go through hooks that know symbolic strings"""

    def hook(self, node):
        return ast.copy_location(ast.Call(ast.Name("__hydrate__", ast.Load()), [node], []), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Attribute) and node.func.attr in ("join", "format"):
            return self.hook(node)
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        return self.hook(node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        return self.hook(node) if isinstance(node.op, ast.Mod) else node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            call = ast.copy_location(ast.Call(ast.Name("__isin__", ast.Load()), [node.left, node.comparators[0]], []), node)
            return call if isinstance(node.ops[0], ast.In) else ast.copy_location(ast.UnaryOp(ast.Not(), call), node)
        return node


def rewrite(source, path):
    tree = Rewrite().visit(ast.parse(source, path))
    ast.fix_missing_locations(tree)
    return tree


# ------------------------------------------------------------------ fnmatch

def _match(n, p):
    if len(p) == 0:
        return len(n) == 0
    c, rest = p[0], p[1:]
    pc = code(c)
    one = len(n) > 0
    if isinstance(pc, int):
        if c == "*":
            return either([_match(n[i:], rest) for i in range(len(n) + 1)])
        if c == "?":
            return both(one, _match(n[1:], rest)) if one else False
        if c == "[":
            j = 1
            if j < len(p) and p[j] == "!":
                j += 1
            if j < len(p) and p[j] == "]":
                j += 1
            while j < len(p) and p[j] != "]":
                j += 1
            if j < len(p):
                body, rest = p[1:j], p[j + 1:]
                if not one:
                    return False
                if any(not isinstance(code(x), int) for x in body):
                    raise E.Unsupported("symbolic character class")
                inside = either([same(n[0], chr(k)) for k in range(33, 127) if real_fnmatch.fnmatchcase(chr(k), "[" + body + "]")])
                return both(inside, _match(n[1:], rest))
        return both(same(n[0], c), _match(n[1:], rest)) if one else False
    star = either([_match(n[i:], rest) for i in range(len(n) + 1)])
    tail = _match(n[1:], rest) if one else False
    return either([both(pc == ord("*"), star), both(pc == ord("?"), one, tail), both(pc != ord("*"), pc != ord("?"), same(n[0], c) if one else False, tail)])


def fnmatchcase(name, pat):
    if not isinstance(name, SymStr) and not isinstance(pat, SymStr):
        return real_fnmatch.fnmatchcase(name, pat)
    for c in str.__iter__(pat):
        if not isinstance(code(c), int) and decide(code(c) == ord("[")):
            raise E.Unsupported("symbolic character class")
    return decide(_match(str.__getitem__(name, slice(None)), str.__getitem__(pat, slice(None))))


def fnmatchmod():
    m = types.ModuleType("fnmatch")
    m.fnmatchcase = fnmatchcase
    m.fnmatch = fnmatchcase
    m.filter = lambda names, pat: [n for n in names if fnmatchcase(n, pat)]

    def translate(pat):
        if isinstance(pat, SymStr):
            raise E.Unsupported("fnmatch.translate of a symbolic string")
        return real_fnmatch.translate(pat)
    m.translate = translate
    return m
