"""Symbolic text: a string of concrete length whose characters are symbolic code points (every value within [lo, hi])."""
from __future__ import annotations

from . import engine as E
from . import shims


class SymStr(str):
    """Supports what prompts and names are put through: case, strip, comparison, membership, slicing. Anything else concretises."""

    def __new__(cls, codes):
        self = super().__new__(cls, "\ufffd" * len(codes))
        self.codes = list(codes)
        return self

    @staticmethod
    def of(x):
        if isinstance(x, SymStr):
            return x.codes
        return [ord(c) for c in x]

    def _eq(self, other):
        if not isinstance(other, str):
            return False
        a, b = self.codes, SymStr.of(other)
        if len(a) != len(b):
            return False
        r = True
        for x, y in zip(a, b):
            r = shims._land(r, x == y)
        return r

    def __eq__(self, other):
        return self._eq(other)

    def __ne__(self, other):
        return shims._lnot(self._eq(other))

    def __hash__(self):
        raise E.Unsupported("hash of symbolic text")

    def __bool__(self):
        return bool(self.codes)

    def lower(self):
        return SymStr([E.ite(shims._land(c >= 65, c <= 90), c + 32, c) if E.is_sym(c) else ord(chr(c).lower()) for c in self.codes])

    casefold = lower

    def upper(self):
        return SymStr([E.ite(shims._land(c >= 97, c <= 122), c - 32, c) if E.is_sym(c) else ord(chr(c).upper()) for c in self.codes])

    @staticmethod
    def _space(c):
        r = False
        for k in (32, 9, 10, 11, 12, 13):
            r = shims._lor(r, c == k)
        return bool(r)

    def lstrip(self, chars=None):
        c = list(self.codes)
        while c and (SymStr._space(c[0]) if chars is None else bool(shims._lor(False, SymStr([c[0]])._in(chars)))):
            c = c[1:]
        return SymStr(c)

    def rstrip(self, chars=None):
        c = list(self.codes)
        while c and (SymStr._space(c[-1]) if chars is None else bool(shims._lor(False, SymStr([c[-1]])._in(chars)))):
            c = c[:-1]
        return SymStr(c)

    def strip(self, chars=None):
        return self.lstrip(chars).rstrip(chars)

    def _in(self, hay):
        """This text occurs in hay."""
        h, n = SymStr.of(hay), len(self.codes)
        r = False
        for i in range(len(h) - n + 1):
            r = shims._lor(r, self._eq(SymStr(h[i : i + n])))
        return r

    def __contains__(self, x):
        return bool(SymStr(SymStr.of(x))._in(self))

    def startswith(self, p, *a):
        if a:
            raise E.Unsupported("startswith with bounds")
        ps = p if isinstance(p, tuple) else (p,)
        return any(bool(SymStr(self.codes[: len(q)])._eq(q)) for q in ps)

    def endswith(self, p, *a):
        if a:
            raise E.Unsupported("endswith with bounds")
        ps = p if isinstance(p, tuple) else (p,)
        return any(len(q) <= len(self.codes) and bool(SymStr(self.codes[len(self.codes) - len(q) :])._eq(q)) for q in ps)

    def __getitem__(self, k):
        c = self.codes[k]
        return SymStr(c if isinstance(k, slice) else [c])

    def __iter__(self):
        return (SymStr([c]) for c in self.codes)

    def __len__(self):
        return len(self.codes)

    def __add__(self, o):
        return SymStr(self.codes + SymStr.of(o))

    def __radd__(self, o):
        return SymStr(SymStr.of(o) + self.codes)

    def concrete(self):
        return "".join(chr(int(c)) for c in self.codes)

    def __str__(self):
        return self

    def __format__(self, spec):
        return "<text>"

    def __repr__(self):
        return "<text>"

    def isdigit(self):
        return bool(self.codes) and all(bool(shims._land(c >= 48, c <= 57)) for c in self.codes)


def _unsup(name):
    def f(self, *a, **k):
        raise E.Unsupported(f"str.{name} of symbolic text")

    return f


for _n in ("split", "rsplit", "replace", "partition", "rpartition", "title", "capitalize", "swapcase", "find", "index", "count", "encode", "join", "translate", "isalpha", "isalnum", "isspace", "splitlines", "removeprefix", "removesuffix", "__lt__", "__le__", "__gt__", "__ge__", "__mul__", "__mod__"):
    setattr(SymStr, _n, _unsup(_n))
