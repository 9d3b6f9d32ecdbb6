"""
Harness contexts and the path explorer.

A harness is one Python function h(ctx).  It is used three ways, always calling the real /repo code:
  * symbolically  (SymCtx): inputs are solver variables, ctx.check() is a solver query over all inputs of the path;
  * concretely    (ConcCtx): inputs are the values of a solver model, no stand-ins installed -- the replay that decides
    whether a counterexample is real, and the validation run of each explored path.
"""

from __future__ import annotations

import inspect
import io
import math
import os
import contextlib
import sys
import time
import traceback
import warnings
from fractions import Fraction

import numpy as np
import z3

from . import engine as E
from . import shims
from .engine import Budget, Infeasible, Path, PathControl, Stats, Sym, SymBool, SymFloat, SymInt, Unsupported

REGISTRY: dict = {}
REPO_ROOT = os.environ.get("SX_REPO", "/repo")
REPO = REPO_ROOT + "/cratermaker"


class HarnessGap(PathControl):
    """The harness cannot follow the code here (a fake object lacks something the code asks for)."""


class Mismatch(Exception):
    """A check failed in concrete mode."""


class Harness:
    def __init__(self, fn, prop, name, **kw):
        self.fn, self.prop, self.name = fn, prop, name
        self.bounds = kw.pop("bounds", "")
        self.max_paths = kw.pop("max_paths", 400)
        self.time = kw.pop("time", 60)  # seconds, quick tier
        self.thorough_only = kw.pop("thorough_only", False)
        self.public = kw.pop("public", True)
        self.prefer_exp = kw.pop("prefer_exp", False)
        self.format_mode = kw.pop("format_mode", "repr")
        self.check_ms = kw.pop("check_ms", 20000)
        self.feas_ms = kw.pop("feas_ms", 2000)
        self.validate = kw.pop("validate", 12)
        self.stubs = kw.pop("stubs", "")
        self.install = kw.pop("install", True)
        self.shard = kw.pop("shard", None)  # (name of a ctx.choice, number of processes to spread it over)
        assert not kw, kw


def harness(prop, name=None, **kw):
    def deco(fn):
        h = Harness(fn, prop, name or fn.__name__, **kw)
        REGISTRY.setdefault(prop, []).append(h)
        return h

    return deco


class Outcome:
    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None


class BaseCtx:
    sym = False
    tier = "quick"

    def __init__(self):
        self._undo = []
        self._n = {}
        self.obs = []

    # ---- patching of collaborators, undone at the end of the run
    def patch(self, obj, name, value):
        if isinstance(obj, dict):
            had, old = name in obj, obj.get(name)
            self._undo.append(lambda: obj.__setitem__(name, old) if had else obj.pop(name, None))
            obj[name] = value
            return
        had = name in vars(obj) if hasattr(obj, "__dict__") else True
        old = None if not had else vars(obj).get(name) if hasattr(obj, "__dict__") else getattr(obj, name, None)
        if had:
            self._undo.append(lambda: setattr(obj, name, old))
        else:
            self._undo.append(lambda: delattr(obj, name))
        setattr(obj, name, value)

    def cleanup(self, fn):
        self._undo.append(fn)

    def close_all(self):
        for f in reversed(self._undo):
            try:
                f()
            except Exception:
                pass
        self._undo = []

    @property
    def np(self):
        return shims.NP if self.sym else np

    @property
    def math(self):
        return shims.MATH if self.sym else math

    def name(self, n):
        """Unique input name for repeated draws."""
        k = self._n.get(n, 0)
        self._n[n] = k + 1
        return n if k == 0 else f"{n}#{k}"

    def text(self, name, maxlen=3, lo=32, hi=126):
        """Any text of at most maxlen printable ASCII characters."""
        from .symstr import SymStr

        n = self.int(name + ".len", 0, maxlen)
        n = n if isinstance(n, int) else E.cur().concretize_int(n)
        cs = [self.int(f"{name}.{i}", lo, hi) for i in range(n)]
        return SymStr(cs) if self.sym else "".join(chr(c) for c in cs)

    def number(self, text):
        """The number a piece of written text stands for."""
        return shims._tofloat(text) if self.sym else float(text)

    def plain_files(self):
        """NetCDF files are written from plain numbers (arrays of the symbolic run are converted; symbolic values are refused)."""
        if not self.sym:
            return
        import xarray as xr

        real = xr.Dataset.to_netcdf

        def plain(a):
            b = np.asarray(a).view(np.ndarray)
            if b.dtype != object:
                return b
            if shims.has_sym(b):
                raise Unsupported("symbolic values written to a file")
            return np.array(b.tolist())

        def to_netcdf(ds, *a, **k):
            new = {}
            for v in list(ds.variables):
                d = ds[v].variable._data
                if isinstance(d, np.ndarray) and (type(d) is not np.ndarray or d.dtype == object):
                    new[v] = (ds[v].dims, plain(d), ds[v].attrs)
            if new:
                ds = ds.copy().assign(new)
            return real(ds, *a, **k)

        self.patch(xr.Dataset, "to_netcdf", to_netcdf)

    def array(self, name, n, lo=None, hi=None, **kw):
        xs = [self.real(f"{name}{i}", lo, hi, **kw) for i in range(n)]
        return shims.sarr(xs) if self.sym else np.array(xs, dtype=float)

    def arr(self, xs):
        return shims.sarr(list(xs)) if self.sym else np.array(list(xs), dtype=float)

    def permutation(self, name, n):
        xs = [self.int(f"{name}{i}", 0, n - 1) for i in range(n)]
        for i in range(n):
            for j in range(i):
                self.assume(xs[i] != xs[j])
        return [int(x) for x in xs]

    def call(self, f, *a, raises=(), **kw):
        """Call code under check; the listed exception types are outcomes, any other one is a crash."""
        try:
            return Outcome(f(*a, **kw))
        except raises as e:
            return Outcome(exc=e)

    def all(self, xs):
        r = True
        for x in xs:
            r = shims._land(r, x)
        return r

    def any(self, xs):
        r = False
        for x in xs:
            r = shims._lor(r, x)
        return r

    def not_(self, x):
        return shims._lnot(x)

    def implies(self, a, b):
        return shims._lor(shims._lnot(a), b)

    def iff(self, a, b):
        return shims._lor(shims._land(a, b), shims._land(shims._lnot(a), shims._lnot(b)))

    def ite(self, c, a, b):
        return E.ite(c, a, b) if isinstance(c, SymBool) else (a if c else b)

    def rng(self, name="rng", **kw):
        return DrawRNG(self, name, **kw)

    def ln(self, x):
        """Natural logarithm of a positive quantity; products, quotients and powers are decomposed symbolically."""
        if E.is_sym(x):
            return E.cur().log(x)
        return math.log(x) if x > 0 else -math.inf

    def near_ln(self, *cs):
        """Put the points (c, ln c) of the logarithm at the solver's disposal."""
        if self.sym:
            for c in cs:
                E.cur().fn("log", E.rv(float(c)))

    def less(self, a, b):
        """a < b for positive quantities, compared on the logarithmic scale."""
        if not E.is_sym(a) and not E.is_sym(b):
            return a < b * (1 + 1e-9)
        return self.ln(a) < self.ln(b)

    def is_multiple(self, x, c, tol=1e-6):
        """x is an integer multiple of the constant c."""
        if E.is_sym(x):
            t = E.lift(x / c)
            return SymBool(z3.ToReal(z3.ToInt(t)) == t)
        x = float(x)
        return abs(x - c * round(x / c)) <= tol

    def same_point(self, lon1, lat1, lon2, lat2, tol=1e-6):
        """(lon1, lat1) and (lon2, lat2), degrees, denote the same point of the sphere."""
        m = self.is_multiple
        direct = self.all([m(lat1 - lat2, 360, tol), m(lon1 - lon2, 360, tol)])
        over = self.all([m(lat1 + lat2 - 180, 360, tol), m(lon1 - lon2 - 180, 360, tol)])
        pole = self.any([
            self.all([m(lat1 - 90, 360, tol), m(lat2 - 90, 360, tol)]),
            self.all([m(lat1 + 90, 360, tol), m(lat2 + 90, 360, tol)]),
        ])
        return self.any([direct, over, pole])


class ConcCtx(BaseCtx):
    """Concrete run on model values; used for replay and for validating explored paths."""

    def __init__(self, values, tier="quick", strict_tol=True):
        super().__init__()
        self.values = values
        self.tier = tier
        self.failures = []
        self.reached = []
        self.discarded = False
        self.used = {}

    def _get(self, name, default):
        v = self.values.get(name, default)
        self.used[name] = v
        return v

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        name = self.name(name)
        d = 0.0 if lo is None and hi is None else (lo + 1.0 if hi is None else (hi - 1.0 if lo is None else (lo + hi) / 2))
        v = float(self._get(name, d))
        # the model value may round across an open bound
        if lo is not None and (v < lo or (lo_open and v <= lo)):
            v = float(np.nextafter(float(lo), np.inf)) if lo_open else float(lo)
        if hi is not None and (v > hi or (hi_open and v >= hi)):
            v = float(np.nextafter(float(hi), -np.inf)) if hi_open else float(hi)
        return v

    def int(self, name, lo, hi):
        return int(self._get(self.name(name), lo))

    def bool(self, name):
        return bool(self._get(self.name(name), False))

    def choice(self, name, options):
        options = list(options)
        return options[int(self._get(self.name(name), 0)) % len(options)]

    def assume(self, cond):
        if not bool(cond):
            self.discarded = True
            raise Infeasible()

    def check(self, cond, label):
        self.reached.append(label)
        if not bool(cond):
            self.failures.append((label, "false"))

    def close(self, a, b, label, rel=1e-6, abs_=1e-9):
        self.reached.append(label)
        a, b = float(a), float(b)
        if not (a == b or abs(a - b) <= abs_ + rel * max(abs(a), abs(b))):
            self.failures.append((label, f"{a!r} != {b!r}"))

    def le(self, a, b, label, rel=1e-9, abs_=1e-12):
        self.reached.append(label)
        a, b = float(a), float(b)
        if not (a <= b or a - b <= abs_ + rel * max(abs(a), abs(b))):
            self.failures.append((label, f"{a!r} > {b!r}"))

    def lt(self, a, b, label, rel=1e-9, abs_=1e-12):
        # rounding may turn a strict inequality of reals into an equality of floats
        self.le(a, b, label, rel, abs_)

    def observe(self, name, value):
        try:
            self.obs.append((name, float(value)))
        except (TypeError, ValueError):
            self.obs.append((name, str(value)))

    def fail(self, label, msg=""):
        self.reached.append(label)
        self.failures.append((label, msg))

    def note(self, s):
        pass


class ManyCandidates(PathControl):
    pass


class SymCtx(BaseCtx):
    sym = True
    many = 0

    def __init__(self, path: Path, tier):
        super().__init__()
        self.p = path
        self.tier = tier
        self.shard = None
        self.cands = []
        self.labels = {}
        self.undecided = []
        self.decided = {}

    def _reg(self, name, const):
        if name in self.p.inputs:
            raise AssertionError(f"duplicate input {name}")
        self.p.inputs[name] = const

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        name = self.name(name)
        c = z3.Real(name)
        self._reg(name, c)
        x = SymFloat(c)
        if lo is not None:
            self.p.assume(x > lo if lo_open else x >= lo)
        if hi is not None:
            self.p.assume(x < hi if hi_open else x <= hi)
        return x

    def int(self, name, lo, hi):
        name = self.name(name)
        c = z3.Int(name)
        self._reg(name, c)
        x = SymInt(c)
        self.p.assume((x >= lo) & (x <= hi))
        return x

    def bool(self, name):
        name = self.name(name)
        c = z3.Bool(name)
        self._reg(name, c)
        return SymBool(c)

    def choice(self, name, options):
        options = list(options)
        i = self.int(name, 0, len(options) - 1)
        if self.shard is not None and self.shard[0] == name:
            self.p.assume(i % self.shard[1] == self.shard[2])
        return options[i if isinstance(i, int) else self.p.concretize_int(i)]

    def assume(self, cond):
        self.p.assume(cond if isinstance(cond, SymBool) else bool(cond))

    def note(self, s):
        self.p.notes.append(s)

    # ---- assertions
    def _query(self, neg, label, margin=None):
        p = self.p
        st = p.stats
        st.obligations += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        p.link_bounds()
        r, m, _ = p._solve([neg], p.check_ms)
        if r == z3.unsat:
            st.discharged += 1
            self.decided[label] = self.decided.get(label, 0) + 1
            return True
        if margin is not None:
            # exact equality failed (or was undecided): only a difference beyond rounding counts
            r2, m2, _ = p._solve([margin], p.check_ms)
            if r2 == z3.unsat:
                st.discharged += 1
                self.decided[label] = self.decided.get(label, 0) + 1
                return True
            neg, r, m = margin, r2, m2
        self.cands.append({"label": label, "neg": neg, "npc": len(p.pc), "status": str(r)})
        self._many()
        return False

    def _many(self):
        """With several obligations refuted on one path, see first whether one of them is real."""
        if self.many and sum(c["status"] == "sat" for c in self.cands) >= self.many:
            raise ManyCandidates

    def check(self, cond, label):
        if not isinstance(cond, SymBool):
            cond = bool(cond)
            self.p.stats.obligations += 1
            self.labels[label] = self.labels.get(label, 0) + 1
            if cond:
                self.p.stats.discharged += 1
                self.decided[label] = self.decided.get(label, 0) + 1
            else:
                self.cands.append({"label": label, "neg": z3.BoolVal(True), "npc": len(self.p.pc), "status": "sat"})
                self._many()
            return
        if not self._query(z3.Not(cond.e), label):
            try:
                self.p.assume(cond)
            except Infeasible:
                raise

    def close(self, a, b, label, rel=1e-6, abs_=1e-9):
        a, b = shims._tofloat(a), shims._tofloat(b)
        if E._is_special(a) or E._is_special(b):
            self.check(not E.is_sym(a) and not E.is_sym(b) and a == b, label)
            return
        if not E.is_sym(a) and not E.is_sym(b):
            self.check(abs(a - b) <= abs_ + rel * max(abs(a), abs(b)), label)
            return
        d = a - b
        neg = E.lift(d) != 0
        tol = abs_ + rel * E.smax(abs(a), abs(b))
        mar = E.lift(abs(d)) > E.lift(tol) * 4
        if not self._query(neg if isinstance(neg, z3.BoolRef) else z3.BoolVal(neg), label, margin=mar):
            self.p.assume(SymBool(z3.Not(mar)))

    def le(self, a, b, label, rel=1e-9, abs_=1e-12):
        self._ineq(a, b, label, rel, abs_, strict=False)

    def lt(self, a, b, label, rel=1e-9, abs_=1e-12):
        self._ineq(a, b, label, rel, abs_, strict=True)

    def _ineq(self, a, b, label, rel, abs_, strict):
        a, b = shims._tofloat(a), shims._tofloat(b)
        c = (a < b) if strict else (a <= b)
        if not isinstance(c, SymBool):
            self.check(bool(c), label)
            return
        if E._is_special(a) or E._is_special(b):
            self.check(c, label)
            return
        tol = abs_ + rel * E.smax(abs(a), abs(b))
        mar = (a - b) > tol * 4
        mar = mar.e if isinstance(mar, SymBool) else z3.BoolVal(bool(mar))
        if not self._query(z3.Not(c.e), label, margin=mar):
            self.p.assume(SymBool(z3.Not(mar)))

    def observe(self, name, value):
        self.obs.append((name, value))

    def fail(self, label, msg=""):
        self.check(False, label)


# ------------------------------------------------------------------------------------------------------ random draws
class DrawRNG(np.random.Generator):
    """Random generator whose every draw is an input: any value of the documented support of the distribution."""

    def __new__(cls, *a, **k):
        return super().__new__(cls)

    def __init__(self, ctx, name="rng", zmax=6.0, pois_max=3):
        super().__init__(np.random.PCG64(1))
        self.ctx, self.nm, self.zmax, self.pois_max = ctx, name, zmax, pois_max
        self.log = []
        self.drawn = []  # values of the scalar uniform and normal draws, in order
        self.normals = []
        self.max_draws = None
        self.only = None  # k -> whether the k-th call of normal() is free; the others return their mean (a stated restriction)
        self.ncalls = 0
        self.max_calls = None

    def _rec(self, v):
        self.drawn.append(v)
        if self.max_draws is not None and len(self.drawn) > self.max_draws:
            self.ctx.assume(False)
        return v

    def __reduce__(self):
        raise HarnessGap("pickled rng")

    def __deepcopy__(self, memo):
        return self

    def _many(self, f, size, *args):
        if size is None and not any(isinstance(x, (np.ndarray, list, tuple)) for x in args):
            return f(*args)
        if size is None:
            bs = np.broadcast_arrays(*[shims._debase(shims.sarr(x)) if isinstance(x, (list, tuple, np.ndarray)) or E.is_sym(x) else np.asarray(x) for x in args])
            out = np.empty(bs[0].shape, dtype=object)
            for i in np.ndindex(out.shape):
                out[i] = f(*[b[i] for b in bs])
        else:
            shape = (int(size),) if not isinstance(size, (tuple, list)) else tuple(int(s) for s in size)
            out = np.empty(shape, dtype=object)
            bs = [np.broadcast_to(shims._debase(shims.sarr(x)), shape) if isinstance(x, (list, tuple, np.ndarray)) else None for x in args]
            for i in np.ndindex(shape):
                out[i] = f(*[x if b is None else b[i] for x, b in zip(args, bs)])
        if self.ctx.sym:
            return out.view(shims.SymArray)
        return np.array(out.tolist(), dtype=float if not all(isinstance(x, int) for x in out.reshape(-1)) else np.int64).reshape(out.shape)

    def random(self, size=None, dtype=None, out=None):
        return self._many(lambda: self._rec(self.ctx.real(self.nm + "_u", 0, 1, hi_open=True)), size)

    def uniform(self, low=0.0, high=1.0, size=None):
        def f(lo, hi):
            u = self.ctx.real(self.nm + "_u", 0, 1, hi_open=True)
            self.log.append(("uniform", lo, hi))
            if not E.is_sym(lo) and lo == 0 and not E.is_sym(hi) and hi == 1:
                return self._rec(u)
            return self._rec(lo + (hi - lo) * u)

        return self._many(f, size, low, high)

    def normal(self, loc=0.0, scale=1.0, size=None):
        free = self.only is None or self.only(self.ncalls)
        self.ncalls += 1
        if self.max_calls is not None and self.ncalls > self.max_calls:
            self.ctx.assume(False)

        def f(lo, sc):
            if not free:
                return lo
            z = self.ctx.real(self.nm + "_z", -self.zmax, self.zmax)
            self.log.append(("normal", lo, sc))
            self.normals.append((self.nm, lo, sc))
            return self._rec(lo + sc * z)

        return self._many(f, size, loc, scale)

    def standard_normal(self, size=None, **k):
        return self.normal(0.0, 1.0, size)

    def exponential(self, scale=1.0, size=None):
        return self._many(lambda s: s * self.ctx.real(self.nm + "_e", 0, 50), size, scale)

    def poisson(self, lam=1.0, size=None):
        def f(l):
            if bool(l < 0):
                raise ValueError("lam < 0 or lam contains NaNs")
            if bool(l == 0):
                self.log.append(("poisson", l, 0))
                return 0
            n = self.ctx.int(self.nm + "_n", 0, self.pois_max)
            n = int(n)
            self.log.append(("poisson", l, n))
            return n

        return self._many(f, size, lam)

    def integers(self, low, high=None, size=None, dtype=np.int64, endpoint=False):
        lo, hi = (0, low) if high is None else (low, high)
        if endpoint:
            hi = hi + 1

        def f(a, b):
            if bool(a >= b):
                raise ValueError("low >= high")
            # any integer of [a, b)
            x = self.ctx.int(self.nm + "_i", -(2**62), 2**62)
            self.ctx.assume((x >= a) & (x < b))
            self.log.append(("integers", a, b))
            return x

        return self._many(f, size, lo, hi)

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        n = int(a) if isinstance(a, (int, np.integer)) else len(a)
        probs = None if p is None else list(p)
        self.log.append(("choice", a, probs))

        def pick(excl=()):
            i = self.ctx.choice(self.nm + "_c", range(n))
            if probs is not None:
                self.ctx.assume(probs[i] > 0)
            if i in excl:
                self.ctx.assume(False)
            return i

        def val(i):
            v = i if isinstance(a, (int, np.integer)) else a[i]
            # numpy returns its own scalar types
            return np.str_(v) if isinstance(v, str) else np.int64(v) if isinstance(v, int) and not isinstance(v, bool) else v

        if size is None:
            return val(pick())
        k = int(size) if not isinstance(size, tuple) else int(np.prod(size))
        got = []
        for _ in range(k):
            got.append(pick(() if replace else got))
        vals = [val(i) for i in got]
        if any(E.is_sym(v) for v in vals):
            return shims.sarr(vals)
        return np.array(vals)

    def shuffle(self, x, axis=0):
        perm = self.ctx.permutation(self.ctx.name(self.nm + "_perm") + "_", len(x))
        x[:] = [x[i] for i in perm]

    def permutation(self, x, axis=0):
        n = int(x) if isinstance(x, (int, np.integer)) else len(x)
        perm = self.ctx.permutation(self.ctx.name(self.nm + "_perm") + "_", n)
        if isinstance(x, (int, np.integer)):
            return np.array(perm)
        return x[np.array(perm, dtype=int)] if isinstance(x, np.ndarray) else np.array([x[i] for i in perm])


def _gap(name):
    def f(self, *a, **k):
        raise HarnessGap(f"random draw {name} is not modelled")

    return f


for _m in ("beta", "binomial", "bytes", "chisquare", "dirichlet", "f", "gamma", "geometric", "gumbel", "laplace", "logistic", "lognormal", "pareto", "power", "rayleigh", "standard_exponential", "standard_gamma", "triangular", "vonmises", "wald", "weibull", "zipf", "multinomial", "multivariate_normal", "permuted", "spawn"):
    if hasattr(np.random.Generator, _m):
        setattr(DrawRNG, _m, _gap(_m))


# ------------------------------------------------------------------------------------------------------ exploration
class Result:
    def __init__(self, h):
        self.h = h.name
        self.prop = h.prop
        self.stats = Stats()
        self.labels = {}
        self.decided = {}
        self.violations = []
        self.found_at = 0
        self.unconfirmed = []
        self.undecided = []
        self.funcs = {}
        self.samples = []
        self.exhausted = True
        self.wall = 0.0
        self.validated = 0
        self.obs_checked = 0
        self.obs_mismatch = 0
        self.bounds = h.bounds
        self.stubs = h.stubs
        self.notes = []
        self.gaps = {}


def _model_values(path, m):
    out = {}
    for n, c in path.inputs.items():
        v = m.eval(c, model_completion=True)
        if z3.is_bool(c):
            out[n] = bool(z3.is_true(v))
        elif c.sort() == z3.IntSort():
            out[n] = v.as_long()
        else:
            f = E.model_frac(m, c)
            out[n] = float(f)
    return out


def _crash_site(e):
    """(file:line, function) of the innermost frame, and whether any frame lies in the code under check."""
    tb = traceback.extract_tb(e.__traceback__)
    inner = tb[-1] if tb else None
    in_repo = any(fr.filename.startswith(REPO) for fr in tb)
    last_ours = None
    for fr in tb:
        if fr.filename.startswith(REPO) or "/verif/" in fr.filename:
            last_ours = fr
    innermost_repo = last_ours is not None and last_ours.filename.startswith(REPO)
    return (f"{inner.filename}:{inner.lineno} {inner.name}" if inner else "?"), in_repo and innermost_repo


def run_concrete(h, values, tier="quick"):
    """Run the harness on the unpatched code; returns (failures, ctx)."""
    ctx = ConcCtx(values, tier)
    saved = E.CUR
    E.CUR = None
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                h.fn(ctx)
    except Infeasible:
        ctx.discarded = True
    except PathControl as e:
        ctx.gap = repr(e)
    except Exception as e:  # noqa: BLE001
        site, ours = _crash_site(e)
        weak = isinstance(e, (AttributeError, NotImplementedError, ImportError)) and not h.public
        if ours and not weak:
            ctx.failures.append(("crash", f"{type(e).__name__}: {e} at {site}"))
        else:
            ctx.gap = f"{type(e).__name__}: {e} at {site}"
    finally:
        ctx.close_all()
        E.CUR = saved
    if ctx.discarded:
        # the rounded model violates an assumption: what was seen before it still counts only if it was a failure
        ctx.failures = []
    return ctx.failures, ctx


def refine(path, m):
    """Lemmas (true facts about the elementary functions) that exclude a model using wrong function values."""
    lem = []
    fns = {"exp": math.exp, "log": math.log, "log10": math.log10, "exp10": lambda t: 10.0**t, "sin": math.sin, "cos": math.cos, "asin": math.asin, "acos": math.acos, "atan": math.atan}
    for name, lst in path._apps.items():
        f = fns.get(name)
        if f is None:
            continue
        for a, y in lst:
            try:
                av, yv = float(E.model_frac(m, a)), float(E.model_frac(m, y))
                t = f(av)
            except (ValueError, OverflowError, Unsupported):
                continue
            if abs(t - yv) <= 1e-12 * max(1.0, abs(t)):
                continue
            c = Fraction(av)
            cz = z3.RatVal(c.numerator, c.denominator)
            # all lemmas are stated with a relative slack that covers rounding of av and t
            sl = Fraction(abs(t)) * Fraction(1, 10**12) + Fraction(1, 10**14)
            hi_, lo_ = Fraction(t) + sl, Fraction(t) - sl
            hi, lo = z3.RatVal(hi_.numerator, hi_.denominator), z3.RatVal(lo_.numerator, lo_.denominator)
            if name in ("exp", "log", "log10", "exp10", "asin", "atan"):
                lem += [z3.Implies(a <= cz, y <= hi), z3.Implies(a >= cz, y >= lo)]
                if name in ("exp",):
                    lem.append(y >= lo + lo * (a - cz) - sl.numerator * z3.RatVal(1, sl.denominator)) if t > 0 and lo_ > 0 else None
                if name in ("log",) and av > 0:
                    lem.append(y <= hi + (a - cz) / cz + z3.RatVal(1, 10**9)) if abs(av) > 1e-9 else None
            elif name == "acos":
                lem += [z3.Implies(a <= cz, y >= lo), z3.Implies(a >= cz, y <= hi)]
            elif name == "sin":
                k = math.floor((av + math.pi / 2) / math.pi)
                L, R = E.rv((k - 0.5) * math.pi), E.rv((k + 0.5) * math.pi)
                up = k % 2 == 0
                g1, g2 = z3.And(a >= L, a <= cz), z3.And(a >= cz, a <= R)
                lem += [z3.Implies(g1, y <= hi if up else y >= lo), z3.Implies(g2, y >= lo if up else y <= hi)]
            elif name == "cos":
                k = math.floor(av / math.pi)
                L, R = E.rv(k * math.pi), E.rv((k + 1) * math.pi)
                down = k % 2 == 0
                g1, g2 = z3.And(a >= L, a <= cz), z3.And(a >= cz, a <= R)
                lem += [z3.Implies(g1, y >= lo if down else y <= hi), z3.Implies(g2, y <= hi if down else y >= lo)]
    for (name, _), (args, y) in path._defs.items():
        if name != "atan2" or len(args) != 2:
            continue
        try:
            t = math.atan2(float(E.model_frac(m, args[0])), float(E.model_frac(m, args[1])))
            yv = float(E.model_frac(m, y))
        except (ValueError, OverflowError, Unsupported):
            continue
        if abs(t - yv) > 1e-9:
            a0, a1 = E.model_frac(m, args[0]), E.model_frac(m, args[1])
            lem.append(z3.Implies(z3.And(args[0] == E.rv(a0), args[1] == E.rv(a1)), z3.And(y >= E.rv(t - 1e-9), y <= E.rv(t + 1e-9))))
    return [x for x in lem if x is not None]


AFTER_VIOLATION = 20  # seconds a harness goes on looking for further violations after its first


def resolve_candidates(h, path, cands, res, tier, deadline):
    """Replay each candidate counterexample on the real code; refine the function axioms when it does not reproduce."""
    for c in cands:
        label = c["label"]
        if sum(1 for v in res.violations if v["label"] == label) >= 1:
            continue
        if time.time() > deadline or res.violations and time.time() > res.found_at + AFTER_VIOLATION:
            res.stats.undecided += 1
            res.undecided.append({"label": label, "why": "time"})
            continue
        base = path.pc[: c["npc"]] + path.ax
        lem: list = []
        verdict = None
        tries = 0
        blocks: list = []
        while tries < (10 if tier == "quick" else 25):
            tries += 1
            s = z3.Solver()
            s.set("timeout", int(min(path.check_ms, 10000)))
            s.add(*base, *lem, *blocks, c["neg"])
            t0 = time.time()
            r = s.check()
            res.stats.queries += 1
            res.stats.solver_s += time.time() - t0
            if r == z3.unsat:
                verdict = "discharged" if not blocks else "unconfirmed"
                break
            if r == z3.unknown:
                verdict = "undecided" if not blocks else "unconfirmed"
                break
            m = s.model()
            try:
                vals = _model_values(path, m)
            except Unsupported:
                verdict = "undecided"
                break
            fails, cc = run_concrete(h, vals, tier)
            if fails:
                res.violations.append({"label": fails[0][0], "detail": fails[0][1], "query_label": label, "inputs": vals})
                res.found_at = res.found_at or time.time()
                verdict = "violation"
                break
            if getattr(cc, "gap", None):
                verdict = "undecided"
                res.gaps[cc.gap] = res.gaps.get(cc.gap, 0) + 1
                break
            new = refine(path, m)
            if new:
                lem += new
                path.ax += new
                base = path.pc[: c["npc"]] + path.ax
                lem = []
            else:
                # move to a different region of inputs
                diff = []
                for n, k in path.inputs.items():
                    v = m.eval(k, model_completion=True)
                    if k.sort() == z3.RealSort():
                        f = E.model_frac(m, k)
                        eps = abs(f) * Fraction(1, 20) + Fraction(1, 1000)
                        diff.append(z3.Or(k < E.rv(f - eps), k > E.rv(f + eps)))
                    elif not z3.is_bool(k):
                        diff.append(k != v)
                if not diff:
                    verdict = "unconfirmed"
                    break
                blocks.append(z3.Or(*diff))
            if time.time() > deadline or res.violations and time.time() > res.found_at + AFTER_VIOLATION:
                verdict = verdict or "undecided"
                break
        if verdict == "discharged":
            res.stats.discharged += 1
            res.decided[label] = res.decided.get(label, 0) + 1
        elif verdict == "violation":
            pass
        else:
            res.stats.undecided += 1
            (res.unconfirmed if verdict == "unconfirmed" else res.undecided).append({"label": label, "why": verdict or "tries"})


class _Tracer:
    def __init__(self, funcs):
        self.funcs = funcs

    def __call__(self, frame, event, arg):
        if event == "call":
            co = frame.f_code
            if co.co_filename.startswith(REPO):
                k = f"{co.co_filename[len(REPO_ROOT) + 1:]}:{co.co_qualname}"
                self.funcs[k] = self.funcs.get(k, 0) + 1


def explore(h, tier="quick", deadline=None, seed=1, shard=None):
    res = Result(h)
    t0 = time.time()
    budget = h.time * (1 if tier == "quick" else 6)
    dl = t0 + budget if deadline is None else min(deadline, t0 + budget)
    work = [[]]
    maxp = h.max_paths * (1 if tier == "quick" else 5)
    nval = 0
    whole = set()  # prefixes of paths to be followed to their end, whatever is refuted on the way
    while work:
        if len(res.violations) >= 3 or res.violations and time.time() > res.found_at + AFTER_VIOLATION:
            res.exhausted = False
            break
        if res.stats.paths >= maxp or time.time() > dl:
            res.exhausted = False
            res.notes.append(f"budget: {len(work)} path prefixes left unexplored")
            break
        prefix = work.pop()
        p = Path(prefix, res.stats, feas_ms=h.feas_ms, check_ms=h.check_ms, deadline=dl)
        p.prefer_exp = h.prefer_exp
        p.format_mode = h.format_mode
        ctx = SymCtx(p, tier)
        ctx.shard = shard
        ctx.many = 0 if str(prefix) in whole else 5
        again = None
        E.CUR = p
        crash = None
        status = "ok"
        trace = res.stats.paths < 3
        inst = shims.Installed() if h.install else contextlib.nullcontext()
        try:
            with warnings.catch_warnings(), np.errstate(all="ignore"), inst:
                warnings.simplefilter("ignore")
                if trace:
                    sys.setprofile(_Tracer(res.funcs))
                try:
                    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                        h.fn(ctx)
                finally:
                    sys.setprofile(None)
        except Infeasible:
            status = "infeasible"
            res.stats.infeasible += 1
        except Budget:
            status = "budget"
            res.exhausted = False
        except ManyCandidates:
            status = "budget"
            again = prefix
        except PathControl as e:
            status = "unsupported"
            res.stats.unsupported += 1
            msg = f"{type(e).__name__}: {e}"
            res.stats.unsupported_msgs[msg] = res.stats.unsupported_msgs.get(msg, 0) + 1
        except RecursionError as e:
            status = "unsupported"
            res.stats.unsupported += 1
            res.stats.unsupported_msgs["RecursionError"] = 1
        except Exception as e:  # noqa: BLE001
            status = "crash"
            crash = e
        finally:
            ctx.close_all()
            E.CUR = None
        if again is not None:
            saved = res.stats.undecided, list(res.undecided), list(res.unconfirmed)
            p.deadline = None
            resolve_candidates(h, p, ctx.cands, res, tier, min(dl + 30, time.time() + 60))
            if not res.violations:  # nothing real so far: follow the path to its end
                res.stats.undecided, res.undecided[:], res.unconfirmed[:] = saved
                res.stats.obligations -= sum(ctx.labels.values())
                res.stats.discharged -= sum(ctx.decided.values())
                whole.add(str(prefix))
                work.append(prefix)
                continue
            ctx.cands = []
            res.exhausted = False
        for alt in p.alts:
            work.append(alt)
        p.deadline = None
        if status != "infeasible":
            res.stats.paths += 1
        for k, v in ctx.labels.items():
            res.labels[k] = res.labels.get(k, 0) + v
        for k, v in ctx.decided.items():
            res.decided[k] = res.decided.get(k, 0) + v
        if crash is not None:
            res.stats.obligations += 1
            try:
                p.link_bounds()
            except Exception:
                pass
            ctx.cands.append({"label": f"crash:{type(crash).__name__}", "neg": z3.BoolVal(True), "npc": len(p.pc), "status": "sat", "msg": str(crash)[:300], "site": _crash_site(crash)[0]})
        if ctx.cands:
            resolve_candidates(h, p, ctx.cands, res, tier, dl + 30)
        # validation of the path on the real code
        if status in ("ok", "unsupported", "crash") and nval < h.validate * (1 if tier == "quick" else 3) and len(res.violations) < 3:
            nval += 1
            validate_path(h, p, ctx, res, tier)
    res.wall = time.time() - t0
    return res


def validate_path(h, p, ctx, res, tier):
    s = z3.Solver()
    s.set("timeout", 3000)
    s.add(*p.pc, *p.ax)
    r = s.check()
    res.stats.queries += 1
    if r != z3.sat:
        return
    m = s.model()
    try:
        vals = _model_values(p, m)
    except Unsupported:
        return
    fails, cc = run_concrete(h, vals, tier)
    if cc.discarded:
        return
    if getattr(cc, "gap", None):
        res.gaps[cc.gap] = res.gaps.get(cc.gap, 0) + 1
        return
    res.validated += 1
    if len(res.samples) < 3:
        res.samples.append({"harness": h.name, "inputs": {k: v for k, v in list(vals.items())[:12]}, "checks_reached": sorted(set(cc.reached))[:10]})
    if fails:
        if not any(v["label"] == fails[0][0] for v in res.violations):
            res.violations.append({"label": fails[0][0], "detail": fails[0][1], "query_label": "path validation", "inputs": vals})
            res.found_at = res.found_at or time.time()
        return
    transc = any(k in p._apps for k in ("exp", "log", "log10", "exp10", "sin", "cos", "asin", "acos", "atan")) or any(k[0] == "atan2" for k in p._defs)
    if not transc and len(cc.obs) == len(ctx.obs):
        for (n1, sv), (n2, cv) in zip(ctx.obs, cc.obs):
            if isinstance(cv, str):
                continue
            try:
                v = float(E.model_frac(m, E._real(E.lift(sv)))) if E.is_sym(sv) else float(sv)
            except (Unsupported, TypeError, ValueError):
                continue
            res.obs_checked += 1
            if not (v == cv or abs(v - cv) <= 1e-6 * max(abs(v), abs(cv)) + 1e-9):
                res.obs_mismatch += 1
                if len(res.notes) < 5:
                    res.notes.append(f"translator mismatch {n1}: model {v!r} vs code {cv!r} at {vals}")
