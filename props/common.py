"""Shared pieces of the harnesses: reference formulas and object builders.

Everything here works both with symbolic values and with plain floats, so that
the same harness is explored by the solver and replayed on the unpatched code.
"""
from fractions import Fraction

import numpy as np

from engine import sym as S


class Harnesses(list):
    def __call__(self, name, bounds="", thorough_only=False, **opts):
        def deco(fn):
            self.append(dict(name=name, fn=fn, opts=opts, bounds=bounds, thorough_only=thorough_only))
            return fn
        return deco


# ---------------------------------------------------------------- elementary functions

def _ufun(name, npname):
    def f(ctx, x):
        if ctx.symbolic:
            return getattr(ctx.np, npname)(x) if npname else None
        return getattr(np, npname)(x)
    return f


sqrt = _ufun("sqrt", "sqrt")
log = _ufun("log", "log")
absv = _ufun("abs", "abs")
sin = _ufun("sin", "sin")
cos = _ufun("cos", "cos")


def ellipk(ctx, m):
    if ctx.symbolic:
        return S.uf("ellipk", (S.Sym.of(m),))
    import scipy.special as sp
    return sp.ellipk(m)


def ellipe(ctx, m):
    if ctx.symbolic:
        return S.uf("ellipe", (S.Sym.of(m),))
    import scipy.special as sp
    return sp.ellipe(m)


def clip(ctx, x, lo, hi):
    if ctx.symbolic:
        return ctx.np.clip(x, lo, hi)
    return np.clip(x, lo, hi)


def q(ctx, num, den=1):
    """Exact rational constant."""
    return S.Sym.const(Fraction(num, den)) if ctx.symbolic else num / den


def mu0(ctx):
    return q(ctx, 4, 10 ** 7) * ctx.pi


# ---------------------------------------------------------------- reference field of a filament

def ref_greens(ctx, Rc, Zc, R, Z):
    """Flux per radian at (R,Z) of a circular filament carrying 1 A at (Rc,Zc)."""
    k2 = 4 * R * Rc / ((R + Rc) ** 2 + (Z - Zc) ** 2)
    k2 = clip(ctx, k2, 1e-10, 1.0 - 1e-10)
    k = sqrt(ctx, k2)
    return (mu0(ctx) / (2 * ctx.pi)) * sqrt(ctx, R * Rc) * ((2 - k2) * ellipk(ctx, k2) - 2 * ellipe(ctx, k2)) / k


def ref_bz(ctx, Rc, Zc, R, Z, eps=None):
    e = q(ctx, 1, 1000) if eps is None else eps
    return (ref_greens(ctx, Rc, Zc, R + e, Z) - ref_greens(ctx, Rc, Zc, R - e, Z)) / (2 * e * R)


def ref_br(ctx, Rc, Zc, R, Z, eps=None):
    e = q(ctx, 1, 1000) if eps is None else eps
    return (ref_greens(ctx, Rc, Zc, R, Z - e) - ref_greens(ctx, Rc, Zc, R, Z + e)) / (2 * e * R)


REF = {"psi": ref_greens, "br": ref_br, "bz": ref_bz}


def ref_sum(ctx, kind, filaments, R, Z):
    """Field of a set of filaments [(R, Z, ampere-turns)]."""
    tot = 0
    for r, z, w in filaments:
        tot = tot + w * REF[kind](ctx, r, z, R, Z)
    return tot


# the centred differences cancel about six digits in floating point
FIELD = dict(rtol=1e-5, atol=1e-14)


def point(ctx, tag="", lo=0.2, hi=4.0):
    return ctx.real("R" + tag, lo, hi), ctx.real("Z" + tag, -4, 4)


# ---------------------------------------------------------------- coil builders

SQUARE = [(0.95, -1.15), (0.95, -1.05), (1.05, -1.05), (1.05, -1.15)]
TRI = [(2.0, 0.5), (2.25, 0.5), (2.125, 0.75)]

def xshape(ctx, shape):
    """Outline with exact coordinates (so that no float rounding happens while encoding)."""
    return [(exact(ctx, r), exact(ctx, z)) for r, z in shape]


COIL_KINDS = ["Coil", "ShapedCoil", "FilamentCoil", "MultiCoil", "MultiMirror", "Solenoid", "PreCalc"]


def exact(ctx, v):
    return S.Sym.const(v) if ctx.symbolic else float(v)


def build_coil(ctx, kind, tag="c", current=None, control=True):
    """A coil with symbolic data of the given kind and its filaments per unit current."""
    m = ctx.fg.machine
    I = ctx.real("I_" + tag, -1e4, 1e4) if current is None else current
    if kind == "Coil":
        R, Z = ctx.real("Rc_" + tag, 0.1, 5), ctx.real("Zc_" + tag, -5, 5)
        n = ctx.real("turns_" + tag, 1, 100)
        return m.Coil(R, Z, current=I, turns=n, control=control), [(R, Z, n)]
    if kind == "ShapedCoil":
        n = ctx.real("turns_" + tag, 1, 100)
        shape = SQUARE
        npts = (1, 3, 6)[ctx.choose("npoints_" + tag, 3)]
        quad = ctx.fg.quadrature.polygon_quad(shape, n=npts)
        c = m.ShapedCoil(list(shape), current=I, turns=n, control=control, npoints=npts)
        return c, [(r, z, w * n) for r, z, w in quad]
    if kind == "FilamentCoil":
        n = ctx.real("turns_" + tag, 1, 100)
        k = 3
        rs = [ctx.real("Rf%d_%s" % (i, tag), 0.1, 5) for i in range(k)]
        zs = [ctx.real("Zf%d_%s" % (i, tag), -5, 5) for i in range(k)]
        shape = [(1.0, 0.0), (1.0, 0.5), (1.5, 0.5), (1.5, 0.0)]
        c = m.FilamentCoil(Rfil=list(rs), Zfil=list(zs), shape=shape, current=I, turns=n, control=control)
        return c, [(r, z, n / k) for r, z in zip(rs, zs)]
    if kind in ("MultiCoil", "MultiMirror"):
        k = 2
        rs = [ctx.real("Rf%d_%s" % (i, tag), 0.1, 5) for i in range(k)]
        zs = [ctx.real("Zf%d_%s" % (i, tag), -5, 5) for i in range(k)]
        pol = [ctx.real("pol%d_%s" % (i, tag), -1, 1) for i in range(2)]
        mir = kind == "MultiMirror"
        c = m.MultiCoil(list(rs), list(zs), current=I, control=control, mirror=mir, polarity=pol)
        f = [(r, z, pol[0]) for r, z in zip(rs, zs)]
        if mir:
            f += [(r, -z, pol[1]) for r, z in zip(rs, zs)]
        return c, f
    if kind == "Solenoid":
        Rs = ctx.real("Rs_" + tag, 0.05, 2)
        z0, z1 = ctx.real("Zmin_" + tag, -4, -0.1), ctx.real("Zmax_" + tag, 0.1, 4)
        N = 3
        c = m.Solenoid(Rs, z0, z1, N, current=I, control=control)
        return c, [(Rs, z0 + (z1 - z0) * q(ctx, i, N - 1), 1) for i in range(N)]
    raise ValueError(kind)


def feq(ctx, name, a, b, psi=None):
    """Equality of magnetic fields obtained by differencing fluxes of size psi."""
    sc = None
    if not ctx.symbolic and psi is not None:
        sc = 1e-3 * float(np.max(np.abs(np.asarray(psi, dtype=float))))
    ctx.equal(name, a, b, rtol=1e-6, atol=1e-14, scale=sc)


def mag(ctx, *vals):
    """Magnitude used as a rounding scale in replays."""
    if ctx.symbolic:
        return None
    return sum(float(np.sum(np.abs(np.asarray(v, dtype=float)))) for v in vals)


# ---------------------------------------------------------------- stubs (contracts of callees)

import contextlib
import sys


@contextlib.contextmanager
def stubs(ctx, **repl):
    """Replace functions of freegs, wherever a freegs module refers to them.

    stubs(ctx, critical__find_critical=f) replaces freegs.critical.find_critical in every freegs
    module that holds a reference to it; works in both modes and is undone on exit."""
    undo = []
    mods = [m for k, m in list(sys.modules.items()) if (k == "freegs" or k.startswith("freegs.")) and m is not None]
    try:
        for key, new in repl.items():
            modname, name = key.split("__")
            orig = getattr(getattr(ctx.fg, modname), name)
            for m in mods:
                for k, v in list(vars(m).items()):
                    if v is orig:
                        undo.append((m, k, v))
                        setattr(m, k, new)
        yield
    finally:
        for m, k, v in undo:
            setattr(m, k, v)


def no_critical(R, Z, psi, *a, **k):
    """find_critical that finds nothing"""
    return [], []


def fixed_critical(opt, xpt):
    """Stand-in for find_critical; what it is given has to be a flux map on its R, Z mesh."""
    def const(v):
        v = v[0] - v[-1]
        return v.is_const() and v.const_value() == 0 if isinstance(v, S.Sym) else v == 0

    def f(R, Z, psi, *a, **k):
        if np.ndim(R) == 2 and np.ndim(Z) == 2:
            if not (np.shape(R) == np.shape(Z) == np.shape(psi) and const(list(R[0])) and const(list(Z[:, 0]))):
                raise ValueError("critical points are searched with coordinates that are not those of the flux map")
        return list(opt), list(xpt)
    return f


def arr2(ctx, vals):
    """2-D array in the representation of the mode"""
    return ctx.arr(vals)


# ---------------------------------------------------------------- stand-ins for scipy routines

@contextlib.contextmanager
def scipy_standin(ctx, **repl):
    """Replace scipy.optimize.minimize / leastsq / scipy.integrate.odeint by a function of the harness (both modes)."""
    if ctx.symbolic:
        ctx.env.hooks.update(repl)
        try:
            yield
        finally:
            ctx.env.hooks.clear()
        return
    import scipy.integrate
    import scipy.optimize
    undo = []
    for name, new in repl.items():
        mod = scipy.integrate if name == "odeint" else scipy.optimize
        orig = getattr(mod, name)
        for m in [mod] + [m for k, m in list(sys.modules.items()) if (k == "freegs" or k.startswith("freegs.")) and m is not None]:
            for k, v in list(vars(m).items()):
                if v is orig:
                    undo.append((m, k, v))
                    setattr(m, k, new)
    try:
        yield
    finally:
        for m, k, v in undo:
            setattr(m, k, v)


class Result:
    def __init__(self, **k):
        self.__dict__.update(k)


class Optimiser:
    """Stand-in optimiser: evaluates the objective at an arbitrary trial point, then returns an arbitrary
    point within the bounds and constraints it was given."""

    def __init__(self, ctx, lo=-3, hi=3, tag="opt"):
        self.ctx, self.lo, self.hi, self.tag = ctx, lo, hi, tag
        self.calls = []

    def _point(self, n, kind):
        return self.ctx.arr([self.ctx.real("%s_%s%d_%d" % (self.tag, kind, len(self.calls), i), self.lo, self.hi) for i in range(n)])

    def _run(self, fun, x0, args, bounds, constraints):
        ctx = self.ctx
        if not isinstance(args, tuple):
            args = (args,)
        n = len(x0)
        rec = dict(fun=fun, x0=[v for v in x0], bounds=bounds, constraints=constraints, args=args)
        trial = self._point(n, "t")
        x = self._point(n, "x")
        self.calls.append(rec)
        rec["trial"], rec["value"] = trial, fun(trial.copy(), *args)
        rec["lims"] = []
        if bounds is not None:
            ctx.check("one_bound_per_control", len(bounds) == n)
            for i in range(n):
                lo, hi = bounds[i][0], bounds[i][1]
                lo = None if lo is None or (isinstance(lo, float) and np.isinf(lo)) else lo
                hi = None if hi is None or (isinstance(hi, float) and np.isinf(hi)) else hi
                rec["lims"].append((lo, hi))
                if lo is not None:
                    ctx.assume(x[i] >= lo)
                if hi is not None:
                    ctx.assume(x[i] <= hi)
        for con in (constraints if isinstance(constraints, (list, tuple)) else [constraints]):
            v = con["fun"](x.copy())
            ctx.assume(v >= 0 if con["type"] == "ineq" else v == 0)
        rec["x"] = x
        return x.copy()

    def minimize(self, fun, x0, args=(), method=None, bounds=None, constraints=(), **k):
        x = self._run(fun, x0, args, bounds, constraints)
        return Result(x=x, fun=None, success=True, status=0, message="", nit=1)

    def leastsq(self, func, x0, args=(), **k):
        return self._run(func, x0, args, None, ()), 1


# ---------------------------------------------------------------- linear stand-in coils

class LinCoil:
    """A coil whose unit response is linear in position with arbitrary coefficients."""

    def __init__(self, ctx, tag, current, control=True):
        self.current, self.control = current, control
        self.g = {k: ctx.reals("%s_%s" % (k, tag), 3, -2, 2) for k in ("psi", "br", "bz")}

    def _g(self, kind, R, Z):
        c = self.g[kind]
        return c[0] + c[1] * R + c[2] * Z

    def controlPsi(self, R, Z):
        return self._g("psi", R, Z)

    def controlBr(self, R, Z):
        return self._g("br", R, Z)

    def controlBz(self, R, Z):
        return self._g("bz", R, Z)

    def psi(self, R, Z):
        return self.current * self.controlPsi(R, Z)

    def Br(self, R, Z):
        return self.current * self.controlBr(R, Z)

    def Bz(self, R, Z):
        return self.current * self.controlBz(R, Z)

    def createPsiGreens(self, R, Z):
        return self.controlPsi(R, Z)

    def calcPsiFromGreens(self, pgreen):
        return self.current * pgreen
