"""C13  Pressure and poloidal current function integrate p' and ff'."""
from .common import *

HARNESSES = H = Harnesses()
ENCODES = ["freegs.jtor.Profile.pressure", "freegs.jtor.Profile.fpol", "freegs.jtor.ProfilesPprimeFfprime.*",
           "freegs.jtor.ConstrainPaxisIp.pprime", "freegs.jtor.ConstrainPaxisIp.ffprime",
           "freegs.jtor.ConstrainBetapIp.pprime", "freegs.jtor.ConstrainBetapIp.ffprime"]
BOUNDS = "p' and ff' arbitrary cubics; constrained profiles with exponents 1..3 and arbitrary constants; scalars, lists, 1-D and 2-D arrays up to 4 entries; normalised flux in [0, 1] (constrained: also outside)"
ASSUMPTIONS = ["adaptive quadrature is exact (it is, for these polynomial profiles)"]


def cubic(ctx, tag):
    c = ctx.reals(tag, 4, -5, 5)

    def f(s):
        return c[0] + c[1] * s + c[2] * s * s + c[3] * s * s * s

    def F(s):
        return c[0] * s + c[1] * s * s / 2 + c[2] * s * s * s / 3 + c[3] * s * s * s * s / 4
    return f, F, lambda a, b: F(b) - F(a)


def psis(ctx, p):
    p.psi_axis, p.psi_bndry = ctx.real("psi_axis", -3, 3), ctx.real("psi_bndry", -3, 3)
    return p.psi_axis - p.psi_bndry


def values(ctx, form):
    s = ctx.reals("s", 4, 0, 1)
    if form == 0:
        return s[0], [s[0]]
    if form == 1:
        return ctx.arr(s[:3]), s[:3]
    if form == 2:
        return ctx.arr([s[:2], s[2:]]), s
    return list(s[:2]), s[:2]


def flat(x):
    return [x] if not hasattr(x, "__len__") else list(np.ravel(np.asarray(x)))


@H("pressure", bounds="cubic p', scalar / 1-D / 2-D input, with and without out")
def pressure(ctx):
    """p(s) = (psi_axis - psi_bndry) * integral of p' from s to 1, in every input form; p(1) = 0"""
    f, F, I = cubic(ctx, "c")
    p = ctx.fg.jtor.ProfilesPprimeFfprime(f, lambda s: 0 * s, 1.0)
    d = psis(ctx, p)
    form = ctx.choose("form", 3)
    x, s = values(ctx, form)
    keep = x.copy() if form else x
    if form and ctx.flag("out"):
        out = ctx.arr([0.5] * 3) if form == 1 else ctx.arr([[0.5, 0.5], [0.5, 0.5]])
        r = p.pressure(x, out)
        ctx.equal("out_filled", out, r)
    else:
        r = p.pressure(x)
    ctx.check("shape", np.shape(r) == np.shape(x))
    sc = mag(ctx, *ctx.reals("c", 4, -5, 5)) if not ctx.symbolic else None
    for a, b in zip(flat(r), s):
        ctx.equal("integral", a, d * I(b, 1), scale=None if sc is None else sc * abs(d))
    ctx.equal("edge", p.pressure(exact(ctx, 1)), exact(ctx, 0))
    ctx.equal("input_unchanged", x, keep)


@H("fpol", bounds="cubic ff', scalar / list / 1-D / 2-D input, with and without out, either sign of vacuum f")
def fpol(ctx):
    """f(s)^2 = fvac^2 + 2 (psi_axis - psi_bndry) * integral of ff' from s to 1, with the sign of fvac; f(1) = fvac"""
    f, F, I = cubic(ctx, "c")
    fv = ctx.real("fvac", 0.1, 6)
    if ctx.flag("negative"):
        fv = -fv
    p = ctx.fg.jtor.ProfilesPprimeFfprime(lambda s: 0 * s, f, fv)
    d = psis(ctx, p)
    form = ctx.choose("form", 4)
    x, s = values(ctx, form)
    for b in s:
        ctx.assume(fv * fv + 2 * d * I(b, 1) >= q(ctx, 1, 100))
    if form in (1, 2) and ctx.flag("out"):
        out = ctx.arr([0.5] * 3) if form == 1 else ctx.arr([[0.5, 0.5], [0.5, 0.5]])
        r = p.fpol(x, out)
        ctx.equal("out_filled", out, r)
    else:
        r = p.fpol(x)
    ctx.check("shape", np.shape(r) == np.shape(x))
    for a, b in zip(flat(r), s):
        ctx.equal("integral", a * a, fv * fv + 2 * d * I(b, 1), scale=None if ctx.symbolic else 40.0)
        ctx.check("sign", a * fv >= 0)
    ctx.equal("edge", p.fpol(exact(ctx, 1)), fv)
    ctx.equal("fvac", p.fvac(), fv)


@H("constrained", bounds="exponents 1..3, arbitrary L, Beta0, Raxis, psi; normalised flux in [-1, 2]", clip="fork")
def constrained(ctx):
    """pressure and f of the constrained profiles integrate their own p' and ff'; none outside the plasma"""
    P = ctx.fg.jtor
    cls = (P.ConstrainPaxisIp, P.ConstrainBetapIp)[ctx.choose("cls", 2)]
    m, n = ((1, 2), (2, 1), (1, 1), (3, 2), (2, 3))[ctx.choose("alpha", 5)]
    Ra = ctx.real("Raxis", 0.5, 3)
    fv = ctx.real("fvac", 0.1, 6)
    p = cls(None, ctx.real("v", 1, 2), ctx.real("Ip", 1, 2), fv, alpha_m=m, alpha_n=n, Raxis=Ra)
    d = psis(ctx, p)
    p.L, p.Beta0 = ctx.real("L", -5, 5), ctx.real("Beta0", -2, 2)
    where = ctx.choose("where", 2)
    s = ctx.real("s", 0, 1) if where == 0 else ctx.real("s_out", 1, 2)
    from math import comb

    def I(a):  # integral of (1-x^m)^n from a to 1
        t = 0
        for k in range(n + 1):
            e = m * k + 1
            t = t + q(ctx, comb(n, k) * (-1) ** k, e) * (1 - a ** e)
        return t
    x = s if where == 0 else exact(ctx, 1)
    pp0, ff0 = p.pprime(exact(ctx, 0)), p.ffprime(exact(ctx, 0))
    ctx.equal("pprime_axis", pp0, p.L * p.Beta0 / Ra)
    ctx.equal("ffprime_axis", ff0, mu0(ctx) * p.L * (1 - p.Beta0) * Ra)
    ctx.equal("pprime", p.pprime(s), pp0 * (1 - x ** m) ** n, scale=mag(ctx, pp0))
    ctx.equal("ffprime", p.ffprime(s), ff0 * (1 - x ** m) ** n, scale=mag(ctx, ff0))
    ctx.equal("pressure", p.pressure(s), d * pp0 * I(x), rtol=1e-7, scale=mag(ctx, d * pp0))
    ctx.assume(fv * fv + 2 * d * ff0 * I(x) >= q(ctx, 1, 1000))
    f = p.fpol(s)
    ctx.equal("fpol", f * f, fv * fv + 2 * d * ff0 * I(x), rtol=1e-7)
    ctx.check("fpol_sign", f > 0)


@H("given_functions", bounds="arbitrary pressure and f functions")
def given_functions(ctx):
    """explicitly given pressure and f functions are used as they are"""
    a = ctx.reals("a", 3, -2, 2)
    p = ctx.fg.jtor.ProfilesPprimeFfprime(lambda s: s, lambda s: s, 1.0, p_func=lambda s: a[0] + a[1] * s, f_func=lambda s: a[2] * s)
    psis(ctx, p)
    form = ctx.choose("form", 3)
    x, s = values(ctx, form)
    ctx.equal("pressure", p.pressure(x), a[0] + a[1] * x)
    ctx.equal("fpol", p.fpol(x), a[2] * x)


@H("refusals", bounds="1..4 entries")
def refusals(ctx):
    """input and output of different lengths are refused"""
    f, F, I = cubic(ctx, "c")
    p = ctx.fg.jtor.ProfilesPprimeFfprime(f, f, 1.0)
    psis(ctx, p)
    n, m = 1 + ctx.choose("n", 3), 1 + ctx.choose("m", 3)
    if n == m:
        m = 4
    x = ctx.arr(ctx.reals("s", n, 0, 1))
    out = ctx.arr([0.0] * m)
    ctx.raises("pressure", ValueError, lambda: p.pressure(x, out))
    ctx.raises("fpol", ValueError, lambda: p.fpol(x, out))
