"""C32  Safety factor and toroidal flux."""
from .common import *

HARNESSES = H = Harnesses()
ENCODES = ["freegs.critical.find_safety", "freegs.equilibrium.Equilibrium.q", "freegs.equilibrium.Equilibrium.tor_flux", "freegs.equilibrium.Equilibrium.rhotor"]
BOUNDS = "1..2 flux surfaces with 4..5 points each at arbitrary positions and arbitrary fields; q profile of 6 arbitrary values"
ASSUMPTIONS = ["the position of each surface point is an arbitrary result of the ray search (C16)",
               "Bpol and the distance between neighbouring surface points are not zero"]


class Dom:
    pass


def is_zero(v):
    return v.is_const() and v.const_value() == 0 if isinstance(v, S.Sym) else float(v) == 0.0


def surfaces(ctx, n, tag="s"):
    """n points round a surface, positions arbitrary"""
    return [(ctx.real("%sr%d" % (tag, k), 1, 2), ctx.real("%sz%d" % (tag, k), -1, 1)) for k in range(n)]


@H("loop_integral", bounds="4..5 points per surface, 1..2 surfaces, scalar / list / array input", budget=200)
def loop_integral(ctx):
    """q = 1/(2 pi) * sum f/(R^2 Bpol) dl round the surface, with dl half the distance between the neighbours; one value per requested surface"""
    crit = ctx.fg.critical
    nt = 4 + ctx.choose("ntheta", 2)
    form = ctx.choose("form", 3)
    ps = ctx.reals("psin", 2, 0.1, 0.9)
    arg, ps = ((ps[0], ps[:1]), (list(ps), ps), (ctx.arr(ps), ps))[form]
    e = Dom()
    e.R = ctx.arr([[exact(ctx, 1 + i / 4)] * 5 for i in range(6)])
    e.Z = ctx.arr([[exact(ctx, -1 + j / 2) for j in range(5)] for i in range(6)])
    psi = ctx.array("psi", (6, 5), -3, 3)
    e.psi = lambda: psi
    a, b = ctx.real("psi_axis", -2, 2), ctx.real("psi_x", 3, 4)
    e.is_limited = ctx.flag("limited")
    e.psi_bndry = ctx.real("psi_limit", 2.5, 2.9) if e.is_limited else b
    ro, zo, rx, zx = exact(ctx, 1.5), exact(ctx, 0.125), exact(ctx, 1.6), exact(ctx, -0.7)
    pts = [surfaces(ctx, nt, "s%d" % i) for i in range(len(ps))]
    # one field value per surface point
    br = [[ctx.real("br%d_%d" % (i, k), -1, 1) for k in range(nt)] for i in range(len(ps))]
    bz = [[ctx.real("bz%d_%d" % (i, k), 0.1, 1) for k in range(nt)] for i in range(len(ps))]
    calls = [[] for _ in ps]

    def surf(eq, psifunc, r0, z0, r1, z1, psival=1.0, n=100, axis=None):
        i = next((i for i, p in enumerate(ps) if p is psival or is_zero(p - psival)), 0)
        calls[i].append((psifunc, r0, z0, r1, z1, psival))
        return pts[i][(len(calls[i]) - 1) % nt]

    def field(tab):
        def f(R, Z):
            for i in range(len(ps)):
                for k in range(nt):
                    ctx.equal("field_at_surface_R", R[i, k], pts[i][k][0])
                    ctx.equal("field_at_surface_Z", Z[i, k], pts[i][k][1])
            return ctx.arr(tab)
        return f
    e.Br, e.Bz = field(br), field(bz)
    f0, f1 = ctx.real("f0", 1, 2), ctx.real("f1", -0.5, 0.5)

    def fpol(x):
        return ctx.arr([f0 + f1 * v for v in (list(x) if hasattr(x, "__len__") else [x])])
    e.fpol = fpol
    given = ctx.choose("given_points", 4)
    # further critical points do not matter
    o = [(ro, zo, a), (exact(ctx, 1.25), exact(ctx, 0.75), ctx.real("psi_o2", -2, 2))]
    x = [(rx, zx, b), (exact(ctx, 1.75), exact(ctx, 0.8), ctx.real("psi_x2", 4, 5))]
    with stubs(ctx, critical__find_psisurface=surf, critical__find_critical=fixed_critical(o, x)):
        kw = ({}, dict(psi=psi, opoint=o, xpoint=x), dict(opoint=o), dict(xpoint=x))[given]
        out = crit.find_safety(e, psinorm=arg, ntheta=nt, **kw)
    out = list(np.ravel(out))
    ctx.check("count", len(out) == len(ps) and all(len(c) == nt for c in calls))
    if len(out) != len(ps) or any(len(c) != nt for c in calls):
        return
    for i, p in enumerate(ps):
        tot = 0
        for k in range(nt):
            (ra, za), (rb, zb) = pts[i][(k - 1) % nt], pts[i][(k + 1) % nt]
            dl = sqrt(ctx, (rb - ra) ** 2 + (zb - za) ** 2) / 2
            bp = sqrt(ctx, br[i][k] ** 2 + bz[i][k] ** 2)
            tot = tot + (f0 + f1 * p) * dl / (pts[i][k][0] ** 2 * bp)
        ctx.equal("q", out[i], tot / (2 * ctx.pi), rtol=1e-5)
    for i, p in enumerate(ps):
        for k in range(nt):
            fn, r0, z0, r1, z1, pv = calls[i][k]
            ctx.equal("surface", pv, p)
            ctx.equal("from_axis_R", r0, ro)
            ctx.equal("from_axis_Z", z0, zo)
            th = q(ctx, 2 * k, nt) * ctx.pi
            # the rays are equally spaced in theta of the parametrisation sin, cos
            ctx.check("ray", (r1 - r0) * sin(ctx, th) + (z1 - z0) * cos(ctx, th) > 0)
    for i, j in ((0, 0), (3, 2), (5, 4)):
        ctx.equal("normalised_flux", calls[0][0][0](e.R[i, j], e.Z[i, j], grid=False), (psi[i, j] - a) / (e.psi_bndry - a), scale=None if ctx.symbolic else 3.0)


@H("x_on_ray", bounds="4 and 8 angles, X-point at any distance along an axis direction from the O-point", spline_fork=False)
def x_on_ray(ctx):
    """no ray of the safety factor goes through the X-point: all are shifted by half a step if one would"""
    crit = ctx.fg.critical
    e = Dom()
    e.R = ctx.arr([[exact(ctx, 1 + i / 4)] * 5 for i in range(6)])
    e.Z = ctx.arr([[exact(ctx, -1 + j / 2) for j in range(5)] for i in range(6)])
    psi = ctx.arr([[exact(ctx, i - j) for j in range(5)] for i in range(6)])
    e.psi, e.is_limited, e.psi_bndry = (lambda: psi), False, exact(ctx, 3)
    e.Br, e.Bz, e.fpol = (lambda R, Z: R * 0), (lambda R, Z: R * 0 + 1), lambda x: ctx.arr([1.0] * len(x))
    n, hit = ((4, True), (8, True), (6, False))[ctx.choose("n", 3)]
    ro, zo = ctx.real("Ro", 1.3, 1.9), ctx.real("Zo", -0.5, 0.5)
    d = ctx.real("d", 0.1, 0.4)
    r, z = ((-1, 0), (1, 0), (0, 1), (0, -1))[ctx.choose("direction", 4 if hit else 2)]
    calls = []

    def surf(eq, psifunc, r0, z0, r1, z1, psival=1.0, n=100, axis=None):
        calls.append((r1 - r0, z1 - z0))
        return exact(ctx, 1.5), exact(ctx, len(calls) / 4)
    with stubs(ctx, critical__find_psisurface=surf):
        crit.find_safety(e, psinorm=exact(ctx, 0.5), ntheta=n, psi=psi, opoint=[(ro, zo, exact(ctx, 0))],
                         xpoint=[(ro + r * d, zo + z * d, exact(ctx, 3))])
    ctx.check("count", len(calls) == n)
    for k, (dr, dz) in enumerate(calls):
        # the angles are those of a box stretched to the domain
        th = q(ctx, 2 * k + (1 if hit else 0), 2 * n) * 2 * ctx.pi
        s, c = sin(ctx, th), cos(ctx, th)
        ctx.check("direction", dr * s + dz * c > 0)
        ctx.equal("angle", dr * c * 2, dz * s * exact(ctx, 1.25), scale=None if ctx.symbolic else 10.0)


@H("default_surfaces", bounds="1..4 surfaces asked for by number; 6x5 grid, 3 rays")
def default_surfaces(ctx):
    """if only a number of surfaces is given, that many equally spaced ones strictly between axis and edge are used"""
    crit = ctx.fg.critical
    e = Dom()
    e.R = ctx.arr([[exact(ctx, 1 + i / 4)] * 5 for i in range(6)])
    e.Z = ctx.arr([[exact(ctx, -1 + j / 2) for j in range(5)] for i in range(6)])
    psi = ctx.arr([[exact(ctx, i - j) for j in range(5)] for i in range(6)])
    e.psi, e.is_limited, e.psi_bndry = (lambda: psi), False, exact(ctx, 3)
    f0, f1 = ctx.real("f0", 1, 2), ctx.real("f1", -0.5, 0.5)
    e.Br, e.Bz, e.fpol = (lambda R, Z: R * 0), (lambda R, Z: R * 0 + 1), lambda x: f0 + f1 * x
    n = 1 + ctx.choose("n", 4)
    asked = []

    def surf(eq, psifunc, r0, z0, r1, z1, psival=1.0, n=100, axis=None):
        asked.append(psival)
        k = (len(asked) - 1) % 3
        return exact(ctx, (1.5, 1.75, 1.25)[k]), exact(ctx, (0.25, 0, 0)[k])
    with stubs(ctx, critical__find_psisurface=surf):
        out = crit.find_safety(e, npsi=n, ntheta=3, psi=psi, opoint=[(exact(ctx, 1.5), exact(ctx, 0), exact(ctx, 0))],
                               xpoint=[(exact(ctx, 1.6), exact(ctx, -0.7), exact(ctx, 3))])
    ctx.check("count", len(out) == n and len(asked) == 3 * n)
    if len(out) != n or len(asked) != 3 * n:
        return
    for i in range(n):
        ctx.equal("surface", asked[3 * i], q(ctx, i + 1, n + 1))
        ctx.equal("proportional_to_f", out[i] * (f0 + f1 * asked[0]), out[0] * (f0 + f1 * asked[3 * i]))


def eq_with_q(ctx, qf, a=None, b=None):
    E = ctx.fg.equilibrium.Equilibrium
    e = E.__new__(E)
    e.psi_axis, e.psi_bndry = a, b
    return e


@H("q_values", bounds="128 fixed points per surface, arbitrary f, surfaces anywhere in [0.01, 0.99], scalar / numpy scalar / list / array")
def q_values(ctx):
    """q() of one value, a list or an array is the loop integral on each of these surfaces"""
    E = ctx.fg.equilibrium.Equilibrium
    e = E.__new__(E)
    e.R = ctx.arr([[exact(ctx, 1 + i / 4)] * 5 for i in range(6)])
    e.Z = ctx.arr([[exact(ctx, -1 + j / 2) for j in range(5)] for i in range(6)])
    e.Rmin, e.Rmax, e.Zmin, e.Zmax = 1.0, 2.25, -1.0, 1.0
    psi = ctx.arr([[exact(ctx, i - j) for j in range(5)] for i in range(6)])
    e.psi = lambda: psi
    e.psi_axis, e.psi_bndry, e.is_limited = exact(ctx, 0), exact(ctx, 3), False
    e.Br, e.Bz = (lambda R, Z: R * 0), (lambda R, Z: R * 0 + 1)
    f0, f1 = ctx.real("f0", 1, 2), ctx.real("f1", -0.5, 0.5)
    e.fpol = lambda x: f0 + f1 * (x if hasattr(x, "shape") else ctx.arr(list(x)))
    o, x = [(exact(ctx, 1.5), exact(ctx, 0.125), exact(ctx, 0))], [(exact(ctx, 1.6), exact(ctx, -0.7), exact(ctx, 3))]
    real = ctx.fg.critical.find_psisurface

    class Flat:
        def __call__(self, r, z, *a, **k):
            return ctx.arr([exact(ctx, i / 8) for i in range(len(r))])

    def surf(eq, psifunc, r0, z0, r1, z1, psival=1.0, n=100, axis=None):
        # the shape of the answer is that of the real search
        r, z = real(eq, Flat(), r0, z0, r0 + 0.5, z0, psival=psival, n=9)
        if np.ndim(r):
            return r, z
        n_ = len(seen)
        seen.append(1)
        return exact(ctx, 1), exact(ctx, (n_ % 128) / 8)
    seen = []
    s = [ctx.real("s0", 0.05, 0.95), exact(ctx, 0.5)]
    form = ctx.choose("form", 4)
    args = [lambda: s[0], lambda: [s[0]], lambda: [s[1], s[0]], lambda: ctx.arr([s[0], s[1]])]
    want = [[s[0]], [s[0]], [s[1], s[0]], [s[0], s[1]]][form]
    with stubs(ctx, critical__find_psisurface=surf, critical__find_critical=fixed_critical(o, x)):
        out = e.q(args[form]())
    # dl is 1/8 between neighbours, 63/8 at the two ends
    w = (126 * q(ctx, 1, 8) + 2 * q(ctx, 63, 8)) / (2 * ctx.pi)
    if form < 2:
        ctx.check("scalar_result", np.ndim(out) == 0)
        out = [out]
    ctx.check("one_per_surface", len(out) == len(want))
    for v, t in zip(out, want):
        ctx.equal("q_value", v, (f0 + f1 * t) * w)


@H("q_inside", bounds="arbitrary q profile (quadratic), values inside [0.01, 0.99]; scalar, list, array")
def q_inside(ctx):
    """q() evaluates the requested surfaces directly; a single value gives a scalar; no argument gives a uniform grid without the ends"""
    c = ctx.reals("c", 3, 0.1, 3)

    def safety(eq, npsi=1, psinorm=None, **k):
        x = psinorm
        v = [x] if np.ndim(x) == 0 else list(x)
        return ctx.arr([c[0] + c[1] * s + c[2] * s * s for s in v])
    e = eq_with_q(ctx, None)
    s = ctx.reals("s", 2, 0.02, 0.98)
    form = ctx.choose("form", 4)
    f = lambda x: c[0] + c[1] * x + c[2] * x * x
    with stubs(ctx, critical__find_safety=safety):
        if form == 0:
            ctx.equal("scalar", e.q(s[0]), f(s[0]))
            ctx.check("is_scalar", np.ndim(e.q(s[0])) == 0)
        elif form == 1:
            r = e.q([s[0], s[1]])
            ctx.check("length", len(r) == 2)
            for i in range(2):
                ctx.equal("list", r[i], f(s[i]))
        elif form == 2:
            r = e.q(ctx.arr(s))
            ctx.check("length", len(r) == 2)
            for i in range(2):
                ctx.equal("array", r[i], f(s[i]))
        else:
            n = 3
            p, r = e.q(npsi=n)
            ctx.check("length", len(r) == n and len(p) == n)
            for i in range(n):
                ctx.check("open", bool(p[i] > 0) and bool(p[i] < 1))
                ctx.equal("grid", r[i], f(p[i]))
                if i:
                    ctx.equal("uniform", p[i] - p[i - 1], p[1] - p[0])


@H("q_ends", bounds="arbitrary quadratic q profile, values near axis and edge", budget=200)
def q_ends(ctx):
    """close to axis or edge q is extrapolated from the values in between; a quadratic profile is reproduced"""
    c = ctx.reals("c", 3, 0.1, 3)
    f = lambda x: c[0] + c[1] * x + c[2] * x * x

    def safety(eq, npsi=1, psinorm=None, **k):
        v = [psinorm] if np.ndim(psinorm) == 0 else list(psinorm)
        for x in v:
            ctx.check("not_at_the_ends", bool(x >= q(ctx, 1, 100) - q(ctx, 1, 10 ** 9)) and bool(x <= q(ctx, 99, 100) + q(ctx, 1, 10 ** 9)))
        return ctx.arr([f(s) for s in v])
    e = eq_with_q(ctx, None)
    lo, hi, mid = ctx.real("lo", 0, 0.009), ctx.real("hi", 0.991, 1), ctx.real("mid", 0.02, 0.98)
    form = ctx.choose("form", 4)
    with stubs(ctx, critical__find_safety=safety):
        if form == 0:
            ctx.equal("axis", e.q(lo, npsi=6), f(lo))
        elif form == 1:
            ctx.equal("edge", e.q(hi, npsi=6), f(hi))
        else:
            v = [lo, mid, hi]
            r = e.q(v if form == 2 else ctx.arr(v), npsi=6)
            for i in range(3):
                ctx.equal("mixed", r[i], f(v[i]))


@H("tor_flux", bounds="3 and 5 flux values from the axis outwards, arbitrary q, either flux orientation", budget=200)
def tor_flux(ctx):
    """toroidal flux is the trapezoidal integral of q over psi times -1/(2 pi), zero at the first point; rhotor is its square root relative to the LCFS"""
    c = ctx.reals("c", 2, 0.5, 3)
    a, d = ctx.real("psi_axis", -2, 2), ctx.real("d", 0.5, 2)
    if ctx.flag("axis_is_max"):
        d = -d
    E = ctx.fg.equilibrium.Equilibrium

    class T(E):
        def __init__(self):
            pass

        def q(self, psinorm=None, npsi=100):
            return c[0] + c[1] * psinorm
    e = T()
    e.psi_axis, e.psi_bndry = a, a + d
    n = (3, 5)[ctx.choose("n", 2)]
    x = [q(ctx, k, n) for k in range(n)]
    psi = ctx.arr([a + d * t for t in x])
    r = e.tor_flux(psi)
    ctx.check("length", len(r) == n)
    F = lambda t: c[0] * t + c[1] * t * t / 2
    for k in range(n):
        # the trapezoidal rule is exact for a linear q
        ctx.equal("flux", r[k], -d * F(x[k]) / (2 * ctx.pi))
    rho = e.rhotor(psi)
    for k in range(n):
        ctx.equal("rhotor", rho[k] * rho[k], F(x[k]) / F(1), rtol=1e-6)
        ctx.check("rhotor_sign", rho[k] >= 0)
