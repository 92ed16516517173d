"""C15  find_critical: O- and X-points, their kind, order and selection."""
from .common import *
import math

HARNESSES = H = Harnesses()
ENCODES = ["freegs.critical.find_critical"]
BOUNDS = ("cubic flux functions with a critical point at a node of a 5x5 grid, all coefficients arbitrary; separable cubics with four "
          "critical points (on and off nodes) on grids up to 11x9, both amplitudes and offset arbitrary; three-island flux on a 9x25 grid, "
          "arbitrary amplitude, sign and offset")
ASSUMPTIONS = ["critical points are at least two cells from the edge and isolated on the grid",
               "spline interpolation is exact tensor-product not-a-knot cubic interpolation"]


def axes(ctx, r0, dr, nx, z0, dz, ny):
    R = ctx.arr([[exact(ctx, r0 + i * dr)] * ny for i in range(nx)])
    Z = ctx.arr([[exact(ctx, z0 + j * dz) for j in range(ny)] for i in range(nx)])
    return R, Z


@H("classify", bounds="5x5, p0 + A x^2 + B y^2 + C x y + cubic terms, all coefficients arbitrary")
def classify(ctx):
    """a node where the gradient vanishes is reported once, with its flux: X-point where the Hessian is indefinite, O-point where it is definite"""
    R, Z = axes(ctx, 1.0, 0.25, 5, -1.0, 0.5, 5)
    p0, A, B, Cc = ctx.real("p0", -2, 2), ctx.real("A", -4, 4), ctx.real("B", -4, 4), ctx.real("C", -4, 4)
    E, F = (ctx.real("E", -1, 1), ctx.real("F", -1, 1)) if ctx.flag("cubic") else (exact(ctx, 0), exact(ctx, 0))
    rc, zc = exact(ctx, 1.5), exact(ctx, 0)
    D = 4 * A * B - Cc * Cc
    ctx.assume(absv(ctx, D) >= q(ctx, 1, 100))
    x, y = R - rc, Z - zc
    psi = p0 + A * x * x + B * y * y + Cc * x * y + E * x * x * x + F * x * y * y
    gx, gy = 2 * A * x + Cc * y + 3 * E * x * x + F * y * y, 2 * B * y + Cc * x + 2 * F * x * y
    for i in (1, 2, 3):
        for j in (1, 2, 3):
            if (i, j) != (2, 2):
                ctx.assume(gx[i, j] * gx[i, j] + gy[i, j] * gy[i, j] >= q(ctx, 1, 1000))
    keep = psi.copy()
    opt, xpt = ctx.fg.critical.find_critical(R, Z, psi)
    isx = bool(D < 0)
    ctx.check("found_once", (len(opt), len(xpt)) == ((0, 1) if isx else (1, 0)))
    if len(opt) + len(xpt) == 1:
        r, z, p = (opt + xpt)[0]
        ctx.near("R", r, rc, 1e-9)
        ctx.near("Z", z, zc, 1e-9)
        ctx.equal("psi", p, p0, scale=5.0)
    ctx.equal("psi_unchanged", psi, keep)


# shapes f(x) = x^2/2 - x^3/(3a): critical at 0 and a
def f_(t, a):
    return t * t / 2 - t * t * t / (3 * a)


CASES = [  # grid, origin of (0,0), a, b : all nodes, then off nodes
    dict(r=(1.0, 0.25, 9), z=(-1.0, 0.25, 9), o=(1.75, -0.25), a=0.5, b=0.5),
    dict(r=(1.0, 0.25, 11), z=(-1.0, 0.25, 9), o=(1.5, 0.0), a=1.25, b=-0.5),
    dict(r=(1.0, 0.25, 11), z=(-1.0, 0.25, 11), o=(2.8125, 0.6875), a=-0.875, b=-0.75),
]


def four(ctx, case, A1, A2, p0):
    """p0 + A1 f(x) + A2 f(y) and its four critical points [(R, Z, value, Hessian diagonal signs)]"""
    R, Z = axes(ctx, *case["r"], *case["z"])
    ro, zo = (exact(ctx, v) for v in case["o"])
    a, b = exact(ctx, case["a"]), exact(ctx, case["b"])
    psi = p0 + A1 * f_(R - ro, a) + A2 * f_(Z - zo, b)
    pts = []
    for sx, dx in ((1, exact(ctx, 0)), (-1, a)):
        for sy, dy in ((1, exact(ctx, 0)), (-1, b)):
            pts.append((ro + dx, zo + dy, p0 + A1 * f_(dx, a) + A2 * f_(dy, b), sx, sy))
    return R, Z, psi, pts


@H("four_points", bounds="three separable cubics with 2 O- and 2 X-points, arbitrary amplitudes of either sign and offset", budget=240)
def four_points(ctx):
    """all critical points are found and classified; the O-point nearest the middle of the domain comes first; X-points are ordered by flux distance from it"""
    ci = ctx.choose("case", len(CASES))
    case = CASES[ci]
    # off the nodes, the number of Newton steps depends on the amplitude
    A1, A2 = (ctx.real("A1", 1, 4), ctx.real("A2", 1, 4)) if ci < 2 else (ctx.real("B", 1, 2), ctx.real("B", 1, 2) * q(ctx, 3, 2))
    p0 = ctx.real("p0", -2, 2)
    s1, s2 = ctx.flag("neg1"), ctx.flag("neg2")
    if s1:
        A1 = -A1
    if s2:
        A2 = -A2
    R, Z, psi, pts = four(ctx, case, A1, A2, p0)
    opt, xpt = ctx.fg.critical.find_critical(R, Z, psi)
    same = s1 == s2
    O = [p for p in pts if (p[3] == p[4]) == same]
    X = [p for p in pts if (p[3] == p[4]) != same]
    ctx.check("counts", len(opt) == 2 and len(xpt) == 2)
    if not (len(opt) == 2 and len(xpt) == 2):
        return
    Rm, Zm = case["r"][0] + case["r"][1] * (case["r"][2] - 1) / 2, case["z"][0] + case["z"][1] * (case["z"][2] - 1) / 2
    O.sort(key=lambda p: (float(p[0]) - Rm) ** 2 + (float(p[1]) - Zm) ** 2)
    pa = O[0][2]
    d0, d1 = absv(ctx, X[0][2] - pa), absv(ctx, X[1][2] - pa)
    ctx.assume(absv(ctx, d0 - d1) >= q(ctx, 1, 200))
    if bool(d0 > d1):
        X.reverse()
    for name, got, ref in (("opoint", opt, O), ("xpoint", xpt, X)):
        for n, (g, e) in enumerate(zip(got, ref)):
            ctx.near(name + "%d_R" % n, g[0], e[0], 0.01)
            ctx.near(name + "%d_Z" % n, g[1], e[1], 0.01)
            ctx.near(name + "%d_psi" % n, g[2], e[2], 1e-3)
    # the reported position is critical: |grad psi| < 1e-3 R
    ro, zo = (exact(ctx, v) for v in case["o"])
    for n, (r, z, p) in enumerate(list(opt) + list(xpt)):
        x, y = r - ro, z - zo
        gx, gy = A1 * (x - x * x / exact(ctx, case["a"])), A2 * (y - y * y / exact(ctx, case["b"]))
        ctx.le("gradient", (gx * gx + gy * gy), r * r * q(ctx, 1, 10 ** 6))


def islands(centres, amps):
    def g(x, y):
        return sum(w * math.exp(-(x * x / 0.5 + (y - c) ** 2 / 0.6)) for c, w in zip(centres, amps))
    return g


@H("discard", bounds="three islands in a column, primary O-point at its end, 9x25 grid, arbitrary amplitude, sign and offset", budget=240)
def discard(ctx):
    """the X-point beyond the neighbouring island is dropped, the adjacent one is kept and comes first"""
    g = islands((0.0, 1.6, 2.9), (1.0, 0.9, 0.8))
    nx, ny = 9, 25
    up = not ctx.flag("downwards")
    R, Z = axes(ctx, 1.0, 0.25, nx, -2.25 if up else -3.75, 0.25, ny)
    A, p0 = ctx.real("A", 0.5, 2), ctx.real("p0", -2, 2)
    if ctx.flag("negative"):
        A = -A
    G = ctx.arr([[exact(ctx, round(g(0.25 * i - 1.0, (-2.25 if up else 3.75) + (0.25 if up else -0.25) * j), 5)) for j in range(ny)] for i in range(nx)])
    psi = p0 + A * G
    all_ = ctx.flag("keep_all")
    opt, xpt = ctx.fg.critical.find_critical(R, Z, psi, discard_xpoints=not all_)
    ctx.check("opoints", len(opt) == 3)
    ctx.check("xpoints", len(xpt) == (2 if all_ else 1))
    sg = 1 if up else -1
    if len(opt) == 3 and len(xpt) == (2 if all_ else 1):
        ctx.near("axis", opt[0][1], exact(ctx, 0.0), 0.2)
        # without discarding, the far X-point is nearer in flux and comes first
        ctx.near("xpoint", xpt[-1][1], exact(ctx, sg * 0.8), 0.3)
        if all_:
            ctx.near("far_xpoint", xpt[0][1], exact(ctx, sg * 2.25), 0.3)
            ctx.le("ordered", absv(ctx, xpt[0][2] - opt[0][2]), absv(ctx, xpt[1][2] - opt[0][2]))


@H("elongated", bounds="9x9, narrow valley of arbitrary depth, width and offset, rising or sinking along its floor, of either sign; the poloidal field has a local minimum at two nodes of the valley", budget=240)
def elongated(ctx):
    """a critical point reached from more than one node is reported once"""
    R, Z = axes(ctx, 1.0, 0.25, 9, -1.0, 0.25, 9)
    A, p0 = ctx.real("A", 1, 3), ctx.real("p0", -2, 2)
    w = ctx.real("steep", 40, 60)
    isx = ctx.flag("saddle")
    if ctx.flag("negative"):
        A = -A
    rc, zc = exact(ctx, 2.0), exact(ctx, -0.125)  # half-way between two nodes of the valley
    x, y = R - rc, Z - zc
    if ctx.flag("mirrored"):
        y = Z + zc
    u, v = x - 2 * y, 2 * x + y
    psi = p0 + A * (w * u * u + (-1 if isx else 1) * v * v)
    opt, xpt = ctx.fg.critical.find_critical(R, Z, psi)
    ctx.check("found_once", (len(opt), len(xpt)) == ((0, 1) if isx else (1, 0)))
    for r, z, p in list(opt) + list(xpt):
        ctx.near("R", r, rc, 0.01)
        ctx.near("Z", absv(ctx, z), -zc, 0.01)
        ctx.near("psi", p, p0, 0.01)


@H("nothing", bounds="5x5, flux linear in R and Z")
def nothing(ctx):
    """a flux without critical points gives two empty lists"""
    R, Z = axes(ctx, 1.0, 0.25, 6, -1.0, 0.5, 5)
    a, b, c = ctx.real("a", 0.1, 3), ctx.real("b", -3, 3), ctx.real("c", -3, 3)
    opt, xpt = ctx.fg.critical.find_critical(R, Z, c + a * R + b * Z)
    ctx.check("empty", list(opt) == [] and list(xpt) == [])
