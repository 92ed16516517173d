"""C16  Flux surface and separatrix tracing."""
from .common import *

HARNESSES = H = Harnesses()
ENCODES = ["freegs.critical.find_psisurface", "freegs.critical.find_separatrix", "freegs.equilibrium.Equilibrium.separatrix"]
BOUNDS = "find_psisurface: arbitrary start, end and domain, 2..6 samples with arbitrary flux values; find_separatrix: 4..6 angles, arbitrary axis, X-point and flux"
ASSUMPTIONS = ["find_separatrix: the search along one ray is replaced by an arbitrary result on that ray (decided by the find_psisurface harnesses)"]


class Dom:
    pass


def dom(ctx):
    e = Dom()
    e.Rmin, e.Zmin = ctx.real("Rmin", 0.1, 1), ctx.real("Zmin", -3, -1)
    e.Rmax, e.Zmax = e.Rmin + ctx.real("width", 1, 3), e.Zmin + ctx.real("height", 2, 4)
    return e


def ray(ctx, e):
    """start inside the domain, end anywhere"""
    fr, fz = ctx.real("fr", 0.1, 0.9), ctx.real("fz", 0.1, 0.9)
    r0, z0 = e.Rmin + fr * (e.Rmax - e.Rmin), e.Zmin + fz * (e.Zmax - e.Zmin)
    k = ctx.choose("direction", 4)
    dr, dz = ctx.real("dr", 0.01, 10), ctx.real("dz", 0.01, 10)
    zero = exact(ctx, 0)
    dr, dz = ((dr, dz), (-dr, dz), (zero, -dz), (dr, zero))[k]
    return r0, z0, r0 + dr, z0 + dz


@H("clipped_ray", bounds="arbitrary ray, 2 samples", clip="fork")
def clipped_ray(ctx):
    """the search line starts at the given point and runs in the given direction to the given end, or to the edge of the domain if that comes first"""
    e = dom(ctx)
    r0, z0, r1, z1 = ray(ctx, e)
    got = {}

    def psi(r, z, grid=True):
        got["r"], got["z"], got["grid"] = r, z, grid
        return ctx.arr([exact(ctx, v) for v in (0, 2)])
    r, z = ctx.fg.critical.find_psisurface(e, psi, r0, z0, r1, z1, psival=exact(ctx, 1), n=2)
    ctx.check("pointwise", got["grid"] is False and len(got["r"]) == 2)
    re, ze = got["r"][-1], got["z"][-1]
    ctx.equal("start_R", got["r"][0], r0)
    ctx.equal("start_Z", got["z"][0], z0)
    ctx.equal("on_line", (re - r0) * (z1 - z0), (ze - z0) * (r1 - r0), scale=None if ctx.symbolic else 10.0)
    for n, v, lo, hi in (("R", re, e.Rmin, e.Rmax), ("Z", ze, e.Zmin, e.Zmax)):
        ctx.le("inside_%s_low" % n, lo, v)
        ctx.le("inside_%s_high" % n, v, hi)
    ctx.check("forward", (re - r0) * (r1 - r0) + (ze - z0) * (z1 - z0) > 0)
    ctx.equal("full_length", (re - r1) * (re - e.Rmin) * (re - e.Rmax) * (ze - e.Zmin) * (ze - e.Zmax), exact(ctx, 0), scale=None if ctx.symbolic else 100.0)
    ctx.equal("midpoint_R", r, (r0 + re) / 2)
    ctx.equal("midpoint_Z", z, (z0 + ze) / 2)


@H("crossing", bounds="2, 4 and 6 samples with arbitrary flux, arbitrary target")
def crossing(ctx):
    """the result is the linear interpolation of the first upward crossing of the target; the start if there is none or it is above already"""
    e = Dom()
    e.Rmin, e.Rmax, e.Zmin, e.Zmax = (exact(ctx, v) for v in (0.5, 3.5, -2, 2))
    n = (2, 4, 6)[ctx.choose("n", 3)]
    r0, z0 = ctx.real("r0", 1, 3), ctx.real("z0", -1, 1)
    r1, z1 = r0 + ctx.real("dr", 0.01, 0.5), z0 + ctx.real("dz", 0.01, 1)
    p = ctx.reals("p", n, -1, 3)
    pv = ctx.real("psival", 0, 2)

    def psi(r, z, grid=True):
        return ctx.arr(p)
    r, z = ctx.fg.critical.find_psisurface(e, psi, r0, z0, r1, z1, psival=pv, n=n)
    k = None
    for i in range(n):
        if bool(p[i] > pv):
            k = i
            break
    if not k:
        ctx.equal("start_R", r, r0)
        ctx.equal("start_Z", z, z0)
        return
    t = (q(ctx, k - 1, n - 1) * (p[k] - pv) + q(ctx, k, n - 1) * (pv - p[k - 1])) / (p[k] - p[k - 1])
    ctx.equal("R", r, r0 + (r1 - r0) * t, rtol=1e-5)
    ctx.equal("Z", z, z0 + (z1 - z0) * t, rtol=1e-5)
    ctx.equal("default_target", *[ctx.fg.critical.find_psisurface(e, lambda r, z, grid: ctx.arr([exact(ctx, v) for v in (0.0, 0.5, 1.5, 1.0)]), r0, z0, r1, z1, n=4)[0] - r0, (r1 - r0) / 2])


def make_eq(ctx, nx=6, ny=5):
    e = Dom()
    e.R = ctx.arr([[exact(ctx, 1 + i / 4)] * ny for i in range(nx)])
    e.Z = ctx.arr([[exact(ctx, -1 + j / 2) for j in range(ny)] for i in range(nx)])
    e.Rmin, e.Rmax, e.Zmin, e.Zmax = (exact(ctx, v) for v in (1, 2.25, -1, 1))
    return e


@H("separatrix", bounds="4..6 angles, arbitrary O-point, X-point, flux, fraction along every ray", spline_fork=False)
def separatrix(ctx):
    """one point per angle, equally spaced round the O-point starting at theta = 0 (shifted by half a step only if the X-point is on a ray), on the surface of the given normalised flux, with the X-point attached"""
    crit = ctx.fg.critical
    e = make_eq(ctx)
    a, b = ctx.real("psi_axis", -2, 2), ctx.real("psi_bndry", 3, 4)
    e.psi_bndry = b
    psi = ctx.array("psi", (6, 5), -3, 3)
    n = 4 + ctx.choose("n", 3)
    ro, zo = ctx.real("Ro", 1.3, 1.9), ctx.real("Zo", -0.5, 0.5)
    rx, zx = ro + ctx.real("drx", -0.2, 0.2), zo - ctx.real("dzx", 0.1, 0.4)
    opt, xpt = [(ro, zo, a)], [(rx, zx, b - 1)]
    mode = ctx.choose("given", 2)
    pv = ctx.real("psival", 0.1, 1.2)
    fr = ctx.reals("f", n, 0.01, 0.09)
    calls = []

    def surf(eq, psifunc, r0, z0, r1, z1, psival=1.0, n=100, axis=None):
        k = len(calls)
        calls.append((psifunc, r0, z0, r1, z1, psival))
        return r0 + fr[k % len(fr)] * (r1 - r0), z0 + fr[k % len(fr)] * (z1 - z0)
    seen = []

    def crit_stub(R, Z, p, *args, **k):
        seen.append(p)
        return list(opt), list(xpt)
    e.psi = lambda: psi
    with stubs(ctx, critical__find_psisurface=surf, critical__find_critical=crit_stub):
        if mode == 0:
            out = crit.find_separatrix(e, ntheta=n, psival=pv)
            ctx.check("critical_points_of_psi", len(seen) == 1 and seen[0] is psi)
        else:
            out = crit.find_separatrix(e, opt, xpt, ntheta=n, psi=psi, psival=pv)
    ctx.check("count", len(out) == n and len(calls) == n)
    two_pi = 2 * ctx.pi
    # X-point angle, measured as the rays are (clockwise from +Z)
    tx = _atan2(ctx, rx - ro, zx - zo)
    if bool(tx < 0):
        tx = tx + two_pi
    hit = any([bool(absv(ctx, q(ctx, k, n) * two_pi - tx) < q(ctx, 1, 1000)) for k in range(n)])
    for k in range(n):
        f, r0, z0, r1, z1, p = calls[k]
        ctx.equal("from_axis_R", r0, ro)
        ctx.equal("from_axis_Z", z0, zo)
        ctx.equal("target", p, pv)
        th = q(ctx, 2 * k + (1 if hit else 0), 2 * n) * two_pi
        L2 = (r1 - r0) ** 2 + (z1 - z0) ** 2
        s, c = sin(ctx, th), cos(ctx, th)
        ctx.equal("angle", (r1 - r0) * c, (z1 - z0) * s, scale=None if ctx.symbolic else 10.0)
        ctx.check("direction", (r1 - r0) * s + (z1 - z0) * c > 0)
        ctx.equal("R", out[k][0], r0 + fr[k] * (r1 - r0))
        ctx.equal("Z", out[k][1], z0 + fr[k] * (z1 - z0))
        ctx.equal("X_R", out[k][2], rx)
        ctx.equal("X_Z", out[k][3], zx)
    for i, j in ((0, 0), (3, 2), (5, 4), (1, 3)):
        ctx.equal("normalised_flux", calls[0][0](e.R[i, j], e.Z[i, j], grid=False), (psi[i, j] - a) / (b - a), scale=None if ctx.symbolic else 3.0)


@H("x_on_ray", bounds="4 and 8 angles, X-point at any distance along an axis direction from the O-point, arbitrary flux", spline_fork=False)
def x_on_ray(ctx):
    """an X-point in the direction of one of the angles shifts all of them by half a step, one between the angles does not"""
    crit = ctx.fg.critical
    e = make_eq(ctx)
    a, b = ctx.real("psi_axis", -2, 2), ctx.real("psi_bndry", 3, 4)
    e.psi_bndry, e.is_limited = b, False
    psi = ctx.array("psi", (6, 5), -3, 3)
    n, hit = ((4, True), (8, True), (6, False))[ctx.choose("n", 3)]
    ro, zo = ctx.real("Ro", 1.3, 1.9), ctx.real("Zo", -0.5, 0.5)
    d = ctx.real("d", 0.1, 0.4)
    # six angles: two of the directions are between them
    r, z = ((-1, 0), (1, 0), (0, 1), (0, -1))[ctx.choose("direction", 4 if hit else 2)]
    rx, zx = ro + r * d, zo + z * d
    calls = []

    def surf(eq, psifunc, r0, z0, r1, z1, psival=1.0, n=100, axis=None):
        calls.append((r1 - r0, z1 - z0))
        return r0, z0
    with stubs(ctx, critical__find_psisurface=surf):
        crit.find_separatrix(e, [(ro, zo, a)], [(rx, zx, b)], ntheta=n, psi=psi)
    ctx.check("count", len(calls) == n)
    for k, (dr, dz) in enumerate(calls):
        th = q(ctx, 2 * k + (1 if hit else 0), 2 * n) * 2 * ctx.pi
        s, c = sin(ctx, th), cos(ctx, th)
        ctx.equal("angle", dr * c, dz * s, scale=None if ctx.symbolic else 10.0)
        ctx.check("direction", dr * s + dz * c > 0)


def _atan2(ctx, y, x):
    if ctx.symbolic:
        return ctx.np.arctan2(y, x)
    return np.arctan2(y, x)


@H("quadratic", bounds="elliptic flux surfaces, four angles, 1000 samples per ray, arbitrary axis flux, flux range (either sign)", budget=200)
def quadratic(ctx):
    """for elliptic flux surfaces the points lie on the ellipse of the requested normalised flux"""
    crit = ctx.fg.critical
    e = make_eq(ctx, 7, 7)
    e.Rmin, e.Rmax, e.Zmin, e.Zmax = (exact(ctx, v) for v in (1, 2.5, -1, 2))
    a, d = ctx.real("psi_axis", -2, 2), ctx.real("d", 0.5, 2)
    if ctx.flag("negative"):
        d = -d
    ro, zo = exact(ctx, 1.75), exact(ctx, 0.5)
    w, h = exact(ctx, 0.5), exact(ctx, 1.0)
    psi = a + d * (((e.R - ro) / w) ** 2 + ((e.Z - zo) / h) ** 2)
    e.psi_bndry = a + d
    pv = (0.25, 1.0, 0.6)[ctx.choose("surface", 3)]
    out = crit.find_separatrix(e, [(ro, zo, a)], [(exact(ctx, 1.8), exact(ctx, -0.6), a + d)], ntheta=4, psi=psi, psival=pv)
    for k, (sr, sz) in enumerate(((0, 1), (1, 0), (0, -1), (-1, 0))):
        r, z = out[k][0], out[k][1]
        ctx.near("on_surface", ((r - ro) / w) ** 2 + ((z - zo) / h) ** 2, exact(ctx, pv), 1e-4)
        ctx.check("side", (r - ro) * sr + (z - zo) * sz > 0)
        ctx.near("on_ray", (r - ro) * sz - (z - zo) * sr, exact(ctx, 0), 1e-9)


@H("equilibrium_separatrix", bounds="3 and 5 points, arbitrary coordinates")
def equilibrium_separatrix(ctx):
    """Equilibrium.separatrix returns the R, Z columns for the requested number of points"""
    n = (3, 5)[ctx.choose("n", 2)]
    fg = ctx.fg
    pts = [tuple(ctx.reals("p%d" % k, 4, 0.1, 2)) for k in range(n)]
    log = []

    def sep(eq, opoint=None, xpoint=None, ntheta=20, psi=None, axis=None, psival=1.0):
        log.append((eq, ntheta, psi, psival))
        return list(pts)

    class E(fg.equilibrium.Equilibrium):
        def __init__(self):
            self.P = ctx.array("psi", (3, 3), -1, 1)

        def psi(self):
            return self.P
    e = E()
    with stubs(ctx, critical__find_separatrix=sep):
        out = e.separatrix(npoints=n)
    ctx.check("shape", np.shape(out) == (n, 2))
    for k in range(n):
        ctx.equal("R", out[k, 0], pts[k][0])
        ctx.equal("Z", out[k, 1], pts[k][1])
    ctx.check("asked", len(log) == 1 and log[0][0] is e and log[0][1] == n and log[0][3] == 1.0)
    if log and log[0][2] is not None:
        ctx.equal("psi", log[0][2], e.P)
