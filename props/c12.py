"""C12  Profile constraints: plasma current, axis pressure, poloidal beta."""
from .common import *
from .c09 import ref_grid, romb2, edge

HARNESSES = H = Harnesses()
ENCODES = ["freegs.jtor.ConstrainPaxisIp.*", "freegs.jtor.ConstrainBetapIp.*", "freegs.jtor.ProfilesPprimeFfprime.Jtor", "freegs.jtor.Profile.*"]
BOUNDS = "5x5 grid; arbitrary axis and boundary flux (either order), profile exponents 1..2; given profiles: arbitrary domain, flux and mask; constrained profiles: fixed domain, flux pattern and mask with one arbitrary point each (several places)"
ASSUMPTIONS = ["critical-point search and core mask replaced by arbitrary results (decided by C14, C15)",
               "adaptive quadrature is exact (it is, for these polynomial profiles)"]
NX = NY = 5


class Eq:
    """What the profiles need of an equilibrium."""

    def __init__(self, ctx, bnd, limited=False):
        self.bnd = bnd
        self.check_limited = limited
        self.psi_bndry = None
        self.br = self.bz = None
        self.got = []

    def _updateBoundaryPsi(self, psi=None):
        self.got.append(psi)
        self.psi_bndry = self.bnd

    def Br(self, R, Z):
        return self.br.copy()

    def Bz(self, R, Z):
        return self.bz.copy()


def grid(ctx):
    R0, w = ctx.real("Rmin", 0.2, 2), ctx.real("width", 0.5, 2)
    Z0, h = ctx.real("Zmin", -2, 1), ctx.real("height", 0.5, 3)
    dom = (R0, R0 + w, Z0, Z0 + h)
    Rs, Zs = ref_grid(ctx, dom, NX, NY)
    R = np.empty((NX, NY), dtype=object)
    Z = np.empty((NX, NY), dtype=object)
    for i in range(NX):
        for j in range(NY):
            R[i, j], Z[i, j] = Rs[i], Zs[j]
    if not ctx.symbolic:
        R, Z = R.astype(float), Z.astype(float)
    return R, Z, w * q(ctx, 1, NX - 1), h * q(ctx, 1, NY - 1)


def fluxes(ctx):
    a = ctx.real("psi_axis", -2, 2)
    d = ctx.real("dpsi", 0.1, 2)
    b = a - d if ctx.flag("axis_is_max") else a + d
    return a, b


def mask_stub(ctx, M, log):
    def core_mask(R, Z, psi, opoint, xpoint=[], psi_bndry=None):
        log.append((psi, psi_bndry, opoint, xpoint))
        return M.copy()
    return core_mask


def shape(ctx, x, m, n):
    c = clip(ctx, x, 0.0, 1.0)
    return (1 - c ** m) ** n


PAT = [[1.5, 1.25, 1.125, 1.25, 1.5], [1.25, 0.75, 0.5, 0.875, 1.25], [1.125, 0.5, 0.0, 0.25, 1.125],
       [1.25, 0.625, 0.375, 0.5, 1.25], [1.5, 1.25, 1.25, 1.25, 1.5]]
MASKS = [[[0, 0, 0, 0, 0], [0, 1, 1, 1, 0], [0, 1, 1, 1, 0], [0, 0, 1, 1, 0], [0, 0, 0, 0, 0]]]


def cgrid(ctx):
    """fixed domain: R = 1 .. 2, Z = -1 .. 1"""
    R = ctx.arr([[exact(ctx, 1 + i / 4)] * NY for i in range(NX)])
    Z = ctx.arr([[exact(ctx, -1 + j / 2) for j in range(NY)] for i in range(NX)])
    return R, Z, exact(ctx, 0.25), exact(ctx, 0.5)


def scenario(ctx, cls, exps, twice=True):
    """fixed grid, flux pattern with one arbitrary point, mask with one arbitrary point"""
    R, Z, dR, dZ = cgrid(ctx)
    a, b = fluxes(ctx)
    m, n = exps[ctx.choose("alpha", len(exps))]
    eq = Eq(ctx, b)
    val = ctx.real("constraint", 0.01, 100)
    Ip = ctx.real("Ip", 0.5, 100)
    if ctx.flag("Ip_negative"):
        Ip = -Ip
    Ra = ctx.real("Raxis", 0.5, 3)
    prof = cls(eq, val, Ip, ctx.real("fvac", 0.1, 5), alpha_m=m, alpha_n=n, Raxis=Ra)
    k, l = ((1, 3), (2, 1), (3, 3))[ctx.choose("point", 3)]
    t = ctx.real("t", 0, 1) if ctx.flag("inside") else (ctx.real("t_out", 1, 1.5) if ctx.flag("outside") else ctx.real("t_neg", -0.5, 0))
    pat = [[exact(ctx, v) for v in r] for r in PAT]
    pat[k][l] = t
    psin = ctx.arr(pat)
    M = ctx.arr([[exact(ctx, v) for v in r] for r in MASKS[0]])
    M[3, 1] = ctx.real("maskval", 0, 1)
    return R, Z, dR, dZ, a, b, m, n, eq, val, Ip, Ra, prof, psin, M


def common_checks(ctx, prof, J, R, Z, dR, dZ, a, b, m, n, Ip, psin, M, psi, p0, log, narrow=False):
    A = dR * dZ
    jmax = None if ctx.symbolic else float(np.abs(J).max())
    sc = None if ctx.symbolic else float(np.abs(J).sum() * A) + abs(Ip)
    ctx.equal("total_current", romb2(ctx, J, NX, NY) * A, Ip, scale=sc)
    ctx.equal("psi_axis", prof.psi_axis, a)
    ctx.equal("psi_bndry", prof.psi_bndry, b)
    ctx.equal("psi_unchanged", psi, p0)
    for i in range(NX):
        for j in range(NY):
            ref = (R[i, j] * prof.pprime(psin[i, j]) + prof.ffprime(psin[i, j]) / (mu0(ctx) * R[i, j])) * M[i, j]
            ctx.equal("grad_shafranov_source", J[i, j], ref, scale=jmax)
    u = ctx.real("u", 0, 1) if narrow else ctx.real("u", -1, 2)
    ctx.equal("pprime_profile", prof.pprime(u), prof.pprime(exact(ctx, 0)) * shape(ctx, u, m, n))
    ctx.equal("ffprime_profile", prof.ffprime(u), prof.ffprime(exact(ctx, 0)) * shape(ctx, u, m, n))
    ctx.check("mask_for_this_flux", len(log) == 1 and log[0][0] is psi)
    ctx.equal("mask_boundary", log[0][1], b)
    ctx.equal("fvac", prof.fvac(), ctx.real("fvac", 0.1, 5))


@H("paxis_ip", bounds="5x5 fixed domain, fixed pattern of normalised flux and mask with one arbitrary point each (three places)", budget=240)
def paxis_ip(ctx):
    """the current density integrates to the requested current, the axis pressure is the requested one, and J = R p' + ff'/(mu0 R) inside the mask, zero outside"""
    P = ctx.fg.jtor
    R, Z, dR, dZ, a, b, m, n, eq, pax, Ip, Ra, prof, psin, M = scenario(ctx, P.ConstrainPaxisIp, ((1, 2), (2, 1), (1, 1), (2, 2)))
    psi = a + (b - a) * psin
    p0 = psi.copy()
    log = []
    with stubs(ctx, critical__find_critical=fixed_critical([(1.0, 0.0, a)], [(1.0, -0.5, b)]),
               critical__core_mask=mask_stub(ctx, M, log)):
        J = prof.Jtor(R, Z, psi)
    common_checks(ctx, prof, J, R, Z, dR, dZ, a, b, m, n, Ip, psin, M, psi, p0, log)
    ctx.equal("axis_pressure", prof.pressure(exact(ctx, 0)), pax, rtol=1e-8)
    ctx.equal("edge_pressure", prof.pressure(exact(ctx, 1)), exact(ctx, 0), scale=None if ctx.symbolic else pax)


@H("betap_ip", bounds="5x5 fixed domain, fixed pattern of normalised flux and mask with one arbitrary point each; poloidal field arbitrary at three points", budget=240, clip="fork")
def betap_ip(ctx):
    """the current density integrates to the requested current and 2 mu0 int(p R)/int(Bpol^2 R) over the core is the requested poloidal beta"""
    P = ctx.fg.jtor
    R, Z, dR, dZ, a, b, m, n, eq, bp, Ip, Ra, prof, psin, M = scenario(ctx, P.ConstrainBetapIp, ((1, 2), (2, 1)))
    psi = a + (b - a) * psin
    p0 = psi.copy()
    eq.br = ctx.arr([[exact(ctx, 0.5 + i / 8 - j / 4) for j in range(NY)] for i in range(NX)])
    eq.bz = ctx.arr([[exact(ctx, 0.25 + j / 8 - i / 4) for j in range(NY)] for i in range(NX)])
    eq.br[1, 2] = ctx.real("br0", -1, 1)
    eq.bz[1, 2] = ctx.real("bz0", -1, 1)
    eq.bz[3, 1] = ctx.real("bz1", -1, 1)
    log = []
    with stubs(ctx, critical__find_critical=fixed_critical([(1.0, 0.0, a)], [(1.0, -0.5, b)]),
               critical__core_mask=mask_stub(ctx, M, log)):
        J = prof.Jtor(R, Z, psi)
    p = np.empty((NX, NY), dtype=object)
    B2 = np.empty((NX, NY), dtype=object)
    for i in range(NX):
        for j in range(NY):
            p[i, j] = exact(ctx, 0)
            # pressure() is the profile's own; outside the plasma there is none
            if not edge(i, j, NX, NY) and bool(psin[i, j] < 1) and bool(psin[i, j] >= 0):
                p[i, j] = prof.pressure(psin[i, j]) * R[i, j] * M[i, j]
            B2[i, j] = (eq.br[i, j] ** 2 + eq.bz[i, j] ** 2) * R[i, j] * M[i, j]
    num, den = 2 * mu0(ctx) * romb2(ctx, p, NX, NY), romb2(ctx, B2, NX, NY)
    ctx.equal("poloidal_beta", num, bp * den, rtol=1e-6)
    common_checks(ctx, prof, J, R, Z, dR, dZ, a, b, m, n, Ip, psin, M, psi, p0, log, narrow=True)


@H("boundary_choice", bounds="given boundary flux, X-point flux, or no X-point; limited or not")
def boundary_choice(ctx):
    """the boundary flux used is the one given, else the equilibrium's, else the X-point's, else that of the corner; a limited plasma always uses the equilibrium's"""
    P = ctx.fg.jtor
    R, Z, dR, dZ = grid(ctx)
    a, b = fluxes(ctx)
    kind = ctx.choose("kind", 3)
    psi = ctx.array("psi", (NX, NY), -3, 3)
    M = ctx.arr([[exact(ctx, 1)] * NY] * NX)
    eqb = [None, b][ctx.choose("eq_has_boundary", 2)]
    eq = Eq(ctx, eqb, limited=ctx.flag("limited"))
    eq.br, eq.bz = ctx.arr([[1.0] * NY] * NX), ctx.arr([[1.0] * NY] * NX)
    x = ctx.real("psi_x", 2.5, 3.5)
    has_x = ctx.flag("xpoint")
    g = ctx.real("given", 4, 5)
    given = ctx.flag("give")
    if kind == 0:
        prof = P.ConstrainPaxisIp(eq, ctx.real("pax", 1, 10), ctx.real("Ip", 1, 10), 1.0)
    else:
        prof = P.ProfilesPprimeFfprime(lambda s: 2 * s, lambda s: 3 * s, 1.0)
    if kind == 2:
        given = False
    corner = psi[0, 0]
    exp = None
    if given and not (kind == 0 and eq.check_limited):
        exp = g
    elif kind == 0 and eqb is not None:
        exp = b
    elif has_x:
        exp = x
    else:
        exp = corner
    ctx.assume(absv(ctx, exp - a) >= q(ctx, 1, 100))
    log = []
    with stubs(ctx, critical__find_critical=fixed_critical([(1.0, 0.0, a)], [(1.0, -0.5, x)] if has_x else []),
               critical__core_mask=mask_stub(ctx, M, log)):
        J = prof.Jtor(R, Z, psi, psi_bndry=g) if given else prof.Jtor(R, Z, psi)
    ctx.equal("boundary_flux", prof.psi_bndry, exp)
    ctx.equal("axis_flux", prof.psi_axis, a)
    if kind:
        s = clip(ctx, (psi - a) / (exp - a), 0.0, 1.0)
        ctx.equal("J", J, R * 2 * s + 3 * s / (mu0(ctx) * R), rtol=1e-6)


@H("specified", bounds="5x5, arbitrary flux and mask; polynomial p' and ff'")
def specified(ctx):
    """with given p' and ff' functions, J = R p' + ff'/(mu0 R) at the clipped normalised flux, times the mask"""
    P = ctx.fg.jtor
    R, Z, dR, dZ = grid(ctx)
    a, b = fluxes(ctx)
    psi = ctx.array("psi", (NX, NY), -3, 3)
    p0 = psi.copy()
    M = ctx.array("M", (NX, NY), 0, 1)
    c = ctx.reals("c", 4, -2, 2)
    pp = lambda s: c[0] + c[1] * s
    ff = lambda s: c[2] + c[3] * s * s
    prof = P.ProfilesPprimeFfprime(pp, ff, ctx.real("fvac", 0.1, 5))
    log = []
    with stubs(ctx, critical__find_critical=fixed_critical([(1.0, 0.0, a)], [(1.0, -0.5, b)]),
               critical__core_mask=mask_stub(ctx, M, log)):
        J = prof.Jtor(R, Z, psi)
    s = clip(ctx, (psi - a) / (b - a), 0.0, 1.0)
    for i in range(NX):
        for j in range(NY):
            ctx.equal("J", J[i, j], (R[i, j] * pp(s[i, j]) + ff(s[i, j]) / (mu0(ctx) * R[i, j])) * M[i, j], scale=None if ctx.symbolic else float(np.abs(J).max()))
    ctx.equal("psi_unchanged", psi, p0)
    t = ctx.real("t", 0, 1)
    ctx.equal("pprime", prof.pprime(t), pp(t))
    ctx.equal("ffprime", prof.ffprime(t), ff(t))


@H("refusals")
def refusals(ctx):
    """negative exponents are refused, and a flux without O-point is an error"""
    P = ctx.fg.jtor
    eq = Eq(ctx, exact(ctx, 1))
    for cls in (P.ConstrainPaxisIp, P.ConstrainBetapIp):
        k = ctx.real("neg", 0.001, 3)
        ctx.raises("alpha_m", ValueError, lambda: cls(eq, 1.0, 1.0, 1.0, alpha_m=-k))
        ctx.raises("alpha_n", ValueError, lambda: cls(eq, 1.0, 1.0, 1.0, alpha_n=-k))
    R, Z, dR, dZ = grid(ctx)
    psi = ctx.array("psi", (NX, NY), -3, 3)
    with stubs(ctx, critical__find_critical=no_critical):
        for prof in (P.ConstrainPaxisIp(eq, 1.0, 1.0, 1.0), P.ConstrainBetapIp(eq, 1.0, 1.0, 1.0),
                     P.ProfilesPprimeFfprime(lambda s: s, lambda s: s, 1.0)):
            ctx.raises("no_opoint", ValueError, lambda: prof.Jtor(R, Z, psi))
