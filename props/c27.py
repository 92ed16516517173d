"""C27  Evaluating flux and field of an equilibrium."""
from .common import *
from .c09 import ref_grid, edge

HARNESSES = H = Harnesses()
ENCODES = ["freegs.equilibrium.Equilibrium.{psi,psiN,psiRZ,psiNRZ,plasmaBr,plasmaBz,Br,Bz,Bpol,Btor,Btot,fpol,fvac,pprime,ffprime,pressure}",
           "freegs.machine.Machine.{psi,Br,Bz,createPsiGreens,calcPsiFromGreens}"]
BOUNDS = "5x5, 5x9 and 9x5 grids; plasma flux an arbitrary bicubic polynomial (10 coefficients) and evaluation anywhere in the domain, or arbitrary values at all nodes and evaluation at nodes; 2 coils with arbitrary responses and currents changed afterwards; arbitrary core mask"
ASSUMPTIONS = ["axis, X-point and core mask are arbitrary results of the searches (C14, C15)",
               "cubic splines: exact for cubic polynomials, exact at nodes"]


class Prof:
    def __init__(self, ctx):
        self.a = {k: ctx.reals(k + "_", 2, 0.5, 2) for k in ("fpol", "pprime", "ffprime", "pressure")}
        self.fv = ctx.real("fvac", 1, 2)

    def _e(self, k, x):
        return self.a[k][0] + self.a[k][1] * x

    def fpol(self, x):
        return self._e("fpol", x)

    def pprime(self, x):
        return self._e("pprime", x)

    def ffprime(self, x):
        return self._e("ffprime", x)

    def pressure(self, x):
        return self._e("pressure", x)

    def fvac(self):
        return self.fv

    def Jtor(self, R, Z, psi, psi_bndry=None):
        return psi * 0


def solved(ctx, P, prof, tok, dom, opt, xpt, mask=None, J=None, boundary=None):
    """an equilibrium whose last solve gave the plasma flux P (public interface only)"""
    nx, ny = P.shape
    crit = fixed_critical(opt, xpt)

    def cm(R, Z, psi, o, x=(), pb=None):
        return mask.copy()
    st = dict(critical__find_critical=crit)
    if mask is not None:
        st["critical__core_mask"] = cm
    eq = None
    with stubs(ctx, **st):
        eq = ctx.fg.equilibrium.Equilibrium(tok, Rmin=dom[0], Rmax=dom[1], Zmin=dom[2], Zmax=dom[3], nx=nx, ny=ny,
                                            boundary=boundary or (lambda eq, J, psi: None), psi=P * 0, order=2)
        eq.setSolver(lambda x, b: P.copy())
        eq.solve(prof, Jtor=P * 0 if J is None else J)
    return eq


DOM = (0.5, 2.5, -1.0, 1.0)


def fdom(ctx):
    return tuple(exact(ctx, v) for v in DOM)


def coils(ctx, n=2):
    cs = [LinCoil(ctx, "ab"[i], ctx.real("I%d" % i, -2, 2)) for i in range(n)]
    return ctx.fg.machine.Machine([("P%d" % i, c) for i, c in enumerate(cs)]), cs


def poly(ctx):
    """cubic polynomial: value and derivatives"""
    c = {(i, j): ctx.real("c%d%d" % (i, j), -1, 1) for i in range(4) for j in range(4) if i + j <= 3}

    def f(r, z, dr=0, dz=0):
        t = 0
        for (i, j), k in c.items():
            if i < dr or j < dz:
                continue
            w = 1
            for m in range(dr):
                w *= i - m
            for m in range(dz):
                w *= j - m
            v = k * w
            for _ in range(i - dr):
                v = v * r
            for _ in range(j - dz):
                v = v * z
            t = t + v
        return t
    return f


def crit_points(ctx):
    a, b = ctx.real("psi_axis", -2, 2), ctx.real("psi_x", -4, 4)
    ctx.assume(absv(ctx, b - a) >= 0.5)
    return a, b, [(exact(ctx, 1.5), exact(ctx, 0), a)], [(exact(ctx, 1.5), exact(ctx, -0.75), b)]


def points(ctx, arrays):
    """scalar point or 1-D array of two points (the second one fixed)"""
    p = [(ctx.real("r0", 0.5, 2.5), ctx.real("z0", -1, 1)), (exact(ctx, 1.75), exact(ctx, 0.625))]
    if arrays:
        return ctx.arr([v[0] for v in p]), ctx.arr([v[1] for v in p]), p
    return p[0][0], p[0][1], p[:1]


def vals(v, n):
    return [v[k] for k in range(n)] if n > 1 else [v if not hasattr(v, "shape") or v.shape == () else v.ravel()[0]]


def coil_sum(cs, kind, r, z):
    t = 0
    for c in cs:
        t = t + c.current * c._g(kind, r, z)
    return t


@H("anywhere", bounds="cubic plasma flux, any point, 2 coils, scalar or array", spline_fork=True, budget=300)
def anywhere(ctx):
    """psiRZ, Br, Bz at any point are plasma (spline and its derivatives) plus coils at their present currents"""
    tok, cs = coils(ctx)
    f = poly(ctx)
    nx, ny, arrays = ((5, 5, True), (5, 9, False), (9, 5, False))[ctx.choose("grid", 3)]
    dom = fdom(ctx)
    Rs, Zs = ref_grid(ctx, dom, nx, ny)
    P = ctx.arr([[f(r, z) for z in Zs] for r in Rs])
    a, b, o, x = crit_points(ctx)
    eq = solved(ctx, P, Prof(ctx), tok, dom, o, x, mask=ctx.arr([[1.0] * ny] * nx))
    cs[1].current = ctx.real("I1_later", -2, 2)
    R, Z, pts = points(ctx, arrays)
    n = len(pts)
    kind = ctx.choose("what", 3)
    SC = 30.0 if not ctx.symbolic else None
    if kind == 0:
        for (r, z), v, w in zip(pts, vals(eq.psiRZ(R, Z), n), vals(eq.psiNRZ(R, Z), n)):
            p = f(r, z) + coil_sum(cs, "psi", r, z)
            ctx.equal("psiRZ", v, p, scale=SC)
            ctx.equal("psiNRZ", w * (b - a), p - a, scale=SC)
    elif kind == 1:
        for (r, z), v, w in zip(pts, vals(eq.Br(R, Z), n), vals(eq.plasmaBr(R, Z), n)):
            pb = -f(r, z, 0, 1) / r
            ctx.equal("plasmaBr", w, pb, scale=SC)
            ctx.equal("Br", v, pb + coil_sum(cs, "br", r, z), scale=SC)
    else:
        for (r, z), v, w in zip(pts, vals(eq.Bz(R, Z), n), vals(eq.plasmaBz(R, Z), n)):
            pb = f(r, z, 1, 0) / r
            ctx.equal("plasmaBz", w, pb, scale=SC)
            ctx.equal("Bz", v, pb + coil_sum(cs, "bz", r, z), scale=SC)


@H("grid", bounds="5x5 grid, arbitrary flux at every node, coil current changed after the solve")
def grid(ctx):
    """psi() is plasma plus coils at their present currents, equal to psiRZ at the nodes; psiN normalises with axis and boundary flux"""
    tok, cs = coils(ctx)
    P = ctx.array("P", (5, 5), -2, 2)
    a, b, o, x = crit_points(ctx)
    dom = fdom(ctx)
    eq = solved(ctx, P, Prof(ctx), tok, dom, o, x, mask=ctx.arr([[1.0] * 5] * 5))
    P0 = P.copy()
    if ctx.choose("changed", 2):
        cs[0].current = ctx.real("I0_later", -2, 2)
    Rs, Zs = ref_grid(ctx, dom, 5, 5)
    psi, psin = eq.psi(), eq.psiN()
    at = eq.psiRZ(eq.R, eq.Z)
    for i in range(5):
        for j in range(5):
            want = P0[i, j] + coil_sum(cs, "psi", Rs[i], Zs[j])
            ctx.equal("psi", psi[i, j], want)
            ctx.equal("psiRZ_on_grid", at[i, j], want)
            ctx.equal("psiN", psin[i, j] * (b - a), want - a)
            ctx.equal("plasma_psi_kept", eq.plasma_psi[i, j], P0[i, j])


@H("magnitudes", bounds="any point, arbitrary field components")
def magnitudes(ctx):
    """Bpol and Btot are the magnitudes of (Br, Bz) and (Br, Bz, Btor)"""
    tok, cs = coils(ctx)
    P = ctx.array("P", (5, 5), -2, 2)
    a, b, o, x = crit_points(ctx)
    prof = Prof(ctx)
    masked = ctx.choose("masked", 2)
    dom = fdom(ctx)
    M = ctx.arr([[1.0 if (i, j) in ((2, 2), (2, 1), (1, 2)) else 0.0 for j in range(5)] for i in range(5)])
    if masked:
        eq = solved(ctx, P, prof, tok, dom, o, x, mask=M)
        bb = b
    else:
        eq = solved(ctx, P, prof, tok, dom, o, [], boundary=ctx.fg.boundary.fixedBoundary)
        bb = eq.psi()[0, 0]
    Rs, Zs = ref_grid(ctx, dom, 5, 5)
    i, j = ((2, 2), (1, 2), (2, 3), (4, 0))[ctx.choose("node", 4)]
    r, z = Rs[i], Zs[j]
    br, bz = eq.Br(r, z), eq.Bz(r, z)
    p = P[i, j] + coil_sum(cs, "psi", r, z)
    ctx.assume(absv(ctx, bb - a) >= 0.25)
    if masked and (i, j) not in ((2, 2), (1, 2)):
        f = prof.fv
    else:
        f = prof.a["fpol"][0] + prof.a["fpol"][1] * (p - a) / (bb - a)
    bt = f / r
    SC = 30.0 if not ctx.symbolic else None
    ctx.equal("Btor", eq.Btor(r, z), bt, scale=SC)
    ctx.equal("Bpol", eq.Bpol(r, z) ** 2, br * br + bz * bz, scale=SC)
    ctx.equal("Btot", eq.Btot(r, z) ** 2, br * br + bz * bz + bt * bt, scale=900.0 if not ctx.symbolic else None)
    ctx.check("Bpol_positive", bool(eq.Bpol(r, z) >= 0))
    ctx.check("Btot_positive", bool(eq.Btot(r, z) >= 0))


@H("across_the_edge", bounds="cubic plasma flux, mask changing linearly over the grid, any point, scalar or array", spline_fork=True)
def across_the_edge(ctx):
    """between grid points in the core and outside f is weighted with the interpolated core mask"""
    tok, cs = coils(ctx)
    f = poly(ctx)
    arrays = bool(ctx.choose("arrays", 2))
    dom = fdom(ctx)
    Rs, Zs = ref_grid(ctx, dom, 5, 5)
    P = ctx.arr([[f(r, z) for z in Zs] for r in Rs])
    a, b, o, x = crit_points(ctx)
    prof = Prof(ctx)
    eq = solved(ctx, P, prof, tok, dom, o, x, mask=ctx.arr([[exact(ctx, (i + j) / 8) for j in range(5)] for i in range(5)]))
    R, Z, pts = points(ctx, arrays)
    for (r, z), v in zip(pts, vals(eq.Btor(R, Z), len(pts))):
        m = ((r - exact(ctx, DOM[0])) / exact(ctx, DOM[1] - DOM[0]) + (z - exact(ctx, DOM[2])) / exact(ctx, DOM[3] - DOM[2])) / 2
        p = f(r, z) + coil_sum(cs, "psi", r, z)
        core = prof.a["fpol"][0] + prof.a["fpol"][1] * (p - a) / (b - a)
        ctx.equal("Btor", v * r, m * core + (1 - m) * prof.fv, scale=30.0 if not ctx.symbolic else None)


@H("profiles", bounds="any normalised flux")
def profiles(ctx):
    """fpol, fvac, pprime, ffprime and pressure are those of the profiles last solved with; forces and machine those of the machine"""
    tok, cs = coils(ctx)
    P = ctx.array("P", (5, 5), -2, 2)
    a, b, o, x = crit_points(ctx)
    prof = Prof(ctx)
    eq = solved(ctx, P, prof, tok, fdom(ctx), o, x, mask=ctx.arr([[1.0] * 5] * 5))
    s = ctx.real("psin", -1, 2)
    for k in ("fpol", "pprime", "ffprime", "pressure"):
        ctx.equal(k, getattr(eq, k)(s), prof.a[k][0] + prof.a[k][1] * s)
    ctx.equal("fvac", eq.fvac(), prof.fv)
    ctx.check("machine", eq.getMachine() is tok)
    got = []
    tok.getForces = lambda e=None: got.append(e) or {"P0": 1}
    ctx.check("forces", eq.getForces() == {"P0": 1} and got == [eq])
