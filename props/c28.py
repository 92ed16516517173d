"""C28  Global diagnostics are the documented volume integrals."""
from .common import *
from .c09 import ref_grid, romb2
from .c27 import Prof, solved, absv

HARNESSES = H = Harnesses()
ENCODES = ["freegs.equilibrium.Equilibrium.{plasmaVolume,poloidalBeta,poloidalBeta2,poloidalBeta3,toroidalBeta,totalBeta,betaN,pressure_ave,w_th,internalInductance,internalInductance1,internalInductance2,internalInductance3,effectiveElongation,qcyl}"]
BOUNDS = "5x5, 5x9 and 9x5 grids on fixed domains; arbitrary flux and field at every node of three core masks (or no mask: whole domain); arbitrary pressure, f, plasma current and separatrix points"
ASSUMPTIONS = ["flux, field and profile evaluation (C27) and geometry (C29) are arbitrary values"]


class Field:
    """a machine element with arbitrary flux and field at every node, and at single points"""
    control = False

    def __init__(self, ctx, nx, ny, nodes):
        self.ctx = ctx
        self.t = {}
        for k in ("psi", "br", "bz"):
            self.t[k] = ctx.arr([[ctx.real("%s_%d_%d" % (k, i, j), -2, 2) if (i, j) in nodes else exact(ctx, 0.25 * (i - j))
                                  for j in range(ny)] for i in range(nx)])
        self.current = exact(ctx, 1)
        self.point = {k: ctx.real(k + "_point", -2, 2) for k in ("psi", "br", "bz")}
        self.asked = []

    grid = None

    def _v(self, k, R, Z):
        if hasattr(R, "shape") and R.shape == self.t[k].shape and self.grid is None:
            return self.t[k].copy()
        if hasattr(R, "shape") and R.shape == self.t[k].shape:
            # the tables are the field at the grid points
            ok = hasattr(Z, "shape") and Z.shape == R.shape and all(
                abs(R[i, j] - r) <= 1e-9 and abs(Z[i, j] - z) <= 1e-9 for i, r in enumerate(self.grid[0]) for j, z in enumerate(self.grid[1]))
            self.ctx.check("field_at_grid_points", bool(ok))
            return self.t[k].copy()
        self.asked.append((k, R, Z))
        return self.point[k]

    def psi(self, R, Z):
        return self._v("psi", R, Z)

    def Br(self, R, Z):
        return self._v("br", R, Z)

    def Bz(self, R, Z):
        return self._v("bz", R, Z)

    createPsiGreens = controlPsi = psi
    controlBr, controlBz = Br, Bz

    def calcPsiFromGreens(self, g):
        return g


CORE = [None, [(2, 2), (2, 3), (1, 2)], [(1, 1), (1, 2), (2, 2), (3, 2), (3, 3)]]
SHAPES = [(5, 5), (5, 9), (9, 5)]


class Case:
    pass


def case(ctx, shapes=True, small=False):
    c = Case()
    c.nx, c.ny = SHAPES[ctx.choose("shape", 3)] if shapes else (5, 5)
    k = ctx.choose("mask", 3)
    core = CORE[k]
    c.dom = tuple(exact(ctx, v) for v in (0.5, 2.5, -1.0, 2.0))
    c.Rs, c.Zs = ref_grid(ctx, c.dom, c.nx, c.ny)
    c.dR, c.dZ = (c.dom[1] - c.dom[0]) / (c.nx - 1), (c.dom[3] - c.dom[2]) / (c.ny - 1)
    nodes = core if core else [(0, 0), (0, 1), (2, 2), (4, 3)]
    if small:
        nodes = nodes[1:3]
    c.F = Field(ctx, c.nx, c.ny, nodes)
    c.F.grid = c.Rs, c.Zs
    tok = ctx.fg.machine.Machine([("F", c.F)])
    c.prof = Prof(ctx)
    zero = ctx.arr([[exact(ctx, 0)] * c.ny for _ in range(c.nx)])
    c.Ip = ctx.real("Ip", 0.5, 2) * (1 if ctx.choose("sign", 2) else -1)
    J = zero + c.Ip / ((c.dom[1] - c.dom[0]) * (c.dom[3] - c.dom[2]))
    a, b = (exact(ctx, 1.5), exact(ctx, -1)) if small else (ctx.real("psi_axis", -2, 2), ctx.real("psi_x", -4, 4))
    o, x = [(exact(ctx, 1.25), exact(ctx, 0.5), a)], [(exact(ctx, 1.5), exact(ctx, -0.75), b)]
    c.Rmag = o[0][0]
    if core:
        M = ctx.arr([[1.0 if (i, j) in core else 0.0 for j in range(c.ny)] for i in range(c.nx)])
        c.M = M
        eq = solved(ctx, zero, c.prof, tok, c.dom, o, x, mask=M, J=J)
        c.bndry = b
    else:
        c.M = ctx.arr([[1.0] * c.ny for i in range(c.nx)])
        eq = solved(ctx, zero, c.prof, tok, c.dom, o, [], boundary=ctx.fg.boundary.fixedBoundary, J=J)
        c.bndry = c.F.t["psi"][0, 0]
    ctx.assume(absv(ctx, c.bndry - a) >= 0.5)
    c.axis, c.eq, c.o, c.x = a, eq, o, x if core else []
    # separatrix: a diamond with arbitrary corners
    c.sep = {}
    c.calls = []
    for n in (4, 360):
        h, w, r, z, d = (ctx.real("%s_%d" % (k, n), lo, hi) for k, lo, hi in
                         (("sep_h", 0.25, 1), ("sep_w", 0.25, 0.75), ("sep_r", 1.25, 1.5), ("sep_z", 0, 1), ("sep_d", -0.2, 0.2)))
        c.sep[n] = (h, w, r, z)
        c.calls.append((n, [(r + w, z), (r + d, z + h), (r - w, z), (r - d, z - h)]))
    tab = dict(c.calls)

    def find_separatrix(eq, opoint=None, xpoint=None, ntheta=20, psi=None, axis=None, psival=1.0):
        return [(p[0], p[1], 0.0, 0.0) for p in tab[ntheta]]
    c.st = stubs(ctx, critical__find_separatrix=find_separatrix, critical__find_critical=fixed_critical(c.o, c.x))
    return c


def integral(ctx, c, f):
    """Romberg rule of f * 2 pi R over the core"""
    t = ctx.arr([[f(i, j) * c.M[i, j] * 2 * ctx.pi * c.Rs[i] if bool(c.M[i, j] != 0) else exact(ctx, 0) for j in range(c.ny)] for i in range(c.nx)])
    return romb2(ctx, t, c.nx, c.ny) * c.dR * c.dZ


def p_of(c):
    def f(i, j):
        return c.prof.a["pressure"][0] + c.prof.a["pressure"][1] * (c.F.t["psi"][i, j] - c.axis) / (c.bndry - c.axis)
    return f


def b2(c):
    return lambda i, j: c.F.t["br"][i, j] ** 2 + c.F.t["bz"][i, j] ** 2


def close(ctx, name, got, want):
    ctx.equal(name, got, want, rtol=1e-6, scale=None if ctx.symbolic else 10 * abs(float(want)))


@H("volume", bounds="all grids and masks")
def volume(ctx):
    """plasma volume = integral of 2 pi R over the core"""
    c = case(ctx)
    with c.st:
        close(ctx, "volume", c.eq.plasmaVolume(), integral(ctx, c, lambda i, j: 1))
        close(ctx, "plasma_current", c.eq.plasmaCurrent(), c.Ip)


@H("pressure", bounds="all grids and masks", budget=200)
def pressure(ctx):
    """average pressure, thermal energy and the current-normalised poloidal betas are integrals of p over the core"""
    c = case(ctx)
    pi_ = integral(ctx, c, p_of(c))
    vol = integral(ctx, c, lambda i, j: 1)
    with c.st:
        close(ctx, "pressure_ave", c.eq.pressure_ave() * vol, pi_)
        close(ctx, "w_th", c.eq.w_th(), pi_ * 3 / 2)
        close(ctx, "poloidalBeta3", c.eq.poloidalBeta3() * mu0(ctx) * c.Ip ** 2 * c.sep[360][2], 4 * pi_)
        t = ctx.arr([[p_of(c)(i, j) * c.M[i, j] for j in range(c.ny)] for i in range(c.nx)])
        close(ctx, "poloidalBeta2", c.eq.poloidalBeta2() * mu0(ctx) * c.Ip ** 2, 8 * ctx.pi * romb2(ctx, t, c.nx, c.ny) * c.dR * c.dZ)


def beta_pieces(ctx, c):
    pi_ = integral(ctx, c, p_of(c))
    bp = integral(ctx, c, b2(c))

    def bt2(i, j):
        s = (c.F.t["psi"][i, j] - c.axis) / (c.bndry - c.axis)
        return ((c.prof.a["fpol"][0] + c.prof.a["fpol"][1] * s) / c.Rs[i]) ** 2
    bt = integral(ctx, c, bt2)
    for v in (bp, pi_, bt):
        ctx.assume(v >= 0.01)
    return pi_, bp, bt


@H("betas", bounds="all grids and masks", budget=200)
def betas(ctx):
    """poloidal and toroidal beta: 2 mu0 int(p) / int(B^2) with the poloidal and toroidal field"""
    c = case(ctx)
    pi_, bp, bt = beta_pieces(ctx, c)
    with c.st:
        close(ctx, "poloidalBeta", c.eq.poloidalBeta() * bp, 2 * mu0(ctx) * pi_)
        close(ctx, "toroidalBeta", c.eq.toroidalBeta() * bt, 2 * mu0(ctx) * pi_)


@H("combined_betas", bounds="5x5 grid, all masks, arbitrary flux and field at 2 nodes", budget=200)
def combined_betas(ctx):
    """total beta is 2 mu0 int(p) / int(Bpol^2 + Btor^2); betaN from toroidal beta, minor radius, field on the geometric axis and current"""
    c = case(ctx, shapes=False, small=True)
    pi_, bp, bt = beta_pieces(ctx, c)
    with c.st:
        if ctx.choose("which", 2):
            close(ctx, "totalBeta", c.eq.totalBeta() * (bp + bt), 2 * mu0(ctx) * pi_)
        else:
            n = 4 if ctx.choose("npoints", 2) else 360
            got = c.eq.betaN(npoints=4) if n == 4 else c.eq.betaN()
            h, w, r, z = c.sep[n]
            Bt = c.eq.Btor(r, z)  # on the geometric axis
            close(ctx, "betaN", got * bt * c.Ip, 1e8 * 2 * mu0(ctx) * pi_ * w * Bt)


@H("inductance", bounds="all grids and masks", budget=300)
def inductance(ctx):
    """li definitions: 2 int(Bpol^2) / ((mu0 Ip)^2 R) with the documented radius and shape factor"""
    c = case(ctx)
    bp = integral(ctx, c, b2(c))
    which = ctx.choose("which", 4)
    n = 4 if ctx.choose("npoints", 2) else 360
    kw = dict(npoints=4) if n == 4 else {}
    h, w, r, z = c.sep[n]
    den = (mu0(ctx) * c.Ip) ** 2
    with c.st:
        if which == 0:
            kappa = h / w
            vol = integral(ctx, c, lambda i, j: 1)
            keff = vol / (2 * ctx.pi * r * ctx.pi * w * w)
            close(ctx, "li1", c.eq.internalInductance1(**kw) * den * r * 2 * keff, 2 * bp * (1 + kappa * kappa))
        elif which == 1:
            close(ctx, "li2", c.eq.internalInductance2() * den * c.Rmag, 2 * bp)
        elif which == 2:
            close(ctx, "li3", c.eq.internalInductance3(**kw) * den * r, 2 * bp)
        else:
            close(ctx, "li", c.eq.internalInductance(**kw) * den * r, 2 * bp)


@H("cylindrical", bounds="arbitrary separatrix, current, vacuum field")
def cylindrical(ctx):
    """qcyl and effective elongation"""
    c = case(ctx)
    h, w, r, z = c.sep[360]
    if ctx.choose("reversed_field", 2):
        c.prof.fv = -c.prof.fv
    with c.st:
        kappa = h / w
        close(ctx, "qcyl", c.eq.qcyl() * mu0(ctx) * c.Ip * r * r, (1 + kappa * kappa) / 2 * 2 * ctx.pi * w * w * c.prof.fv)
        for n in (4, 360):
            h, w, r, z = c.sep[n]
            close(ctx, "effective_elongation", c.eq.effectiveElongation(npoints=n) * 2 * ctx.pi * r * ctx.pi * w * w, integral(ctx, c, lambda i, j: 1))


@H("repeatable", bounds="one grid, all masks")
def repeatable(ctx):
    """evaluating diagnostics changes nothing: a second evaluation gives the same values, the mask and fluxes are as before"""
    c = case(ctx, shapes=False)
    names = ["plasmaVolume", "pressure_ave", "w_th", "poloidalBeta2", "internalInductance2"]
    n = names[ctx.choose("name", len(names))]
    with c.st:
        first = getattr(c.eq, n)()
        for m in names + ["poloidalBeta"]:
            getattr(c.eq, m)()
        close(ctx, "same_value", getattr(c.eq, n)(), first)
    psi = c.eq.psi()
    for i in range(c.nx):
        for j in range(c.ny):
            ctx.equal("psi_same", psi[i, j], c.F.t["psi"][i, j])
            if c.eq.mask is not None:
                ctx.equal("mask_same", c.eq.mask[i, j], c.M[i, j])
