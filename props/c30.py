"""C30  Changing resolution or domain of an equilibrium."""
from .common import *
from .c09 import ref_grid, Profiles, Recorder, edge, fixed_dom, tok1

HARNESSES = H = Harnesses()
ENCODES = ["freegs.equilibrium.{refine,coarsen,newDomain}", "freegs.equilibrium.Equilibrium.__init__"]
BOUNDS = "grids 5x5 and 5x9 to 9x9, 9x17, 3x3, 3x5 and given sizes; arbitrary plasma flux; every boundary condition, order, limiter flag"
ASSUMPTIONS = ["the critical-point search is replaced by an arbitrary result (it is decided by C15)"]


def boundaries(ctx):
    b = ctx.fg.boundary
    return [b.freeBoundary, b.fixedBoundary, b.freeBoundaryHagenow]


def make(ctx, nx, ny, order):
    e = ctx.fg.equilibrium
    tok = tok1(ctx)
    dom = fixed_dom(ctx)
    bc = boundaries(ctx)[ctx.choose("boundary", 3)]
    lim = ctx.flag("check_limited")
    p = ctx.array("p", (nx, ny), -1, 1)
    cur = ctx.real("Ip", -1e6, 1e6)
    eq = e.Equilibrium(tok, Rmin=dom[0], Rmax=dom[1], Zmin=dom[2], Zmax=dom[3], nx=nx, ny=ny, boundary=bc,
                       psi=p.copy(), order=order, check_limited=lim, current=cur)
    return eq, tok, dom, bc, lim, p, cur


def same_setup(ctx, new, eq, tok, dom, bc, lim, order):
    ctx.check("same_machine", new.tokamak is tok)
    ctx.check("same_boundary", new._applyBoundary is bc)
    ctx.check("same_order", new.order == order)
    ctx.check("same_check_limited", bool(new.check_limited) == lim)


def grid_ok(ctx, new, dom, nx, ny):
    ctx.check("shape", new.R.shape == (nx, ny) and new.plasma_psi.shape == (nx, ny))
    Rs, Zs = ref_grid(ctx, dom, nx, ny)
    for i in range(nx):
        for j in range(ny):
            ctx.equal("grid_R", new.R[i, j], Rs[i])
            ctx.equal("grid_Z", new.Z[i, j], Zs[j])


@H("refine", bounds="5x5->9x9, 5x9->9x17 (order 2), 9x9->17x17 (order 4)")
def refine(ctx):
    """refine keeps the domain and all settings, and the flux at the old points; new points are on the interpolant"""
    nx, ny, order = [(5, 5, 2), (5, 9, 2), (9, 9, 4)][ctx.choose("size", 3)]
    with stubs(ctx, critical__find_critical=no_critical):
        eq, tok, dom, bc, lim, p, cur = make(ctx, nx, ny, order)
        pr = Profiles()
        pr.eq = eq
        eq._profiles = pr
        eq.control = object()
        new = ctx.fg.equilibrium.refine(eq)
        same_setup(ctx, new, eq, tok, dom, bc, lim, order)
        grid_ok(ctx, new, dom, 2 * nx - 1, 2 * ny - 1)
        ctx.equal("old_points", new.plasma_psi[::2, ::2], p)
        for i, j in ((1, 1), (3, 2), (2 * nx - 3, 2 * ny - 3)):
            ctx.equal("interpolated", new.plasma_psi[i, j], eq.psi_func(new.R[i, j], new.Z[i, j], grid=False), scale=1)
        ctx.equal("current", new.plasmaCurrent(), cur)
        ctx.check("profiles_use_new_grid", new._profiles.eq is new)
        ctx.check("old_profiles_kept", eq._profiles is pr and pr.eq is eq)
        s = ctx.real("s", 0, 1)
        ctx.equal("profiles", (new.pressure(s), new.pprime(s), new.ffprime(s), new.fpol(s)), (3 * s, 7 * s, 5 * s, 2 + s))
        ctx.check("control", new.control is eq.control)
        ctx.equal("original_unchanged", eq.plasma_psi, p)


@H("refine_sizes", bounds="5x5 -> 9x5, 5x9")
def refine_sizes(ctx):
    """refine to a requested size gives that size, each direction separately"""
    with stubs(ctx, critical__find_critical=no_critical):
        eq, tok, dom, bc, lim, p, cur = make(ctx, 5, 5, 2)
        k = ctx.choose("kind", 2)
        new = ctx.fg.equilibrium.refine(eq, nx=9, ny=5) if k else ctx.fg.equilibrium.refine(eq, nx=5, ny=17)
        grid_ok(ctx, new, dom, 9 if k else 5, 5 if k else 17)
        ctx.equal("old_points", new.plasma_psi[:: (2 if k else 1), :: (1 if k else 4)], p)


@H("coarsen", bounds="9x9->5x5, 9x17->5x9 (order 2), 17x17->9x9 (order 4)")
def coarsen(ctx):
    """coarsen keeps every second point (boundary included), domain and settings; coarsen after refine gives the original flux back"""
    nx, ny, order = [(9, 9, 2), (9, 17, 2), (17, 17, 4)][ctx.choose("size", 3)]
    with stubs(ctx, critical__find_critical=no_critical):
        eq, tok, dom, bc, lim, p, cur = make(ctx, nx, ny, order)
        with_prof = ctx.flag("with_profiles")
        if with_prof:
            pr = Profiles()
            pr.eq = eq
            eq._profiles = pr
            eq.control = object()
        new = ctx.fg.equilibrium.coarsen(eq)
        same_setup(ctx, new, eq, tok, dom, bc, lim, order)
        grid_ok(ctx, new, dom, (nx + 1) // 2, (ny + 1) // 2)
        ctx.equal("kept_points", new.plasma_psi, p[::2, ::2])
        if with_prof:
            ctx.check("profiles_use_new_grid", new._profiles.eq is new)
            ctx.check("old_profiles_kept", eq._profiles is pr and pr.eq is eq)
            s = ctx.real("s", 0, 1)
            ctx.equal("profiles", (new.pressure(s), new.pprime(s), new.ffprime(s), new.fpol(s)), (3 * s, 7 * s, 5 * s, 2 + s))
            ctx.check("control", new.control is eq.control)
        ctx.equal("current", new.plasmaCurrent(), cur)
        ctx.equal("original_unchanged", eq.plasma_psi, p)


@H("coarsen_odd", bounds="6x6, 5x6, 6x5")
def coarsen_odd(ctx):
    """a grid that can not be halved in both directions is kept as it is"""
    nx, ny = [(6, 6), (5, 6), (6, 5)][ctx.choose("size", 3)]
    with stubs(ctx, critical__find_critical=no_critical):
        eq, tok, dom, bc, lim, p, cur = make(ctx, nx, ny, 2)
        new = ctx.fg.equilibrium.coarsen(eq)
        ctx.check("another", new is not eq)
        same_setup(ctx, new, eq, tok, dom, bc, lim, 2)
        grid_ok(ctx, new, dom, nx, ny)
        ctx.equal("kept_points", new.plasma_psi, p)
        ctx.equal("current", new.plasmaCurrent(), cur)


@H("refine_coarsen", bounds="5x5 and 5x9")
def refine_coarsen(ctx):
    """coarsen undoes refine"""
    nx, ny = [(5, 5), (5, 9)][ctx.choose("size", 2)]
    e = ctx.fg.equilibrium
    with stubs(ctx, critical__find_critical=no_critical):
        eq, tok, dom, bc, lim, p, cur = make(ctx, nx, ny, 2)
        back = e.coarsen(e.refine(eq))
        ctx.equal("roundtrip", back.plasma_psi, p)
        grid_ok(ctx, back, dom, nx, ny)


class JProf(Profiles):
    """Profile with a current density that depends on the psi it is given"""

    def __init__(self, ctx, J):
        super().__init__()
        self.ctx, self.J = ctx, J

    def Jtor(self, R, Z, psi, psi_bndry=None):
        self.calls.append((R.copy(), Z.copy(), psi.copy(), psi_bndry))
        if len(self.calls) == 1:
            return self.J.copy()
        return psi * 3


@H("new_domain", bounds="5x5/5x9 to another domain, sizes given or not; order 2; fixed boundary or arbitrary bilinear edge values")
def new_domain(ctx):
    """newDomain keeps settings and resolution unless told otherwise; with the same domain the first solve uses the same current density"""
    e = ctx.fg.equilibrium
    nx, ny = [(5, 5), (5, 9), (9, 5)][ctx.choose("size", 3)]
    with stubs(ctx, critical__find_critical=no_critical):
        tok = tok1(ctx)
        dom = fixed_dom(ctx)
        lim = ctx.flag("check_limited")
        p = ctx.array("p", (nx, ny), -1, 1)
        w = [ctx.real("edge%d" % k, -1, 1) for k in range(4)]

        def edge(R, Z):
            return w[0] + w[1] * R + w[2] * Z + w[3] * R * Z

        def given(eq, Jtor, psi):
            for sl in ((0, slice(None)), (-1, slice(None)), (slice(None), 0), (slice(None), -1)):
                psi[sl] = edge(eq.R[sl], eq.Z[sl])
        fixed = bool(lim)   # one or the other
        bc = ctx.fg.boundary.fixedBoundary if fixed else given
        eq = e.Equilibrium(tok, Rmin=dom[0], Rmax=dom[1], Zmin=dom[2], Zmax=dom[3], nx=nx, ny=ny, boundary=bc,
                           psi=p.copy(), order=2, check_limited=lim)
        pr = JProf(ctx, ctx.array("J", (nx, ny), -1, 1))
        pr.eq = eq
        eq._profiles = pr
        eq.psi_bndry = ctx.real("pb", -1, 1)
        psi0 = eq.psi()
        kw = {}
        nd = list(dom)
        give = (0, 1, 2, 4, 8, 10, 15)[ctx.choose("given", 7)]
        for k, (nm, v) in enumerate((("Rmin", 0.75), ("Rmax", 1.25), ("Zmin", -0.5), ("Zmax", 0.5))):
            if give >> k & 1:
                kw[nm] = exact(ctx, v)
                nd[k] = exact(ctx, v)
        new = e.newDomain(eq, **kw)
        grid_ok(ctx, new, nd, nx, ny)
        same_setup(ctx, new, eq, tok, dom, bc, lim, 2)
        ctx.equal("J_from_old_grid", pr.calls[0][0], eq.R)
        ctx.equal("J_from_old_flux", pr.calls[0][2], psi0)
        ctx.equal("J_old_boundary", pr.calls[0][3], eq.psi_bndry)
        ctx.equal("second_solve_on_new_grid", pr.calls[1][0], new.R)
        s = ctx.real("s", 0, 1)
        ctx.equal("profiles", (new.pressure(s), new.pprime(s)), (3 * s, 7 * s))
        ctx.check("profiles_use_new_grid", new._profiles.eq is new)
        ctx.check("old_profiles_kept", eq._profiles is pr and pr.eq is eq)
        # the second solve used the flux of the first one
        psi1 = pr.calls[1][2]
        J1 = psi1 * 3
        ctx.equal("Jtor", new.Jtor, J1)
        pp = psi1 - tok.psi(new.R, new.Z)
        for i in range(nx):
            for j in range(ny):
                if i in (0, nx - 1) or j in (0, ny - 1):
                    ctx.equal("edge", pp[i, j], 0 if fixed else edge(new.R[i, j], new.Z[i, j]), scale=None if ctx.symbolic else 1.0)
        if not kw:
            g = ctx.fg.gradshafranov.GSsparse(*nd)(nx, ny)
            r = np.asarray(g.dot(pp.reshape(-1))).reshape(nx, ny)
            for i in range(1, nx - 1):
                for j in range(1, ny - 1):
                    ctx.equal("first_solve", r[i, j], -mu0(ctx) * eq.R[i, j] * pr.J[i, j],
                              scale=None if ctx.symbolic else 1e-2, rtol=1e-8)
        ctx.equal("original_unchanged", eq.plasma_psi, p)
