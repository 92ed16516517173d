"""C09  Equilibrium.solve: one linear Grad-Shafranov solve."""
from .common import *

HARNESSES = H = Harnesses()
ENCODES = ["freegs.equilibrium.Equilibrium.{__init__,solve,psi,psiRZ,plasmaCurrent,setSolver,setSolverVcycle,callSolver}",
           "freegs.boundary.fixedBoundary", "freegs.boundary.freeBoundary", "freegs.multigrid.{createVcycle,MGDirect}",
           "freegs.gradshafranov.{GSsparse,GSsparse4thOrder}"]
BOUNDS = "grids 5x5, 5x9, 9x5 (symbolic domain, recorded solver), 5x5 order 2 and 9x9 order 4 with the direct solver on a fixed domain; arbitrary current density, coil currents and previous state; histories of 2 solves"
ASSUMPTIONS = ["the critical-point search is replaced by an arbitrary result (it is decided by C15)"]


class Profiles:
    def __init__(self, J=None):
        self.J = J
        self.calls = []

    def Jtor(self, R, Z, psi, psi_bndry=None):
        self.calls.append((R, Z, psi, psi_bndry))
        return self.J

    def pprime(self, x):
        return 7 * x

    def ffprime(self, x):
        return 5 * x

    def pressure(self, x):
        return 3 * x

    def fpol(self, x):
        return 2 + x

    def fvac(self):
        return 2


class Recorder:
    """Linear solver that returns an arbitrary result and records what it was asked."""

    def __init__(self, ctx, shape):
        self.ctx, self.shape, self.calls = ctx, shape, []

    def __call__(self, x, b):
        r = self.ctx.array("sol%d" % len(self.calls), self.shape, -5, 5)
        self.calls.append((x.copy(), b.copy(), r.copy()))
        return r


def domain(ctx):
    R0, w = ctx.real("Rmin", 0.1, 2), ctx.real("width", 0.5, 2)
    Z0, h = ctx.real("Zmin", -2, 1), ctx.real("height", 0.5, 3)
    return R0, R0 + w, Z0, Z0 + h


def tok1(ctx):
    m = ctx.fg.machine
    return m.Machine([("A", m.Coil(ctx.real("Rc", 2.5, 4), ctx.real("Zc", -3, 3), current=ctx.real("I", -1e4, 1e4)))])


def ref_grid(ctx, dom, nx, ny):
    R0, R1, Z0, Z1 = dom
    Rs = [R0 + (R1 - R0) * q(ctx, i, nx - 1) for i in range(nx)]
    Zs = [Z0 + (Z1 - Z0) * q(ctx, j, ny - 1) for j in range(ny)]
    return Rs, Zs


_W = {}


def rombw(n):
    from engine.shims import romb_weights
    if n not in _W:
        _W[n] = romb_weights(n)
    return _W[n]


def romb2(ctx, f, nx, ny):
    wx, wy = rombw(nx), rombw(ny)
    t = 0
    for i in range(nx):
        for j in range(ny):
            w = wx[i] * wy[j]
            t = t + f[i, j] * (w if ctx.symbolic else float(w))
    return t


def edge(i, j, nx, ny):
    return i in (0, nx - 1) or j in (0, ny - 1)


SIZES = [(5, 5), (5, 9), (9, 5)]


@H("posed_problem", bounds="5x5, 5x9, 9x5 grids; any domain, previous flux, current density")
def posed_problem(ctx):
    """the solver is asked for Delta* psi = -mu0 R J with the boundary condition's values, its answer becomes the plasma flux, and the plasma current is the integral of J"""
    e = ctx.fg.equilibrium
    dom = domain(ctx)
    nx, ny = SIZES[ctx.choose("size", 3)]
    J = ctx.array("J", (nx, ny), -1e6, 1e6)
    J0 = J.copy()
    bval = ctx.array("bv", (nx, ny), -1, 1)
    seen = []

    def boundary(eq, Jtor, psi):
        seen.append(Jtor)
        for i in range(nx):
            for j in range(ny):
                if edge(i, j, nx, ny):
                    psi[i, j] = bval[i, j]

    with stubs(ctx, critical__find_critical=no_critical):
        tok = tok1(ctx)
        I0 = tok["A"].current
        eq = e.Equilibrium(tok, Rmin=dom[0], Rmax=dom[1], Zmin=dom[2], Zmax=dom[3], nx=nx, ny=ny, boundary=boundary,
                           psi=ctx.array("p0", (nx, ny), -1, 1), order=2)
        Rs, Zs = ref_grid(ctx, dom, nx, ny)
        for i in range(nx):
            for j in range(ny):
                ctx.equal("grid_R", eq.R[i, j], Rs[i])
                ctx.equal("grid_Z", eq.Z[i, j], Zs[j])
        rec = Recorder(ctx, (nx, ny))
        eq.setSolver(rec)
        prof = Profiles()
        eq.solve(prof, Jtor=J)
        ctx.check("one_boundary_call", len(seen) == 1)
        ctx.equal("boundary_gets_J", seen[0], J0)
        ctx.check("one_solve", len(rec.calls) == 1)
        x, b, sol = rec.calls[0]
        for i in range(nx):
            for j in range(ny):
                if edge(i, j, nx, ny):
                    ctx.equal("rhs_boundary", b[i, j], bval[i, j])
                else:
                    ctx.equal("rhs_interior", b[i, j], -mu0(ctx) * Rs[i] * J0[i, j])
        ctx.equal("solution_kept", eq.plasma_psi, sol)
        dR, dZ = (dom[1] - dom[0]) / (nx - 1), (dom[3] - dom[2]) / (ny - 1)
        ctx.equal("plasma_current", eq.plasmaCurrent(), romb2(ctx, J0, nx, ny) * dR * dZ)
        ctx.equal("Jtor_kept", eq.Jtor, J0)
        ctx.equal("J_unchanged", J, J0)
        ctx.equal("coil_current_unchanged", tok["A"].current, I0)
        s = ctx.real("s", 0, 1)
        ctx.equal("profiles_adopted", (eq.pressure(s), eq.pprime(s), eq.ffprime(s), eq.fpol(s), eq.fvac()),
                  (3 * s, 7 * s, 5 * s, 2 + s, exact(ctx, 2)))
        for i, j in ((0, 0), (1, 2), (nx - 1, ny - 1), (2, ny - 2)):
            ctx.equal("interpolant_updated", eq.psiRZ(eq.R[i, j], eq.Z[i, j]),
                      sol[i, j] + tok.psi(eq.R[i, j], eq.Z[i, j]), scale=5)
            ctx.equal("total_flux", eq.psi()[i, j], sol[i, j] + tok.psi(eq.R[i, j], eq.Z[i, j]), scale=5)


@H("profile_call", bounds="5x5; J supplied by the profile; psi and psi_bndry given or not")
def profile_call(ctx):
    """without J the profile is asked for it, with the grid, the total (or given) flux and the given boundary flux"""
    e = ctx.fg.equilibrium
    dom = domain(ctx)
    nx, ny = 5, 5
    with stubs(ctx, critical__find_critical=no_critical):
        tok = tok1(ctx)
        p0 = ctx.array("p0", (nx, ny), -1, 1)
        eq = e.Equilibrium(tok, Rmin=dom[0], Rmax=dom[1], Zmin=dom[2], Zmax=dom[3], nx=nx, ny=ny,
                           boundary=ctx.fg.boundary.fixedBoundary, psi=p0.copy(), order=2)
        rec = Recorder(ctx, (nx, ny))
        eq.setSolver(rec)
        J = ctx.array("J", (nx, ny), -1e6, 1e6)
        prof = Profiles(J.copy())
        before = eq.psi()
        kw = {}
        if ctx.flag("give_psi"):
            kw["psi"] = ctx.array("given", (nx, ny), -1, 1)
        if ctx.flag("give_bndry"):
            kw["psi_bndry"] = ctx.real("psib", -1, 1)
        eq.solve(prof, **kw)
        ctx.check("one_call", len(prof.calls) == 1)
        R, Z, psi, pb = prof.calls[0]
        ctx.equal("R", R, eq.R)
        ctx.equal("Z", Z, eq.Z)
        ctx.equal("psi", psi, kw.get("psi", before))
        ctx.equal("psi_bndry", pb, kw.get("psi_bndry"))
        x, b, sol = rec.calls[0]
        for i in range(1, nx - 1):
            for j in range(1, ny - 1):
                ctx.equal("rhs_interior", b[i, j], -mu0(ctx) * eq.R[i, j] * J[i, j])
        for i in range(nx):
            for j in range(ny):
                if edge(i, j, nx, ny):
                    ctx.equal("fixed_boundary_zero", b[i, j], exact(ctx, 0))
        ctx.equal("Jtor_kept", eq.Jtor, J)


def residual(ctx, eq, J, order, dom, n, bnd):
    g = ctx.fg.gradshafranov
    p = eq.plasma_psi
    nx, ny = n
    Rs, Zs = ref_grid(ctx, dom, nx, ny)
    dR, dZ = (dom[1] - dom[0]) / (nx - 1), (dom[3] - dom[2]) / (ny - 1)
    return p, Rs, dR, dZ


def fixed_dom(ctx):
    return tuple(exact(ctx, v) for v in (0.5, 1.5, -1.0, 1.0))


@H("residual_order2", bounds="5x5 and 5x9 grids on a fixed domain, any J, any coil current, two solves in a row")
def residual_order2(ctx):
    """after each solve the plasma flux satisfies the second-order finite-difference GS equation and the free boundary condition"""
    e = ctx.fg.equilibrium
    dom = fixed_dom(ctx)
    nx, ny = [(5, 5), (5, 9)][ctx.choose("size", 2)]
    free = ctx.flag("free")
    b = ctx.fg.boundary
    with stubs(ctx, critical__find_critical=no_critical):
        tok = tok1(ctx)
        eq = e.Equilibrium(tok, Rmin=dom[0], Rmax=dom[1], Zmin=dom[2], Zmax=dom[3], nx=nx, ny=ny,
                           boundary=b.freeBoundary if free else b.fixedBoundary, psi=ctx.array("p0", (nx, ny), -1, 1), order=2)
        if ctx.flag("vcycle_solver"):
            eq.setSolverVcycle(nlevels=1, direct=True)
        Rs, Zs = ref_grid(ctx, dom, nx, ny)
        dR, dZ = (dom[1] - dom[0]) / (nx - 1), (dom[3] - dom[2]) / (ny - 1)
        for step in range(2):
            J = ctx.array("J%d" % step, (nx, ny), -1, 1)
            eq.solve(Profiles(), Jtor=J)
            p = eq.plasma_psi
            for i in range(1, nx - 1):
                for j in range(1, ny - 1):
                    lap = ((p[i + 1, j] - 2 * p[i, j] + p[i - 1, j]) / dR ** 2 - (p[i + 1, j] - p[i - 1, j]) / (2 * dR * Rs[i])
                           + (p[i, j + 1] - 2 * p[i, j] + p[i, j - 1]) / dZ ** 2)
                    ctx.equal("gs_equation", lap, -mu0(ctx) * Rs[i] * J[i, j], scale=None if ctx.symbolic else 1e-6)
            pts = [(0, 0), (0, 2), (nx - 1, ny - 1), (2, ny - 1), (nx - 1, 1), (1, 0)]
            for i, j in pts:
                if free:
                    f = np.empty((nx, ny), dtype=object)
                    for k in range(nx):
                        for l in range(ny):
                            f[k, l] = 0 if (k, l) == (i, j) else J[k, l] * ref_greens(ctx, Rs[k], Zs[l], Rs[i], Zs[j])
                    ctx.equal("free_boundary", p[i, j], romb2(ctx, f, nx, ny) * dR * dZ, scale=None if ctx.symbolic else 1e-7)
                else:
                    ctx.equal("fixed_boundary", p[i, j], exact(ctx, 0), atol=1e-18)


@H("residual_order4", bounds="9x9 grid on a fixed domain, any J", budget=300)
def residual_order4(ctx):
    """the default equilibrium is fourth order: for U polynomial of degree 4 x 5 and J its exact GS source the solve returns U"""
    e = ctx.fg.equilibrium
    dom = fixed_dom(ctx)
    nx = ny = 9
    c = [ctx.real("c%d" % k, -1, 1) for k in range(6)]
    mono = [(4, 0), (0, 4), (2, 2), (4, 1), (0, 5), (2, 3)]
    Rs, Zs = ref_grid(ctx, dom, nx, ny)
    U = np.empty((nx, ny), dtype=object)
    J = np.empty((nx, ny), dtype=object)
    for i in range(nx):
        for j in range(ny):
            r, z = Rs[i], Zs[j]
            U[i, j] = sum(ck * r ** a * z ** b for ck, (a, b) in zip(c, mono))
            lap = 0
            for ck, (a, b) in zip(c, mono):
                if a * (a - 2):
                    lap = lap + ck * (a * (a - 2)) * r ** (a - 2) * z ** b
                if b * (b - 1):
                    lap = lap + ck * (b * (b - 1)) * r ** a * z ** (b - 2)
            J[i, j] = -lap / (mu0(ctx) * r)
    if not ctx.symbolic:
        U, J = U.astype(float), J.astype(float)

    def boundary(eq, Jtor, psi):
        for i in range(nx):
            for j in range(ny):
                if edge(i, j, nx, ny):
                    psi[i, j] = U[i, j]

    with stubs(ctx, critical__find_critical=no_critical):
        eq = e.Equilibrium(ctx.fg.machine.EmptyTokamak(), Rmin=dom[0], Rmax=dom[1], Zmin=dom[2], Zmax=dom[3], nx=nx, ny=ny,
                           boundary=boundary, psi=ctx.array("p0", (nx, ny), -1, 1))
        ctx.check("order_attr", eq.order == 4)
        eq.solve(Profiles(), Jtor=J)
        ctx.equal("exact_solution", eq.plasma_psi, U, rtol=1e-8, scale=1)
        got = eq.callSolver(eq.plasma_psi, U)
        ctx.equal("call_solver_boundary", got[0, :], U[0, :])


@H("order_choice")
def order_choice(ctx):
    """any order other than 2 or 4 is refused"""
    e = ctx.fg.equilibrium
    with stubs(ctx, critical__find_critical=no_critical):
        for o in (0, 1, 3, 5, 6, -2):
            ctx.raises("invalid_order", ValueError, lambda: e.Equilibrium(
                nx=5, ny=5, psi=np.zeros((5, 5)), order=o))
