"""C10  Boundary conditions."""
from .common import *
from .c09 import ref_grid, romb2, rombw, edge, domain

HARNESSES = H = Harnesses()
ENCODES = ["freegs.boundary.fixedBoundary", "freegs.boundary.freeBoundary", "freegs.boundary.freeBoundaryHagenow"]
BOUNDS = "grids 5x5, 5x9, 9x5 (free/fixed), 5x5, 5x9, 9x5 (von Hagenow), any domain, any current density and previous flux; the interior solve of von Hagenow's method returns an arbitrary field"
SIZES = [(5, 5), (5, 9), (9, 5), (3, 5)]


class Eq:
    def __init__(self, ctx, dom, nx, ny, solver=None):
        Rs, Zs = ref_grid(ctx, dom, nx, ny)
        R = np.empty((nx, ny), dtype=object)
        Z = np.empty((nx, ny), dtype=object)
        for i in range(nx):
            for j in range(ny):
                R[i, j], Z[i, j] = Rs[i], Zs[j]
        self.R, self.Z = (R, Z) if ctx.symbolic else (R.astype(float), Z.astype(float))
        self.Rmin, self.Rmax, self.Zmin, self.Zmax = dom
        self.nx, self.ny = nx, ny
        self.R_1D, self.Z_1D = self.R[:, 0], self.Z[0, :]
        self.dR, self.dZ = self.R[1, 0] - self.R[0, 0], self.Z[0, 1] - self.Z[0, 0]
        self.asked = []
        self._sol = solver
        self._solver = self.callSolver

    def callSolver(self, psi, rhs):
        self.asked.append((psi.copy(), rhs.copy()))
        return self._sol


@H("fixed")
def fixed(ctx):
    """the fixed boundary condition sets every boundary point to zero and nothing else"""
    dom = domain(ctx)
    nx, ny = SIZES[ctx.choose("size", 4)]
    psi = ctx.array("psi", (nx, ny), -1, 1)
    J = ctx.array("J", (nx, ny), -1, 1)
    p0, j0 = psi.copy(), J.copy()
    ctx.fg.boundary.fixedBoundary(Eq(ctx, dom, nx, ny), J, psi)
    for i in range(nx):
        for j in range(ny):
            ctx.equal("boundary" if edge(i, j, nx, ny) else "interior_untouched", psi[i, j],
                      exact(ctx, 0) if edge(i, j, nx, ny) else p0[i, j])
    ctx.equal("J_untouched", J, j0)


def free_points(nx, ny):
    return [(0, 0), (nx - 1, 0), (0, ny - 1), (nx - 1, ny - 1), (1, 0), (nx - 2, ny - 1), (0, 1), (0, ny - 2), (nx - 1, 2), (2, ny - 1)]


@H("free", bounds="5x5, 5x9, 9x5, 3x5; any domain and J; every boundary point")
def free(ctx):
    """every boundary point gets the integral over the domain of filament flux times current density, leaving out its own cell; the interior stays"""
    dom = domain(ctx)
    nx, ny = SIZES[ctx.choose("size", 4)]
    psi = ctx.array("psi", (nx, ny), -1, 1)
    J = ctx.array("J", (nx, ny), -1, 1)
    p0, j0 = psi.copy(), J.copy()
    eq = Eq(ctx, dom, nx, ny)
    R0, Z0 = eq.R.copy(), eq.Z.copy()
    ctx.fg.boundary.freeBoundary(eq, J, psi)
    Rs, Zs = ref_grid(ctx, dom, nx, ny)
    dR, dZ = (dom[1] - dom[0]) * q(ctx, 1, nx - 1), (dom[3] - dom[2]) * q(ctx, 1, ny - 1)
    for i in range(nx):
        for j in range(ny):
            if not edge(i, j, nx, ny):
                ctx.equal("interior_untouched", psi[i, j], p0[i, j])
                continue
            f = np.empty((nx, ny), dtype=object)
            sc = 0
            for k in range(nx):
                for l in range(ny):
                    g = 0 if (k, l) == (i, j) else ref_greens(ctx, Rs[k], Zs[l], Rs[i], Zs[j])
                    f[k, l] = J[k, l] * g
                    sc = max(sc, g) if not ctx.symbolic else None
            ctx.equal("integral", psi[i, j], romb2(ctx, f, nx, ny) * dR * dZ, scale=None if ctx.symbolic else sc * dR * dZ)
    ctx.equal("J_untouched", J, j0)
    ctx.equal("grid_untouched", eq.R, R0)
    ctx.equal("grid_untouched_Z", eq.Z, Z0)


# fourth-order one-sided outward derivative weights
D = [(25, 12), (-4, 1), (3, 1), (-4, 3), (1, 4)]
HS = [(5, 5), (5, 9), (9, 5)]


def hag_ref(ctx, dom, nx, ny, U, Rs, Zs, obs):
    dR, dZ = (dom[1] - dom[0]) * q(ctx, 1, nx - 1), (dom[3] - dom[2]) * q(ctx, 1, ny - 1)
    dd = sqrt(ctx, dR ** 2 + dZ ** 2)

    def der(f, h):
        return sum(q(ctx, a, b) * f(k) for k, (a, b) in enumerate(D)) / h

    L = [der(lambda k, j=j: U[k, j], dR) for j in range(ny)]
    Rr = [der(lambda k, j=j: U[nx - 1 - k, j], dR) for j in range(ny)]
    Dn = [der(lambda k, i=i: U[i, k], dZ) for i in range(nx)]
    Up = [der(lambda k, i=i: U[i, ny - 1 - k], dZ) for i in range(nx)]
    L[0] = Dn[0] = der(lambda k: U[k, k], dd)
    L[-1] = Up[0] = der(lambda k: U[k, ny - 1 - k], dd)
    Rr[0] = Dn[-1] = der(lambda k: U[nx - 1 - k, k], dd)
    Rr[-1] = Up[-1] = der(lambda k: U[nx - 1 - k, ny - 1 - k], dd)
    wx, wy = rombw(nx), rombw(ny)
    cv = (lambda v: v) if ctx.symbolic else float
    r, z = obs
    tot = 0
    for j in range(ny):
        tot = tot + cv(wy[j]) * dZ * (ref_greens(ctx, Rs[0], Zs[j], r, z) * L[j] / Rs[0]
                                      + ref_greens(ctx, Rs[-1], Zs[j], r, z) * Rr[j] / Rs[-1])
    for i in range(nx):
        tot = tot + cv(wx[i]) * dR * (ref_greens(ctx, Rs[i], Zs[0], r, z) * Dn[i]
                                      + ref_greens(ctx, Rs[i], Zs[-1], r, z) * Up[i]) / Rs[i]
    return tot


@H("hagenow", bounds="5x5 grid; any domain, J, previous flux and interior solution; every boundary point", budget=300)
def hagenow(ctx):
    """von Hagenow: solve with zero boundary for R J, then each boundary point is the contour integral of G (dU/dn)/R seen from 1 cm outside"""
    dom = domain(ctx)
    sizes = HS if ctx.thorough else HS[:1]
    nx, ny = sizes[ctx.choose("size", len(sizes))] if len(sizes) > 1 else sizes[0]
    psi = ctx.array("psi", (nx, ny), -1, 1)
    J = ctx.array("J", (nx, ny), -1, 1)
    U = ctx.array("U", (nx, ny), -1, 1)
    p0, j0 = psi.copy(), J.copy()
    eq = Eq(ctx, dom, nx, ny, U.copy())
    R0 = eq.R.copy()
    ctx.fg.boundary.freeBoundaryHagenow(eq, J, psi)
    Rs, Zs = ref_grid(ctx, dom, nx, ny)
    ctx.check("one_solve", len(eq.asked) == 1)
    _, rhs = eq.asked[0]
    eps = q(ctx, 1, 100)
    for i in range(nx):
        for j in range(ny):
            if edge(i, j, nx, ny):
                ctx.equal("zero_boundary_solve", rhs[i, j], exact(ctx, 0))
            else:
                ctx.equal("source", rhs[i, j], Rs[i] * J[i, j])
                ctx.equal("interior_untouched", psi[i, j], p0[i, j])
    ctx.equal("J_untouched", J, j0)
    ctx.equal("grid_untouched", eq.R, R0)
    for i in range(nx):
        for j in range(ny):
            if not edge(i, j, nx, ny):
                continue
            if i == 0:
                o = (Rs[i] - eps, Zs[j])
            elif i == nx - 1:
                o = (Rs[i] + eps, Zs[j])
            elif j == 0:
                o = (Rs[i], Zs[j] - eps)
            else:
                o = (Rs[i], Zs[j] + eps)
            ctx.equal("contour_integral", psi[i, j], hag_ref(ctx, dom, nx, ny, U, Rs, Zs, o), scale=None if ctx.symbolic else 1e-7)


@H("hagenow_multigrid", bounds="5x5 grid on a fixed domain, V-cycle solver with 1-2 levels; any J and previous flux")
def hagenow_multigrid(ctx):
    """the interior solve is done by an iterative solver that starts from the present flux: the interior values stay as they are"""
    nx = ny = 5
    dom = [exact(ctx, v) for v in (1, 2, -1, 1)]
    psi = ctx.array("psi", (nx, ny), -1, 1)
    J = ctx.array("J", (nx, ny), -1, 1)
    p0, j0 = psi.copy(), J.copy()
    eq = Eq(ctx, dom, nx, ny)
    gen = ctx.fg.gradshafranov.GSsparse(*dom)
    eq.callSolver = eq._solver = ctx.fg.multigrid.createVcycle(nx, ny, gen, nlevels=1 + ctx.choose("levels", 2), ncycle=1, niter=1, direct=False)
    ctx.fg.boundary.freeBoundaryHagenow(eq, J, psi)
    for i in range(1, nx - 1):
        for j in range(1, ny - 1):
            ctx.equal("interior_untouched", psi[i, j], p0[i, j])
    ctx.equal("J_untouched", J, j0)


@H("free_linear", bounds="5x5; any domain, two currents densities and a factor")
def free_linear(ctx):
    """the free boundary condition is linear in the current density and forgets the previous boundary values"""
    dom = domain(ctx)
    nx, ny = 5, 5
    J, K = ctx.array("J", (nx, ny), -1, 1), ctx.array("K", (nx, ny), -1, 1)
    s = ctx.real("s", -2, 2)
    out = []
    for k, jj in enumerate((J, K, J + s * K)):
        p = ctx.array("p%d" % k, (nx, ny), -1, 1)
        ctx.fg.boundary.freeBoundary(Eq(ctx, dom, nx, ny), jj, p)
        out.append(p)
    for i in range(nx):
        for j in range(ny):
            if edge(i, j, nx, ny):
                ctx.equal("linear", out[2][i, j], out[0][i, j] + s * out[1][i, j], scale=None if ctx.symbolic else 1e-7)
