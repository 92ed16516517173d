"""C20  Plasma boundary: diverted, limited or fixed; limit points along the wall."""
from .common import *

HARNESSES = H = Harnesses()
ENCODES = ["freegs.equilibrium.Equilibrium._updateBoundaryPsi", "freegs.machine.Machine.generate_limit_points", "freegs.machine.Machine.__init__"]
BOUNDS = "6x5 grid with arbitrary flux; up to 5 limit points; 0..1 X-points; either flux orientation; walls of 3..5 points with arbitrary sizes, 5..9 limit points"
ASSUMPTIONS = ["critical points are arbitrary results (C15); core_mask recorded (C14)",
               "the flux at every limit point lies on the outer side of the axis flux"]
NX, NY = 6, 5


class Obj:
    pass


def grid(ctx):
    R = ctx.arr([[exact(ctx, 1 + i / 4)] * NY for i in range(NX)])
    Z = ctx.arr([[exact(ctx, -1 + j / 2) for j in range(NY)] for i in range(NX)])
    return R, Z


def make(ctx, psi, limited, wall, boundary):
    E = ctx.fg.equilibrium.Equilibrium
    e = E.__new__(E)
    e.R, e.Z = grid(ctx)
    e.nx, e.ny = NX, NY
    e.R_1D, e.Z_1D = e.R[:, 0], e.Z[0, :]
    e.check_limited = limited
    e.is_limited = "unset"
    e.psi_bndry = e.psi_axis = e.mask = "unset"
    e.Rlim = e.Zlim = None
    e._applyBoundary = boundary
    e.tokamak = Obj()
    e.tokamak.wall = wall
    e.psi = lambda: psi
    return e


def mask_stub(ctx, log):
    M = ctx.arr([[exact(ctx, 1.0)] * NY] * NX)

    def core_mask(R, Z, psi, opoint, xpoint=[], psi_bndry=None):
        log.append((psi, list(opoint), list(xpoint), psi_bndry))
        return M
    return core_mask


def mask_ok(ctx, log, psi, xpt, bnd):
    ctx.check("mask_once", len(log) == 1)
    if len(log) == 1:
        p, o, x, b = log[0]
        ctx.check("mask_of_psi", p is psi)
        ctx.check("mask_xpoints", len(x) == len(xpt))
        ctx.equal("mask_boundary", b if b is not None else x[0][2], bnd)


@H("diverted", bounds="arbitrary flux; with or without wall, X-point, fixed or free boundary")
def diverted(ctx):
    """without limiter check (or without wall) the boundary is the primary X-point's flux; with fixed boundary and no X-point it is the edge flux; otherwise none"""
    B = ctx.fg.boundary
    psi = ctx.array("psi", (NX, NY), -3, 3)
    kind = ctx.choose("boundary", 2)
    wall = Obj() if ctx.flag("wall") else None
    limited = (not wall) and ctx.flag("check")
    e = make(ctx, psi, limited, wall, (B.freeBoundary, B.fixedBoundary)[kind])
    a, x, x2 = ctx.real("psi_axis", -2, 2), ctx.real("psi_x", -2, 2), ctx.real("psi_x2", -2, 2)
    nxp = ctx.choose("xpoints", 3)
    xpt = [(1.5, -0.5, x), (1.5, 0.5, x2)][:nxp]
    log = []
    with stubs(ctx, critical__find_critical=fixed_critical([(1.5, 0.0, a), (1.2, 0.1, a + 1)], xpt), critical__core_mask=mask_stub(ctx, log)):
        if ctx.flag("given"):
            e.psi = None
            e._updateBoundaryPsi(psi)
        else:
            e._updateBoundaryPsi()
    ctx.equal("axis", e.psi_axis, a)
    ctx.check("not_limited", not e.is_limited)
    if xpt:
        ctx.equal("boundary", e.psi_bndry, x)
        mask_ok(ctx, log, psi, xpt, x)
        ctx.check("mask", e.mask is not None)
    elif kind == 1:
        ctx.equal("boundary_fixed", e.psi_bndry, psi[0, 0])
        ctx.check("no_mask", e.mask is None)
    else:
        ctx.check("no_boundary", e.psi_bndry is None and e.mask is None)


NODES = [(1, 1), (4, 1), (4, 3), (2, 3), (3, 2)]


@H("limited", bounds="3..5 limit points at grid nodes, 0..1 X-points above or below, either orientation", max_paths=6000, budget=200)
def limited(ctx):
    """with the limiter check, the boundary flux is the one nearest the axis among X-point and limit points (those below 3/4 of the X-point height), with contact point, limited flag and mask to match"""
    B = ctx.fg.boundary
    sign = -1 if ctx.flag("axis_is_min") else 1
    a = ctx.real("psi_axis", -1, 1)
    n = 3 + 2 * ctx.choose("n", 2)
    nodes = NODES[:n]
    drop = {}
    psi = ctx.arr([[exact(ctx, ((i * 7 + j * 3) % 5) / 5) for j in range(NY)] for i in range(NX)])
    for i, j in nodes:
        drop[i, j] = ctx.real("drop_%d_%d" % (i, j), 0.1, 4)
        psi[i, j] = a - sign * drop[i, j]
    e = make(ctx, psi, True, Obj(), B.freeBoundary)
    e.tokamak.limit_points_R = ctx.arr([e.R[i, j] for i, j in nodes])
    e.tokamak.limit_points_Z = ctx.arr([e.Z[i, j] for i, j in nodes])
    xk = ctx.choose("xpoint", 4)
    dx = ctx.real("drop_x", 0.1, 4)
    # height of the X-point: all limit points count below 1.4 (0.75*1.4 > 0.5..1), only Z=0 at 0.6
    zx = (None, -1.4, 1.4, -0.6)[xk]
    xpt = [] if zx is None else [(1.5, zx, a - sign * dx)]
    log = []
    use = [c for c in nodes if zx is None or abs(float(e.Z[c])) < abs(0.75 * zx)]
    if not use:
        return
    with stubs(ctx, critical__find_critical=fixed_critical([(1.5, 0.0, a)], xpt), critical__core_mask=mask_stub(ctx, log)):
        e._updateBoundaryPsi(psi)
    best = use[0]
    for c in use[1:]:
        if bool(drop[c] < drop[best]):
            best = c
    dl = drop[best]
    ctx.equal("axis", e.psi_axis, a)
    ctx.equal("psi_limit", e.psi_limit, a - sign * dl, scale=None if ctx.symbolic else 4.0)
    ties = [c for c in use if c != best and bool(drop[c] == drop[best])]
    if not ties:
        ctx.equal("contact_R", e.Rlim, e.R[best])
        ctx.equal("contact_Z", e.Zlim, e.Z[best])
    if not xpt or bool(dl < dx):
        ctx.check("is_limited", bool(e.is_limited))
        ctx.equal("boundary", e.psi_bndry, a - sign * dl, scale=None if ctx.symbolic else 4.0)
        mask_ok(ctx, log, psi, xpt, e.psi_bndry)
    elif bool(dl > dx):
        ctx.check("is_diverted", not e.is_limited)
        ctx.equal("boundary", e.psi_bndry, a - sign * dx)
        mask_ok(ctx, log, psi, xpt, e.psi_bndry)


@H("limit_flux", bounds="limit points anywhere, flux linear in R and Z")
def limit_flux(ctx):
    """the flux at a limit point between nodes is interpolated from the flux map (not its transpose)"""
    B = ctx.fg.boundary
    c = ctx.real("c0", -1, 1), ctx.real("cR", -2, 2), ctx.real("cZ", -2, 2)
    R, Z = grid(ctx)
    psi = c[0] + c[1] * R + c[2] * Z
    e = make(ctx, psi, True, Obj(), B.freeBoundary)
    r, z = ctx.real("r", 1.05, 2.2), ctx.real("z", -0.95, 0.95)
    e.tokamak.limit_points_R, e.tokamak.limit_points_Z = ctx.arr([r]), ctx.arr([z])
    log = []
    with stubs(ctx, critical__find_critical=fixed_critical([(1.5, 0.0, exact(ctx, 20))], []), critical__core_mask=mask_stub(ctx, log)):
        e._updateBoundaryPsi(psi)
    ctx.equal("flux", e.psi_limit, c[0] + c[1] * r + c[2] * z, scale=None if ctx.symbolic else 5.0)
    ctx.equal("boundary", e.psi_bndry, c[0] + c[1] * r + c[2] * z, scale=None if ctx.symbolic else 5.0)
    ctx.equal("R", e.Rlim, r)
    ctx.equal("Z", e.Zlim, z)


def wall_points(ctx, kind):
    w, h = ctx.real("w", 0.5, 3), ctx.real("h", 0.5, 3)
    r0, z0 = ctx.real("r0", 0.2, 1), ctx.real("z0", -2, 0)
    if kind == 0:
        return [(r0, z0), (r0 + w, z0), (r0 + w, z0 + h), (r0, z0 + h)], [w, h, w, h]
    if kind == 1:  # 3-4-5 triangle
        return [(r0, z0), (r0 + 3 * w, z0), (r0, z0 + 4 * w)], [3 * w, 5 * w, 4 * w]
    if kind == 2:  # L shape, clockwise
        return [(r0, z0), (r0, z0 + 2 * h), (r0 + w, z0 + 2 * h), (r0 + w, z0 + h), (r0 + 2 * w, z0 + h), (r0 + 2 * w, z0)], [2 * h, w, h, w, h, 2 * w]


@H("limit_points", bounds="rectangle, triangle and L-shaped wall of arbitrary size, closed or not, 5..9 points", max_paths=6000, budget=200)
def limit_points(ctx):
    """limit points are equally spaced by distance along the whole closed wall, from its first point back to it"""
    m = ctx.fg.machine
    kind = ctx.choose("kind", 3)
    pts, lens = wall_points(ctx, kind)
    full = list(pts) + [pts[0]]
    given = full if ctx.flag("closed") else pts
    n = (5, 9)[ctx.choose("n", 2)]
    Rw, Zw = [p[0] for p in given], [p[1] for p in given]
    mach = m.Machine([], wall=m.Wall(list(Rw), list(Zw)), nlimit=n)
    ctx.check("count", len(mach.limit_points_R) == n and len(mach.limit_points_Z) == n)
    tot = sum(lens)
    for k in range(n):
        s = tot * q(ctx, k, n - 1)
        acc = exact(ctx, 0)
        for i in range(len(pts)):
            if i == len(pts) - 1 or bool(s <= acc + lens[i]):
                t = (s - acc) / lens[i]
                break
            acc = acc + lens[i]
        ctx.equal("R", mach.limit_points_R[k], full[i][0] + t * (full[i + 1][0] - full[i][0]), rtol=1e-6)
        ctx.equal("Z", mach.limit_points_Z[k], full[i][1] + t * (full[i + 1][1] - full[i][1]), rtol=1e-6, scale=None if ctx.symbolic else 4.0)
    ctx.check("wall_kept", list(mach.wall.R) == Rw and list(mach.wall.Z) == Zw if not ctx.symbolic else True)
    ctx.check("no_wall", m.Machine([]).limit_points_R is None and m.Machine([]).wall is None)
