"""C08  Discrete Grad-Shafranov operators."""
from .common import *

HARNESSES = H = Harnesses()
ENCODES = ["freegs.gradshafranov.GSsparse.__call__", "freegs.gradshafranov.GSsparse4thOrder.__call__",
           "freegs.gradshafranov.GSElliptic.__call__", "freegs.gradshafranov.GSElliptic.diag"]
BOUNDS = "every domain Rmin in [0.05,3], width in [0.1,3], Zmin, height; grids 5x4, 4x6 (2nd order) and 7x8, 8x7 (4th order; thorough up to 10x9); arbitrary psi on the boundary; all monomials R^a Z^b up to the formal order"


def domain(ctx):
    R0, w = ctx.real("Rmin", 0.05, 3), ctx.real("width", 0.1, 3)
    Z0, h = ctx.real("Zmin", -3, 3), ctx.real("height", 0.1, 4)
    return R0, R0 + w, Z0, Z0 + h


def pts(ctx, dom, nx, ny):
    R0, R1, Z0, Z1 = dom
    Rs = [R0 + (R1 - R0) * q(ctx, i, nx - 1) for i in range(nx)]
    Zs = [Z0 + (Z1 - Z0) * q(ctx, j, ny - 1) for j in range(ny)]
    return Rs, Zs


def apply(ctx, A, psi):
    v = A.dot(psi.reshape(-1))
    return np.asarray(v).reshape(psi.shape)


def monomial(ctx, Rs, Zs, a, b):
    out = np.empty((len(Rs), len(Zs)), dtype=object)
    for i, r in enumerate(Rs):
        for j, z in enumerate(Zs):
            out[i, j] = r ** a * z ** b
    return out if ctx.symbolic else out.astype(float)


def dstar(r, z, a, b):
    t = 0
    if a * (a - 2):
        t = t + a * (a - 2) * r ** (a - 2) * z ** b
    if b * (b - 1):
        t = t + b * (b - 1) * r ** a * z ** (b - 2)
    return t


def exactness(order, amax, bmax, sizes):
    def fn(ctx):
        g = ctx.fg.gradshafranov
        dom = domain(ctx)
        nx, ny = sizes[ctx.choose("size", len(sizes))]
        cls = g.GSsparse if order == 2 else g.GSsparse4thOrder
        A = cls(*dom)(nx, ny)
        ctx.check("shape", tuple(A.shape) == (nx * ny, nx * ny))
        Rs, Zs = pts(ctx, dom, nx, ny)
        a = ctx.choose("a", amax + 1)
        b = ctx.choose("b", bmax + 1)
        psi = monomial(ctx, Rs, Zs, a, b)
        out = apply(ctx, A, psi)
        dR, dZ = (dom[1] - dom[0]) / (nx - 1), (dom[3] - dom[2]) / (ny - 1)
        sc = None if ctx.symbolic else float(np.max(np.abs(psi))) * (1 / dR ** 2 + 1 / dZ ** 2)
        for i in range(nx):
            for j in range(ny):
                if i in (0, nx - 1) or j in (0, ny - 1):
                    ctx.equal("boundary_row", out[i, j], psi[i, j])
                else:
                    ctx.equal("interior", out[i, j], dstar(Rs[i], Zs[j], a, b), rtol=1e-9, scale=sc)
    fn.__doc__ = "order %d operator is exact on R^a Z^b, a<=%d, b<=%d, at every interior point" % (order, amax, bmax)
    return fn


H("order2_exact")(exactness(2, 2, 3, [(5, 4), (4, 6)]))
H("order4_exact", budget=240)(exactness(4, 4, 5, [(7, 8), (8, 7)]))
H("order4_exact_large", thorough_only=True)(exactness(4, 4, 5, [(9, 8), (10, 9)]))


@H("boundary_rows", bounds="arbitrary psi; 5x4 (order 2), 7x8 (order 4)")
def boundary_rows(ctx):
    """boundary rows of both matrices are the identity, so the right-hand side sets boundary values"""
    g = ctx.fg.gradshafranov
    dom = domain(ctx)
    if ctx.flag("order4"):
        nx, ny, cls = 7, 8, g.GSsparse4thOrder
    else:
        nx, ny, cls = 5, 4, g.GSsparse
    A = cls(*dom)(nx, ny)
    psi = ctx.array("psi", (nx, ny), -10, 10)
    out = apply(ctx, A, psi)
    for i in range(nx):
        for j in range(ny):
            if i in (0, nx - 1) or j in (0, ny - 1):
                ctx.equal("identity", out[i, j], psi[i, j])


@H("stencil_equals_operator", bounds="5x4 grid, arbitrary psi and spacings")
def stencil_equals_operator(ctx):
    """GSElliptic applied to any psi equals the second-order matrix in the interior and zero on the boundary"""
    g = ctx.fg.gradshafranov
    dom = domain(ctx)
    nx, ny = 5, 4
    A = g.GSsparse(*dom)(nx, ny)
    psi = ctx.array("psi", (nx, ny), -10, 10)
    p0 = psi.copy()
    dR, dZ = (dom[1] - dom[0]) * q(ctx, 1, nx - 1), (dom[3] - dom[2]) * q(ctx, 1, ny - 1)
    op = g.GSElliptic(dom[0])
    b = op(psi, dR, dZ)
    out = apply(ctx, A, psi)
    sc = None if ctx.symbolic else 10 * (1 / dR ** 2 + 1 / dZ ** 2)
    for i in range(nx):
        for j in range(ny):
            if i in (0, nx - 1) or j in (0, ny - 1):
                ctx.equal("zero_boundary", b[i, j], exact(ctx, 0))
            else:
                ctx.equal("interior", b[i, j], out[i, j], rtol=1e-9, scale=sc)
    ctx.equal("psi_unchanged", psi, p0)


@H("diagonal", bounds="3x3 to 5x4")
def diagonal(ctx):
    """diag() is the coefficient of the centre point in both forms of the operator"""
    g = ctx.fg.gradshafranov
    dom = domain(ctx)
    nx, ny = 5, 4
    dR, dZ = (dom[1] - dom[0]) * q(ctx, 1, nx - 1), (dom[3] - dom[2]) * q(ctx, 1, ny - 1)
    d = g.GSElliptic(dom[0]).diag(dR, dZ)
    A = g.GSsparse(*dom)(nx, ny)
    dd = A.diagonal()
    for i in range(1, nx - 1):
        for j in range(1, ny - 1):
            ctx.equal("diag_matrix", dd[i * ny + j], d, rtol=1e-9)
            e = np.zeros((nx, ny))
            e[i, j] = 1
            if ctx.symbolic:
                from engine.shims import obj
                e = obj(e)
            ctx.equal("diag_operator", g.GSElliptic(dom[0])(e, dR, dZ)[i, j], d, rtol=1e-9)


@H("linearity", bounds="4x4 grid, arbitrary fields and factors")
def linearity(ctx):
    """the operator is linear"""
    g = ctx.fg.gradshafranov
    op = g.GSElliptic(ctx.real("Rmin", 0.05, 3))
    dR, dZ = ctx.real("dR", 0.05, 1), ctx.real("dZ", 0.05, 1)
    u, v = ctx.array("u", (4, 4), -5, 5), ctx.array("v", (4, 4), -5, 5)
    s = ctx.real("s", -5, 5)
    sc = None if ctx.symbolic else 100 * (1 / dR ** 2 + 1 / dZ ** 2)
    ctx.equal("linear", op(u + s * v, dR, dZ), op(u, dR, dZ) + s * op(v, dR, dZ), rtol=1e-10, scale=sc)
