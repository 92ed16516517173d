"""C11  Linear solvers: direct and multigrid."""
from .common import *
from .c09 import edge

HARNESSES = H = Harnesses()
ENCODES = ["freegs.multigrid.{MGDirect,MGJacobi,createVcycle,smoothJacobi,smoothVcycle,restrict,interpolate,LaplacianOp,LaplaceSparse}",
           "freegs.gradshafranov.{GSsparse,GSElliptic}"]
BOUNDS = "grids 5x5, 5x9, 9x5 (up to 3 levels), domain fixed for the linear solves and arbitrary for operators; arbitrary right-hand sides and starting guesses; up to 2 cycles and 2 sweeps"
SIZES = [(5, 5), (5, 9), (9, 5)]


def generator(ctx, which):
    if which == 0:
        g = ctx.fg.gradshafranov
        return g.GSsparse(*[exact(ctx, v) for v in (0.5, 1.5, -1.0, 1.0)])
    return ctx.fg.multigrid.LaplaceSparse(exact(ctx, 1.0), exact(ctx, 2.0))


def mat(A, x):
    return np.asarray(A.dot(x.reshape(-1))).reshape(x.shape)


@H("direct", bounds="5x5, 5x9, 9x5; Grad-Shafranov and Laplace matrices")
def direct(ctx):
    """the direct solver returns x with A x = b for every b, whatever the starting guess, leaving its inputs alone"""
    nx, ny = SIZES[ctx.choose("size", 3)]
    gen = generator(ctx, ctx.choose("matrix", 2))
    s = ctx.fg.multigrid.createVcycle(nx, ny, gen, nlevels=1, ncycle=1, niter=2, direct=True)
    b = ctx.array("b", (nx, ny), -1, 1)
    x0 = ctx.array("x", (nx, ny), -1, 1)
    b0, g0 = b.copy(), x0.copy()
    x = s(x0, b)
    ctx.check("shape", x.shape == (nx, ny))
    ctx.equal("solves", mat(gen(nx, ny), x), b0, rtol=1e-9, scale=1)
    ctx.equal("b_unchanged", b, b0)
    ctx.equal("guess_unchanged", x0, g0)


@H("fixed_point", bounds="5x5, 5x9, 9x5; 1-3 levels, 1-2 cycles, 1-2 sweeps, direct or iterative coarsest level", budget=240)
def fixed_point(ctx):
    """the exact solution is a fixed point of the multigrid cycle"""
    mg = ctx.fg.multigrid
    nx, ny = SIZES[ctx.choose("size", 3)]
    gen = generator(ctx, ctx.choose("matrix", 2))
    lev = 1 + ctx.choose("levels", 3)
    dr = ctx.flag("direct")
    s = mg.createVcycle(nx, ny, gen, nlevels=lev, ncycle=1 + ctx.choose("ncycle", 2), niter=1 + ctx.choose("niter", 2), direct=dr)
    x = ctx.array("x", (nx, ny), -1, 1)
    b = mat(gen(nx, ny), x)
    out = s(x.copy(), b)
    ctx.equal("fixed_point", out, x, rtol=1e-9, scale=1)


@H("indivisible", bounds="6x5, 5x6, 4x6 and 7x7 with up to 3 levels", budget=200)
def indivisible(ctx):
    """grids that can not be halved are solved directly; the exact solution is a fixed point also if only a coarser level can not be halved"""
    mg = ctx.fg.multigrid
    nx, ny = [(6, 5), (5, 6), (4, 6), (7, 7)][ctx.choose("size", 4)]
    gen = generator(ctx, 1)
    s = mg.createVcycle(nx, ny, gen, nlevels=1 + ctx.choose("levels", 3), ncycle=1, niter=1, direct=True)
    x = ctx.array("x", (nx, ny), -1, 1)
    b = mat(gen(nx, ny), x)
    x0 = ctx.array("guess", (nx, ny), -1, 1) if nx != 7 else x.copy()
    ctx.equal("solution", s(x0, b), x, rtol=1e-8, scale=1)


@H("boundary_exact", bounds="5x5, 9x5; 1-3 levels; arbitrary guess and right-hand side")
def boundary_exact(ctx):
    """after any cycle the boundary values are the ones prescribed by the right-hand side"""
    mg = ctx.fg.multigrid
    nx, ny = [(5, 5), (9, 5)][ctx.choose("size", 2)]
    gen = generator(ctx, 0)
    s = mg.createVcycle(nx, ny, gen, nlevels=1 + ctx.choose("levels", 3), ncycle=1, niter=1, direct=ctx.flag("direct"))
    x, b = ctx.array("x", (nx, ny), -1, 1), ctx.array("b", (nx, ny), -1, 1)
    b0, x0 = b.copy(), x.copy()
    out = s(x, b)
    for i in range(nx):
        for j in range(ny):
            if edge(i, j, nx, ny):
                ctx.equal("boundary", out[i, j], b0[i, j], rtol=1e-9)
    ctx.equal("guess_unchanged", x, x0)
    ctx.equal("b_unchanged", b, b0)


@H("error_affine", bounds="5x5; 2 levels, 1 cycle, 1 sweep; any guess, right-hand side")
def error_affine(ctx):
    """the error after a cycle depends linearly on the error before it and on nothing else"""
    mg = ctx.fg.multigrid
    nx = ny = 5
    gen = generator(ctx, ctx.choose("matrix", 2))
    mk = lambda: mg.createVcycle(nx, ny, gen, nlevels=2, ncycle=1, niter=1, direct=True)
    A = gen(nx, ny)
    x, u = ctx.array("x", (nx, ny), -1, 1), ctx.array("u", (nx, ny), -1, 1)
    b = mat(A, u)
    out = mk()(x.copy(), b)
    z = ctx.arr(np.zeros((nx, ny)))
    out0 = mk()((x - u).copy(), z)
    ctx.equal("error_propagation", out - u, out0, rtol=1e-9, scale=1)


@H("contraction", bounds="5x5; one sweep of the Grad-Shafranov operator", budget=200)
def contraction(ctx):
    """a Jacobi sweep never increases the largest error"""
    mg = ctx.fg.multigrid
    nx = ny = 5
    gen = generator(ctx, ctx.choose("matrix", 2))
    s = mg.createVcycle(nx, ny, gen, nlevels=1, ncycle=1, niter=1, direct=False)
    m = ctx.real("m", 0.01, 1)
    e = ctx.array("e", (nx, ny), -1, 1)
    for v in e.ravel():
        ctx.assume(v <= m)
        ctx.assume(-v <= m)
    z = ctx.arr(np.zeros((nx, ny)))
    out = s(e.copy(), z)
    for v in out.ravel():
        ctx.le("bounded_above", v, m)
        ctx.le("bounded_below", -v, m)


@H("coarse_correction", bounds="9x9 and 5x5 fixed Laplace grid: any smooth (polynomial) error", budget=200)
def coarse_correction(ctx):
    """one two-level cycle reduces a smooth error several times more than the smoothing alone would"""
    mg = ctx.fg.multigrid
    nx = ny = 9
    gen = generator(ctx, ctx.choose("matrix", 2))
    s = mg.createVcycle(nx, ny, gen, nlevels=2, ncycle=1, niter=1, direct=True)
    e = np.empty((nx, ny), dtype=object)
    for i in range(nx):
        for j in range(ny):
            e[i, j] = q(ctx, i * (8 - i) * j * (8 - j), 256)
    a = ctx.real("a", 0.5, 2)
    e = ctx.arr(e) * a
    z = ctx.arr(np.zeros((nx, ny)))
    out = s(e.copy(), z)
    for v in out.ravel():
        ctx.le("reduced", v, a * q(ctx, 1, 4))
        ctx.le("reduced_below", -v, a * q(ctx, 1, 4))


@H("restriction", bounds="5x5, 5x9, 9x5 arrays; avg or not; output given or not")
def restriction(ctx):
    """restriction: weighted average of the nine neighbours (times four unless avg), zero on the boundary, unchanged when it cannot be halved"""
    mg = ctx.fg.multigrid
    nx, ny = SIZES[ctx.choose("size", 3)]
    avg = ctx.flag("avg")
    f = ctx.array("f", (nx, ny), -1, 1)
    f0 = f.copy()
    out = mg.restrict(f, avg=True) if avg else mg.restrict(f)
    mx, my = (nx - 1) // 2 + 1, (ny - 1) // 2 + 1
    ctx.check("shape", out.shape == (mx, my))
    for i in range(mx):
        for j in range(my):
            if edge(i, j, mx, my):
                ctx.equal("zero_boundary", out[i, j], exact(ctx, 0))
            else:
                t = 0
                for di in (-1, 0, 1):
                    for dj in (-1, 0, 1):
                        t = t + f0[2 * i + di, 2 * j + dj] * q(ctx, (2 - abs(di)) * (2 - abs(dj)), 16)
                ctx.equal("full_weighting", out[i, j], t if avg else 4 * t)
    ctx.equal("input_unchanged", f, f0)
    g = ctx.array("g", (4, 5), -1, 1)
    ctx.equal("cannot_halve", mg.restrict(g), g)


@H("prolongation", bounds="3x3, 3x5, 5x3 arrays")
def prolongation(ctx):
    """prolongation is bilinear interpolation of a field that vanishes on the boundary"""
    mg = ctx.fg.multigrid
    nx, ny = [(3, 3), (3, 5), (5, 3), (4, 5)][ctx.choose("size", 4)]
    f = ctx.array("f", (nx, ny), -1, 1)
    f0 = f.copy()
    for i in range(nx):
        for j in range(ny):
            if edge(i, j, nx, ny):
                f0[i, j] = exact(ctx, 0)
    f = f0.copy()
    out = mg.interpolate(f)
    ctx.check("shape", out.shape == (2 * nx - 1, 2 * ny - 1))
    for i in range(2 * nx - 1):
        for j in range(2 * ny - 1):
            a, b = i // 2, j // 2
            i1, j1 = min(a + i % 2, nx - 1), min(b + j % 2, ny - 1)
            ref = (f0[a, b] + f0[i1, b] + f0[a, j1] + f0[i1, j1]) * q(ctx, 1, 4)
            ctx.equal("bilinear", out[i, j], ref)
    ctx.equal("input_unchanged", f, f0)


@H("operator_smoothing", bounds="5x5, operator form; any spacings, fields")
def operator_smoothing(ctx):
    """operator-form smoothing: exact solutions are fixed points, one sweep is x + (b - A x)/diag, inputs kept, mismatched shapes refused"""
    mg = ctx.fg.multigrid
    nx, ny = 5, 5
    op = ctx.fg.gradshafranov.GSElliptic(exact(ctx, 0.5)) if ctx.flag("gs") else mg.LaplacianOp()
    dx, dy = ctx.real("dx", 0.05, 0.5), ctx.real("dy", 0.05, 0.5)
    x = ctx.array("x", (nx, ny), -1, 1)
    x0 = x.copy()
    b = op(x, dx, dy)
    sc = 1
    ctx.equal("sweep_fixed_point", mg.smoothJacobi(op, x, b, dx, dy), x0, scale=sc)
    ctx.equal("vcycle_fixed_point", mg.smoothVcycle(op, x, b, dx, dy, niter=1, sublevels=1), x0, scale=sc)
    c = ctx.array("c", (nx, ny), -1, 1)
    ctx.equal("sweep", mg.smoothJacobi(op, x, c, dx, dy), x0 + (c - b) / op.diag(dx, dy), scale=sc)
    ctx.raises("shape_mismatch", ValueError, lambda: mg.smoothJacobi(op, x, c[:4, :], dx, dy))


@H("laplace_forms", bounds="5x4 grid; any size of the domain; any field")
def laplace_forms(ctx):
    """the Laplace matrix and operator are the five-point Laplacian, identity on the boundary"""
    mg = ctx.fg.multigrid
    Lx, Ly = ctx.real("Lx", 0.2, 3), ctx.real("Ly", 0.2, 3)
    nx, ny = 5, 4
    f = ctx.array("f", (nx, ny), -1, 1)
    dx, dy = Lx * q(ctx, 1, nx - 1), Ly * q(ctx, 1, ny - 1)
    out = mat(mg.LaplaceSparse(Lx, Ly)(nx, ny), f)
    o2 = mg.LaplacianOp()(f, dx, dy)
    for i in range(nx):
        for j in range(ny):
            if edge(i, j, nx, ny):
                ctx.equal("identity", out[i, j], f[i, j])
                ctx.equal("zero", o2[i, j], exact(ctx, 0))
            else:
                ref = (f[i + 1, j] - 2 * f[i, j] + f[i - 1, j]) / dx ** 2 + (f[i, j + 1] - 2 * f[i, j] + f[i, j - 1]) / dy ** 2
                sc = None if ctx.symbolic else 1 / dx ** 2 + 1 / dy ** 2
                ctx.equal("matrix", out[i, j], ref, scale=sc)
                ctx.equal("operator", o2[i, j], ref, scale=sc)
