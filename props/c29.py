"""C29  Shape of the plasma boundary."""
from .common import *
from .c09 import ref_grid
from .c25 import crosses, edges
from .c27 import Prof, solved
from .c28 import Field

HARNESSES = H = Harnesses()
ENCODES = ["freegs.equilibrium.Equilibrium.{geometricAxis,Rgeometric,Zgeometric,minorRadius,aspectRatio,inverseAspectRatio,elongation,elongationUpper,elongationLower,triangularity,triangularityUpper,triangularityLower,shafranovShift,magneticAxis,Rmagnetic,Zmagnetic,innerOuterSeparatrix,intersectsWall}",
           "freegs.polygons.intersect"]
BOUNDS = "boundaries of 4..5 arbitrary points; 5x5 (thorough 9x5) grid with an arbitrary row of fluxes; walls of 3..4 points and boundaries of 3 points with one arbitrary"
ASSUMPTIONS = ["boundary points and critical points are arbitrary results of the searches (C15, C16)"]


def equilibrium(ctx, nx=5, ny=5, nodes=(), dom=(0.5, 2.5, -1.0, 1.0), axis=(1.25, 0.25), flux=None):
    F = Field(ctx, nx, ny, nodes)
    tok = ctx.fg.machine.Machine([("F", F)])
    d = tuple(exact(ctx, v) for v in dom)
    a, b = ctx.real("psi_axis", -2, 2), ctx.real("psi_x", -4, 4)
    ctx.assume(absv(ctx, b - a) >= 0.5)
    if flux is not None:
        a, b = exact(ctx, flux[0]), exact(ctx, flux[1])
    o = [(exact(ctx, axis[0]), exact(ctx, axis[1]), a), (exact(ctx, 2.25), exact(ctx, -0.5), a + 1)]
    x = [(exact(ctx, 1.5), exact(ctx, -0.75), b)]
    zero = ctx.arr([[exact(ctx, 0)] * ny for _ in range(nx)])
    eq = solved(ctx, zero, Prof(ctx), tok, d, o, x, mask=ctx.arr([[1.0] * ny for _ in range(nx)]))
    return eq, F, d, o, x, a, b


def boundary(ctx, o, x, tab, seen):
    def find_separatrix(eq, opoint=None, xpoint=None, ntheta=20, psi=None, axis=None, psival=1.0):
        seen.append(ntheta)
        return [(p[0], p[1], 0.0, 0.0) for p in tab[ntheta]]
    return stubs(ctx, critical__find_separatrix=find_separatrix, critical__find_critical=fixed_critical(o, x))


@H("shape", bounds="4 arbitrary boundary points (thorough 5), all shape numbers", budget=300, max_paths=20000)
def shape(ctx):
    """axis, minor radius, aspect ratio, elongations, triangularities and shift from the extreme points of the boundary"""
    n = 5 if ctx.thorough else 4
    p = [(ctx.real("r%d" % i, 0.6, 2.4), ctx.real("z%d" % i, -0.9, 0.9)) for i in range(n)]
    R, Z = [v[0] for v in p], [v[1] for v in p]
    # which points are the extreme ones
    i1, i2 = ctx.choose("outermost", n), ctx.choose("highest", n)
    i3, i4 = (i1 + 1 + ctx.choose("innermost", n - 1)) % n, (i2 + 1 + ctx.choose("lowest", n - 1)) % n
    for i in range(n):
        for k, v, sg in ((i1, R, 1), (i3, R, -1), (i2, Z, 1), (i4, Z, -1)):
            if i != k:
                ctx.assume((v[k] - v[i]) * sg > 0)
    ctx.assume(R[i1] - R[i3] >= 0.1)
    eq, F, d, o, x, A, B = equilibrium(ctx)
    dec = [(exact(ctx, 1 + k / 8), exact(ctx, k / 16 * (1 if k % 2 else -1))) for k in range(4)]
    seen = []
    r0, a = (R[i1] + R[i3]) / 2, (R[i1] - R[i3]) / 2
    z0 = (Z[i1] + Z[i3]) / 2
    tu, tl = (r0 - R[i2]) / a, (r0 - R[i4]) / a
    want = dict(Rgeometric=r0, Zgeometric=z0, minorRadius=a, aspectRatio=r0 / a, inverseAspectRatio=a / r0,
                elongation=(Z[i2] - Z[i4]) / (2 * a), elongationUpper=(Z[i2] - z0) / a, elongationLower=(z0 - Z[i4]) / a,
                triangularityUpper=tu, triangularityLower=tl, triangularity=(tu + tl) / 2)
    m = 7 if (i1 + i2) % 2 else 360
    kw = dict(npoints=7) if m == 7 else {}
    # the other number of points gives another boundary
    with boundary(ctx, o, x, {7: p if m == 7 else dec, 360: p if m == 360 else dec}, seen):
        for k, v in want.items():
            ctx.equal(k, getattr(eq, k)(**kw), v, scale=None if ctx.symbolic else 10.0)
        g = eq.geometricAxis(**kw)
        ctx.equal("geometricAxis_R", g[0], r0)
        ctx.equal("geometricAxis_Z", g[1], z0)
        s = eq.shafranovShift(**kw)
        ctx.equal("shift_R", s[0], o[0][0] - r0)
        ctx.equal("shift_Z", s[1], o[0][1] - z0)
        ctx.equal("Rmagnetic", eq.Rmagnetic(), o[0][0])
        ctx.equal("Zmagnetic", eq.Zmagnetic(), o[0][1])
        for k in range(3):
            ctx.equal("magneticAxis", eq.magneticAxis()[k], o[0][k])
    ctx.check("points_requested", all(v == m for v in seen))


@H("midplane", bounds="5x5 (thorough 9x5) grid, arbitrary flux along the row, any height, either flux orientation", budget=300, max_paths=20000)
def midplane(ctx):
    """inner and outer boundary radius at a height: linear interpolation of the crossing nearest the axis in the row nearest that height; the edge of the domain if there is none"""
    nx, ny = (9 if ctx.thorough else 5), 5
    j = ctx.choose("row", 3) + 1
    h = ctx.real("height", -1, 1)
    nodes = [(i, j) for i in range(nx)]
    eq, F, d, o, x, a, b = equilibrium(ctx, nx, ny, nodes, axis=(1.6, 0.25), flux=((1, -1), (-0.75, 1.25))[ctx.choose("orientation", 2)])
    Rs, Zs = ref_grid(ctx, d, nx, ny)
    if ctx.choose("default", 2):
        if j != 2:
            ctx.assume(False)
            return
        args = ()
    else:
        ctx.assume(h <= Zs[j] + exact(ctx, 0.25) - exact(ctx, 0.01))
        ctx.assume(h >= Zs[j] - exact(ctx, 0.25) + exact(ctx, 0.01))
        args = (h,)
    ia = nx // 2   # nearest to 1.6
    row = F.t["psi"]
    sg = 1 if b > a else -1

    def out(i):
        """(psi - axis)/(bndry - axis) > 1"""
        return bool((row[i, j] - b) * sg > 0)
    if out(ia):
        ctx.assume(False)
        return
    with stubs(ctx, critical__find_critical=fixed_critical(o, x)):
        rin, rout = eq.innerOuterSeparatrix(*args)
    for side, got in ((-1, rin), (1, rout)):
        i = ia
        while 0 <= i < nx and not out(i):
            i += side
        if i < 0 or i >= nx:
            ctx.equal("edge_of_domain", got, d[0] if side < 0 else d[1])
        else:
            f, g = row[i, j], row[i - side, j]   # outside, inside
            ctx.equal("inner" if side < 0 else "outer", got * (f - g), Rs[i] * (b - g) + Rs[i - side] * (f - b), scale=None if ctx.symbolic else 10.0)


@H("wall", bounds="boundary of 3 points, one arbitrary; wall of 3 or 4 points", budget=200, sign_fork=True)
def wall(ctx):
    """intersectsWall: whether any side of the closed boundary crosses any side of the closed wall"""
    P = (ctx.real("r", 0.6, 2.4), ctx.real("z", -0.9, 0.9))
    kw, k = ((0, 0), (0, 2), (1, 1))[ctx.choose("case", 3)]
    w = [[(1.0, -0.5), (1.5, 0.75), (2.0, -0.5)], [(1.0, -0.5), (1.0, 0.5), (2.0, 0.5), (2.0, -0.5)]][kw]
    s = [(1.625, -0.25), (1.5, 0.25), (1.375, -0.25)]
    s = [P if i == k else (exact(ctx, v[0]), exact(ctx, v[1])) for i, v in enumerate(s)]
    want, unsure = False, False
    for a, b in edges(s, True):
        if a is not P and b is not P:
            continue  # the fixed sides do not cross
        for c, d in edges(w, True):
            t = crosses(ctx, a, b, c, d)
            unsure = unsure or t is None
            want = want or bool(t)
        if want:
            break
    if unsure and not want:
        return
    eq, F, d, o, x, a, b = equilibrium(ctx)
    eq.getMachine().wall = ctx.fg.machine.Wall([v[0] for v in w], [v[1] for v in w])
    with boundary(ctx, o, x, {360: s}, []):
        ctx.check("intersects", bool(eq.intersectsWall()) == want)
