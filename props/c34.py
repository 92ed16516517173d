"""C34  Automatic filaments."""
from .common import *

HARNESSES = H = Harnesses()
ENCODES = ["freegs.filament_coil.populate_with_fils", "freegs.filament_coil.FilamentCoil.__init__"]
BOUNDS = "squares, rectangles (also thin), triangles and a concave hexagon of arbitrary size and position, either orientation, closed or open outline; 1 to 7 filaments requested"
ASSUMPTIONS = ["points exactly on the outline count as inside or outside", "proportions of the shapes are fixed; size and position are arbitrary"]

#: outline, convex parts it is made of, compact
SHAPES = [
    ([(0, 0), (1, 0), (1, 1), (0, 1)], None, True),
    ([(0, 0), (0, 1), (2, 0)], None, True),
    ([(0, 0), (2, 0), (2, 2), (1, 2), (1, 1), (0, 1)], ([(0, 0), (2, 0), (2, 1), (0, 1)], [(1, 0), (2, 0), (2, 2), (1, 2)]), True),
    ([(0, 1), (1, 0), (2, 1), (1, 3)], None, True),
    ([(0, 0), (14, 0), (14, 1), (0, 1)], None, False),
    ([(0, 0), (1, 0), (1, 12), (0, 12)], None, False),
]


def area2(p):
    return sum(p[k][0] * p[(k + 1) % len(p)][1] - p[(k + 1) % len(p)][0] * p[k][1] for k in range(len(p)))


def in_convex(p, x, y):
    s = 1 if area2(p) > 0 else -1
    # the filaments are rounded in real runs
    return S.b_and(*[s * ((bx - ax) * (y - ay) - (x - ax) * (by - ay)) >= -1e-9
                     for (ax, ay), (bx, by) in zip(p, p[1:] + p[:1])])


def setup(ctx, kinds):
    sh, parts, compact = SHAPES[kinds[ctx.choose("shape", len(kinds))]]
    a, r, z = ctx.real("a", 0.05, 0.5), ctx.real("r", 0.5, 3), ctx.real("z", -2, 2)
    out = list(sh)
    form = ctx.choose("outline", 4)
    if form & 1:
        out = out[::-1]
    if form & 2:
        out = out + out[:1]
    return a, r, z, sh, parts, compact, [(r + a * x, z + a * y) for x, y in out]


def judge(ctx, pts, a, r, z, sh, parts, compact, n):
    ctx.check("some", len(pts) > 0)
    uv = [((x - r) / a, (y - z) / a) for x, y in pts]
    for u, v in uv:
        ctx.check("inside", S.b_or(*[in_convex(p, u, v) for p in (parts or [sh])]))
    if compact:
        # about as many as requested, spread over the cross-section
        ctx.check("number", n <= 2 * len(pts) and len(pts) <= 2 * n)
    A = abs(area2(sh)) / 2
    for i in range(len(uv)):
        for j in range(i):
            d2 = (uv[i][0] - uv[j][0]) ** 2 + (uv[i][1] - uv[j][1]) ** 2
            ctx.check("apart", d2 * (10 * len(uv)) >= A if compact else d2 > 0)


@H("populate", bounds="6 shapes in 4 ways, 1, 2, 4 or 7 filaments requested, arbitrary size and position", max_paths=1000)
def populate(ctx):
    """filaments are different points inside the cross-section, at least one and for compact shapes about as many as requested"""
    a, r, z, sh, parts, compact, out = setup(ctx, (0, 1, 2, 3, 4, 5))
    n = (1, 2, 4, 7)[ctx.choose("n", 4)]
    before = list(out)
    rf, zf = ctx.fg.filament_coil.populate_with_fils(out, n)
    ctx.check("pairs", np.ndim(rf) == 1 and np.ndim(zf) == 1 and len(rf) == len(zf))
    judge(ctx, list(zip(list(rf), list(zf))), a, r, z, sh, parts, compact, n)
    ctx.check("outline_untouched", len(out) == len(before) and all(o is b for o, b in zip(out, before)))


@H("coil", bounds="3 shapes in 4 ways, 1 to 5 filaments requested, arbitrary size, position, turns and current")
def coil(ctx):
    """a filament coil given only by its outline carries its turns in filaments inside the outline and has the outline's area"""
    a, r, z, sh, parts, compact, out = setup(ctx, (0, 2, 5))
    n = (1, 3, 5)[ctx.choose("n", 3)]
    I, t = ctx.real("I", -1e4, 1e4), ctx.real("turns", 1, 100)
    c = ctx.fg.filament_coil.FilamentCoil(shape=out, current=I, Nfils=n, turns=t)
    pts = [(p[0], p[1]) for p in c.points]
    ctx.check("count", c.npoints == len(pts))
    judge(ctx, pts, a, r, z, sh, parts, compact, n)
    ctx.equal("area", c.area, a * a * q(ctx, abs(area2(sh)), 2))
    ctx.equal("middle", (c.R, c.Z), (r + a * sum([q(ctx, x, len(sh)) for x, y in sh]), z + a * sum([q(ctx, y, len(sh)) for x, y in sh])))
    ctx.equal("current", c.current, I)
    ctx.equal("turns", c.turns, t)
    R, Z = ctx.real("R", 0.5, 3), ctx.real("Z", -3, -2.5)
    G = ctx.fg.gradshafranov.Greens
    ctx.equal("flux", c.psi(R, Z) * len(pts), I * t * sum((G(x, y, R, Z) for x, y in pts), 0))
