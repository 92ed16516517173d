"""C25  Polygon routines: crossing, area, orientation, triangulation."""
from .common import *

HARNESSES = H = Harnesses()
ENCODES = ["freegs.polygons.intersect", "freegs.polygons.area", "freegs.polygons.clockwise", "freegs.polygons.triangulate"]
BOUNDS = "crossing: fixed segments in four directions against arbitrary segments, polygons of 3..4 points, open or closed, with one or two arbitrary points; area: 3..5 arbitrary points; triangulation: all simple quadrilaterals, pentagons and hexagons (convex and concave) with one arbitrary point, either orientation and any first vertex"
ASSUMPTIONS = ["crossing segments whose cross product is below 1e-6 count as parallel (as the code documents)",
               "segments that only touch at an end are not decided (either answer accepted)"]


def orient(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def cross_det(a, b, c, d):
    return (b[0] - a[0]) * (d[1] - c[1]) - (d[0] - c[0]) * (b[1] - a[1])


def crosses(ctx, a, b, c, d):
    """True / False / None (touching or nearly parallel: undecided)"""
    det = cross_det(a, b, c, d)
    if -1e-6 < det and det < 1e-6:
        if det == 0:
            return False
        return None
    s, t = orient(a, b, c), orient(a, b, d)
    u, v = orient(c, d, a), orient(c, d, b)
    if (s > 0 and t > 0) or (s < 0 and t < 0) or (u > 0 and v > 0) or (u < 0 and v < 0):
        return False
    if s == 0 or t == 0 or u == 0 or v == 0:
        return None
    return True


@H("segments", bounds="a fixed segment in four directions, another with all coordinates arbitrary, either one first", budget=200, sign_fork=True)
def segments(ctx):
    """two segments cross exactly if the ends of each lie on opposite sides of the other"""
    a = [(2, 0), (0, 1.5), (1, 0.5), (-1.5, 1)][ctx.choose("first", 4)]
    p = [(exact(ctx, 0), exact(ctx, 0)), (exact(ctx, a[0]), exact(ctx, a[1]))]
    p += [(ctx.real("r%d" % i, -2, 2), ctx.real("z%d" % i, -2, 2)) for i in (2, 3)]
    if ctx.choose("swap", 2):
        p = p[2:] + p[:2]
    want = crosses(ctx, *p)
    got = ctx.fg.polygons.intersect([p[0][0], p[1][0]], [p[0][1], p[1][1]], [p[2][0], p[3][0]], [p[2][1], p[3][1]], closed1=False, closed2=False)
    if want is not None:
        ctx.check("cross", bool(got) == want)


def edges(pts, closed):
    n = len(pts)
    return [(pts[i], pts[(i + 1) % n]) for i in range(n if closed else n - 1)]


LINES = [
    ([(0, 0), (0, 1), (1, 1), (1, 0)], [(0.5, 0.5), None, (0.75, 0.25)]),
    ([(0, 0), (0, 1), (1, 1), (1, 0)], [(2.0, -1.0), (2.5, 0.5), None]),
    ([(0, 0), (2, 1), (0, 2)], [(1.5, -1.0), None, (0.125, 2.5), (-1.0, 1.0)]),
    ([(0, 0), None, (0.5, 2), (-1, 1)], [(1.0, -1.0), (1.25, 0.75), (3.0, 1.0)]),
    # arrangements in which only the last segment, or only the closing one, crosses
    ([(0, 0), (0, 3), (-1, 3)], [(-2, 4.0), (-2, 2.0), (-0.5, 2.0), None]),
    ([(0, 0), (3, 0), (3, 1), None], [(1.0, 0.25), (1.0, 0.5), (1.25, 0.5)]),
]


def compare_lines(ctx, A, B, c1, c2):
    P = (ctx.real("r", -3, 3), ctx.real("z", -3, 3))
    A, B = ([P if p is None else (exact(ctx, p[0]), exact(ctx, p[1])) for p in X] for X in (A, B))
    want, unsure = False, False
    for a, b in edges(A, c1):
        for c, d in edges(B, c2):
            w = crosses(ctx, a, b, c, d)
            if w is None:
                unsure = True
            elif w:
                want = True
                break
        if want:
            break
    if unsure and not want:
        return
    ra, za, rb, zb = [p[0] for p in A], [p[1] for p in A], [p[0] for p in B], [p[1] for p in B]
    f = ctx.fg.polygons.intersect
    ctx.check("cross", bool(f(ra, za, rb, zb, closed1=c1, closed2=c2)) == want)
    ctx.check("symmetric", bool(f(rb, zb, ra, za, closed1=c2, closed2=c1)) == want)
    if c1 and c2:
        ctx.check("closed_by_default", bool(f(ra, za, rb, zb)) == want)


@H("polylines", bounds="6 arrangements of 3..4 points with one arbitrary point, both open or both closed (thorough: each open or closed)", budget=300, sign_fork=True)
def polylines(ctx):
    """polygons cross exactly if one of their segments does; the last point is joined to the first only if closed; symmetric in its arguments"""
    A, B = LINES[ctx.choose("shape", len(LINES))]
    if ctx.thorough:
        c1, c2 = bool(ctx.choose("closed1", 2)), bool(ctx.choose("closed2", 2))
    else:
        c1, c2 = ((True, True), (False, False))[ctx.choose("closed", 2)]
    compare_lines(ctx, A, B, c1, c2)


@H("line_and_outline", bounds="triangle and an open line with one arbitrary end, either of them closed and the other open", budget=200, sign_fork=True)
def line_and_outline(ctx):
    """each of the two lines is closed or open by its own flag"""
    A, B = [([(0, 0), (2, 0), (0, 2)], [(-1, 1), None]), ([(0, 0), (2, 0), (2, 2)], [(0, 1), (-1, 2), None])][ctx.choose("shape", 2)]
    first = bool(ctx.choose("first", 2))
    compare_lines(ctx, A, B, first, not first)


@H("areas", bounds="3..5 arbitrary points")
def areas(ctx):
    """signed area: half the sum of cross products, positive clockwise, negated by reversal, unaffected by the starting point and by moving"""
    n = ctx.choose("n", 3) + 3
    p = [(ctx.real("r%d" % i, -3, 3), ctx.real("z%d" % i, -3, 3)) for i in range(n)]
    f = ctx.fg.polygons.area
    want = 0
    for i in range(n):
        a, b = p[i], p[(i + 1) % n]
        want = want - (a[0] * b[1] - b[0] * a[1]) / 2
    A = f(p)
    SC = 10.0 if not ctx.symbolic else None
    ctx.equal("area", A, want, scale=SC)
    ctx.equal("reversed", f(list(reversed(p))), -want, scale=SC)
    ctx.equal("rotated", f(p[1:] + p[:1]), want, scale=SC)
    dr, dz = ctx.real("dr", -2, 2), ctx.real("dz", -2, 2)
    ctx.equal("moved", f([(r + dr, z + dz) for r, z in p]), want, scale=SC)
    if absv(ctx, want) > 1e-6:
        ctx.check("clockwise", bool(ctx.fg.polygons.clockwise(p)) == bool(want > 0))
    ctx.check("input_unchanged", len(p) == n)


POLYS = [  # None: the arbitrary vertex (all positions that keep the polygon simple)
    [(0, 0), (0, 2), (2, 2), None],
    [(0, 0), (0, 2), (2, 2), (2, 0), None],
    [(0, 0), (1, 2), (2, 0), (1.5, 3), None],
    [(0, 0), (0, 3), (1, 1), (2, 3), None, (1.5, 0.5)],
    [(0, 0), (0, 3), (3, 3), (3, 2), (1, 2), None],
]


def simple(ctx, p):
    """no two sides touch except neighbours at their common end; decided or None"""
    n = len(p)
    for i in range(n):
        for j in range(i + 1, n):
            if j == i + 1 or (i == 0 and j == n - 1):
                continue
            a, b, c, d = p[i], p[(i + 1) % n], p[j], p[(j + 1) % n]
            s, t = orient(a, b, c), orient(a, b, d)
            u, v = orient(c, d, a), orient(c, d, b)
            if not ((s > 0 and t > 0) or (s < 0 and t < 0) or (u > 0 and v > 0) or (u < 0 and v < 0)):
                return False
    # neighbours not folded back onto each other
    for i in range(n):
        if orient(p[i - 1], p[i], p[(i + 1) % n]) == 0:
            return False
    return True


@H("triangulation", bounds="5 families of 4..6 points with one arbitrary vertex, either orientation, three starting vertices", budget=300, max_paths=20000)
def triangulation(ctx):
    """any simple polygon is cut into n-2 triangles that tile it: made of its vertices, none turned over, their sides cancelling except for the polygon's own"""
    k = ctx.choose("polygon", len(POLYS))
    P = (ctx.real("r", -2, 5), ctx.real("z", -2, 5))
    p = [P if v is None else (exact(ctx, v[0]), exact(ctx, v[1])) for v in POLYS[k]]
    n = len(p)
    if not simple(ctx, p):
        ctx.assume(False)
        return
    s = ctx.choose("first", 3) * 2 % n
    q_ = p[s:] + p[:s]
    if ctx.choose("reverse", 2):
        q_ = q_[::-1]
    given = list(q_)
    tris = ctx.fg.polygons.triangulate(q_)
    ctx.check("input_unchanged", len(q_) == n and all(a is b for a, b in zip(q_, given)))
    ctx.check("count", len(tris) == n - 2)
    if len(tris) != n - 2:
        return
    A = ctx.fg.polygons.area(p)
    sign = 1 if A > 0 else -1
    ids = {id(v): i for i, v in enumerate(p)}
    bnd = {}
    for t in tris:
        ctx.check("three_corners", len(t) == 3)
        idx = []
        for v in t:
            m = [i for i, w in enumerate(p) if w is v or (w[0] is v[0] and w[1] is v[1])]
            ctx.check("polygon_vertices", len(m) >= 1)
            idx.append(m[0] if m else -1)
        ctx.le("not_turned_over", 0, ctx.fg.polygons.area(t))
        for a, b in zip(idx, idx[1:] + idx[:1]):
            if (b, a) in bnd and bnd[(b, a)]:
                bnd[(b, a)] -= 1
            else:
                bnd[(a, b)] = bnd.get((a, b), 0) + 1
    left = {e for e, c in bnd.items() for _ in range(c)}
    want = {(i, (i + 1) % n) if sign > 0 else ((i + 1) % n, i) for i in range(n)}
    ctx.check("tiles_polygon", left == want and sum(bnd.values()) == n)


@H("refusals", bounds="2 points, lists of different lengths")
def refusals(ctx):
    """fewer than three vertices, or coordinates of different number, are refused"""
    a = ctx.real("a", -1, 1)
    ctx.raises("two_points", AssertionError, lambda: ctx.fg.polygons.triangulate([(a, 0.0), (1.0, a)]))
    ctx.raises("lengths", AssertionError, lambda: ctx.fg.polygons.intersect([a, a, 1.0], [0.0, 1.0], [a, 1.0], [0.0, 1.0]))
