"""C26  Quadrature over polygons."""
from .common import *
from .c25 import orient

HARNESSES = H = Harnesses()
ENCODES = ["freegs.quadrature.triangle_quad", "freegs.quadrature.polygon_quad", "freegs.quadrature.average", "freegs.polygons.triangulate", "freegs.polygons.area"]
BOUNDS = "arbitrary triangles; arbitrary polynomials up to the rule's degree (1, 2, 4); convex and concave quadrilaterals and pentagons with an arbitrary vertex"
ASSUMPTIONS = ["6-point rule: tabulated coefficients have 15 digits, so its exactness is decided to 1e-12 relative"]

DEG = {1: 1, 3: 2, 6: 4}


def fact(n):
    r = 1
    for i in range(2, n + 1):
        r *= i
    return r


@H("triangle_rule", bounds="unit triangle, arbitrary polynomial of the rule's degree")
def triangle_rule(ctx):
    """on the unit triangle the rule averages every polynomial up to its degree exactly; positive weights that sum to one, points inside"""
    n = (1, 3, 6)[ctx.choose("n", 3)]
    one, zero = exact(ctx, 1), exact(ctx, 0)
    quad = ctx.fg.quadrature.triangle_quad([(zero, zero), (one, zero), (zero, one)], n=n)
    ctx.check("points", len(quad) == n)
    c = {(i, j): ctx.real("c%d%d" % (i, j), -1, 1) for i in range(5) for j in range(5) if i + j <= DEG[n]}

    def f(r, z):
        t = 0
        for (i, j), k in c.items():
            v = k
            for _ in range(i):
                v = v * r
            for _ in range(j):
                v = v * z
            t = t + v
        return t
    want = 0
    for (i, j), k in c.items():
        want = want + k * q(ctx, 2 * fact(i) * fact(j), fact(i + j + 2))
    ctx.near("average", ctx.fg.quadrature.average(f, quad), want, 1e-12)
    s = 0
    for r, z, w in quad:
        s = s + w
        ctx.check("inside", bool(r > 0) and bool(z > 0) and bool(r + z < 1))
        ctx.check("positive", bool(w > 0))
    ctx.near("weights", s, 1, 1e-12)


@H("affine", bounds="arbitrary triangle, any orientation")
def affine(ctx):
    """the rule of any triangle is the image of the unit triangle's rule"""
    n = (1, 3, 6)[ctx.choose("n", 3)]
    one, zero = exact(ctx, 1), exact(ctx, 0)
    ref = ctx.fg.quadrature.triangle_quad([(zero, zero), (one, zero), (zero, one)], n=n)
    p = [(ctx.real("r%d" % i, 0.1, 4), ctx.real("z%d" % i, -3, 3)) for i in range(3)]
    quad = ctx.fg.quadrature.triangle_quad(p, n=n)
    ctx.check("count", len(quad) == len(ref))
    for (r, z, w), (x, y, v) in zip(quad, ref):
        ctx.near("weight", w, v, 1e-14)
        ctx.near("R", r, p[0][0] + x * (p[1][0] - p[0][0]) + y * (p[2][0] - p[0][0]), 1e-13)
        ctx.near("Z", z, p[0][1] + x * (p[1][1] - p[0][1]) + y * (p[2][1] - p[0][1]), 1e-13)


@H("bad_n", bounds="other numbers of points")
def bad_n(ctx):
    """unavailable numbers of points are refused"""
    n = (0, 2, 4, 5, 7)[ctx.choose("n", 5)]
    a = ctx.real("a", 1, 2)
    ctx.raises("refused", ValueError, lambda: ctx.fg.quadrature.triangle_quad([(0.0, 0.0), (a, 0.0), (0.0, a)], n=n))


QUADS = [
    [(1, 0), (1, 1), (2, 1), None],          # convex or concave
    [(1, 0), (1, 2), (2, 0.5), (3, 2), None],  # pentagon with a notch
]


@H("polygon", bounds="quadrilateral and pentagon with one arbitrary vertex, either orientation, 1 or 3 points per triangle", budget=200)
def polygon(ctx):
    """over any simple polygon the weights sum to one and are not negative, and linear functions are averaged exactly (the centroid)"""
    from .c25 import simple
    k = ctx.choose("shape", 2)
    P = (ctx.real("r", 0.5, 4), ctx.real("z", -3, 2))
    p = [P if v is None else (exact(ctx, v[0]), exact(ctx, v[1])) for v in QUADS[k]]
    if not simple(ctx, p):
        ctx.assume(False)
        return
    if ctx.choose("reverse", 2):
        p = p[::-1]
    n = (1, 3, 6)[ctx.choose("n", 3)]
    A2 = 0
    cr = cz = 0
    for i in range(len(p)):
        a, b = p[i - 1], p[i]
        x = a[0] * b[1] - b[0] * a[1]
        A2 = A2 + x
        cr = cr + (a[0] + b[0]) * x
        cz = cz + (a[1] + b[1]) * x
    ctx.assume(absv(ctx, A2) >= 0.1)
    quad = ctx.fg.quadrature.polygon_quad(p, n=n)
    ctx.check("count", len(quad) == n * (len(p) - 2))
    s = 0
    ar = az = 0
    for r, z, w in quad:
        s = s + w
        ar, az = ar + w * r, az + w * z
        ctx.le("not_negative", 0, w)
    av = ctx.fg.quadrature.average
    if n == 6:
        ctx.near("total", s, 1, 1e-12)
        ctx.near("centroid_R", av(lambda r, z: r, quad) * 3 * A2, cr, 1e-10)
        ctx.near("centroid_Z", av(lambda r, z: z, quad) * 3 * A2, cz, 1e-10)
    else:
        ctx.equal("total", s, 1)
        ctx.equal("centroid_R", av(lambda r, z: r, quad) * 3 * A2, cr, scale=50.0 if not ctx.symbolic else None)
        ctx.equal("centroid_Z", av(lambda r, z: z, quad) * 3 * A2, cz, scale=50.0 if not ctx.symbolic else None)
