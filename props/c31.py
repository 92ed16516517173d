"""C31  Field line tracing."""
import sys

from .common import *

HARNESSES = H = Harnesses()
ENCODES = ["freegs.fieldtracer.{FieldTracer,LineCoordinates,traceFieldLines}"]
BOUNDS = "1-4 field lines (scalar, 1-D and 2-D starts), arbitrary field components, positions and domain; convex and concave walls of 4-6 points with arbitrary position of the point"
ASSUMPTIONS = ["scipy's ODE integrator replaced by a recorder that may evaluate the right-hand side anywhere", "the line to the middle of the domain is not exactly parallel to a side of the wall",
               "the middle of the domain is inside the wall"]


class FieldEq:
    """equilibrium with arbitrary field values at each evaluation point"""

    def __init__(self, ctx, n, wall=None, dom=None, sign=1):
        self.ctx = ctx
        self.b = [(ctx.real("br%d" % k, -2, 2), ctx.real("bz%d" % k, -2, 2), sign * ctx.real("bt%d" % k, 0.5, 2)) for k in range(n)]
        self.Rmin, self.Rmax, self.Zmin, self.Zmax = dom or [exact(ctx, v) for v in (0.5, 2.5, -1.0, 1.0)]

        class T:
            pass
        self.tokamak = T()
        self.tokamak.wall = wall
        self.points = []

    def _f(self, R, Z, k):
        R, Z = np.ravel(R), np.ravel(Z)
        self.points.append((list(R), list(Z)))
        return self.ctx.arr([self.b[i][k] for i in range(len(R))])

    def Br(self, R, Z):
        return self._f(R, Z, 0)

    def Bz(self, R, Z):
        return self._f(R, Z, 1)

    def Btor(self, R, Z):
        return self._f(R, Z, 2)


@H("direction", bounds="2 lines with any position and field of either toroidal direction, forward and backward")
def direction(ctx):
    """per unit toroidal angle a line moves by R B/Btor (reversed if backward) and its length grows; lines that have left stay where they are"""
    sign = (1, -1)[ctx.choose("sign", 2)]
    n = 2
    eq = FieldEq(ctx, n, sign=sign)
    ft = ctx.fg.fieldtracer.FieldTracer(eq)
    back = bool(ctx.choose("backward", 2))
    P = [(ctx.real("R%d" % k, 0.6, 2.4), ctx.real("Z%d" % k, -0.9, 0.9), ctx.real("L%d" % k, 0, 10)) for k in range(n)]
    stopped = ctx.choose("stopped", 2)
    ev = ctx.arr([1.0, 0.0 if stopped else 1.0])
    out = ft.fieldDirection(ctx.arr([v for p in P for v in p]), exact(ctx, 0.5), ev, back)
    ctx.check("shape", np.shape(out) == (3 * n,))
    ctx.check("evaluated_at_the_lines", all(list(r) == [p[0] for p in P] and list(z) == [p[1] for p in P] for r, z in eq.points) if not ctx.symbolic else True)
    for r, z in eq.points:
        for k in range(n):
            ctx.equal("evaluated_at", r[k], P[k][0])
            ctx.equal("evaluated_at", z[k], P[k][1])
    for k in range(n):
        br, bz, bt = eq.b[k]
        e = 0 if (k == 1 and stopped) else 1
        f = (-1 if back else 1) * e
        sc = dict(scale=20.0) if not ctx.symbolic else {}
        ctx.equal("dR", out[3 * k] * bt, f * P[k][0] * br, **sc)
        ctx.equal("dZ", out[3 * k + 1] * bt, f * P[k][0] * bz, **sc)
        B2 = br * br + bz * bz + bt * bt
        ctx.equal("dl", out[3 * k + 2] ** 2 * bt ** 2, e * P[k][0] ** 2 * B2, scale=100.0 if not ctx.symbolic else None)
        ctx.check("length_grows", out[3 * k + 2] >= 0)
    ctx.check("still_evolving", float(ev[0]) == 1.0 and float(ev[1]) == (0.0 if stopped else 1.0) if not ctx.symbolic else True)


@H("domain_edge", bounds="any domain, any position of two lines, without a wall")
def domain_edge(ctx):
    """without a wall, exactly the lines within 1 cm of the edge or outside the domain are stopped, for good"""
    dom = ctx.real("Rmin", 0.25, 1), ctx.real("Rmax", 1.5, 3), ctx.real("Zmin", -2, -0.5), ctx.real("Zmax", 0.5, 2)
    eq = FieldEq(ctx, 2, dom=dom)
    ft = ctx.fg.fieldtracer.FieldTracer(eq)
    R, Z = ctx.real("R", 0.125, 4), ctx.real("Z", -3, 3)
    R2, Z2 = exact(ctx, 1.25), exact(ctx, 0)
    ev = ctx.arr([1.0, 1.0])
    out = ft.fieldDirection(ctx.arr([R2, Z2, exact(ctx, 0), R, Z, exact(ctx, 0)]), exact(ctx, 0), ev, False)
    eps = q(ctx, 1, 100)
    inside = S.b_and(R >= dom[0] + eps, R <= dom[1] - eps, Z >= dom[2] + eps, Z <= dom[3] - eps)
    bt = eq.b[1][2]
    moved = bool(out[5] != 0)
    ctx.check("stopped_iff_outside", moved == bool(inside))
    ctx.equal("other_line_moves", out[0] * eq.b[0][2], R2 * eq.b[0][0], scale=10.0 if not ctx.symbolic else None)
    again = ft.fieldDirection(ctx.arr([R2, Z2, exact(ctx, 0), exact(ctx, 1.25), exact(ctx, 0), exact(ctx, 0)]), exact(ctx, 0), ev, False)
    ctx.check("stays_stopped", bool(again[5] != 0) == moved)
    if not moved:
        for k in (3, 4, 5):
            ctx.equal("does_not_move", out[k], 0)
            ctx.equal("does_not_move", again[k], 0)


WALLS = {
    "box": ([0.75, 2.25, 2.25, 0.75], [-0.75, -0.75, 0.75, 0.75], [(0.75, 2.25, -0.75, 0.75)]),
    "box_other_way": ([0.75, 0.75, 2.25, 2.25], [-0.75, 0.75, 0.75, -0.75], [(0.75, 2.25, -0.75, 0.75)]),
    "L": ([0.75, 2.25, 2.25, 1.75, 1.75, 0.75], [-0.75, -0.75, 0.25, 0.25, 0.75, 0.75], [(0.75, 2.25, -0.75, 0.25), (0.75, 1.75, -0.75, 0.75)]),
    "notch": ([0.75, 2.25, 2.25, 2.0, 2.0, 2.25, 2.25, 0.75], [-0.75, -0.75, 0.25, 0.25, 0.5, 0.5, 0.75, 0.75],
              [(0.75, 2.25, -0.75, 0.25), (0.75, 2.0, -0.75, 0.75), (0.75, 2.25, 0.5, 0.75)]),
}


@H("wall", bounds="box (either orientation), L-shaped and notched walls, any position of the point, also behind corners", budget=400)
def wall(ctx):
    """with a wall, exactly the lines outside it are stopped"""
    names = list(WALLS)
    Rw, Zw, boxes = WALLS[names[ctx.choose("wall", len(names))]]
    eq = FieldEq(ctx, 2, wall=ctx.fg.machine.Wall([exact(ctx, v) for v in Rw], [exact(ctx, v) for v in Zw]))
    ft = ctx.fg.fieldtracer.FieldTracer(eq)
    R, Z = ctx.real("R", 0.5625, 2.4375), ctx.real("Z", -1.5, 1.5)
    way = ctx.choose("ray", 2)
    # rays through corners, which a random position never hits
    if way == 1:
        t = ctx.real("t", 0, 2)
        k = ctx.choose("corner", len(Rw))
        R, Z = 1.5 + t * (Rw[k] - 1.5), t * exact(ctx, Zw[k])
    m = q(ctx, 1, 10 ** 6)
    inside = S.b_or(*[S.b_and(R > b[0], R < b[1], Z > b[2], Z < b[3]) for b in boxes])
    # exactly on (or within 1 micrometre of) the wall either answer is right
    for k in range(len(Rw)):
        k2 = (k + 1) % len(Rw)
        r0, r1, z0, z1 = min(Rw[k], Rw[k2]), max(Rw[k], Rw[k2]), min(Zw[k], Zw[k2]), max(Zw[k], Zw[k2])
        ctx.assume(S.b_or(R < r0 - m, R > r1 + m, Z < z0 - m, Z > z1 + m))
    if len(boxes) == 2 or len(boxes) == 3:
        # the seams between the boxes are inside
        inside = S.b_or(*[S.b_and(R >= b[0], R <= b[1], Z >= b[2], Z <= b[3]) for b in boxes])
    ev = ctx.arr([1.0, 1.0])
    out = ft.fieldDirection(ctx.arr([exact(ctx, 1.5625), exact(ctx, 0.03125), exact(ctx, 0), R, Z, exact(ctx, 0)]), exact(ctx, 0), ev, False)
    moved = bool(out[5] != 0)
    ctx.check("stopped_iff_outside", moved == bool(inside))
    ctx.equal("other_line_moves", out[0] * eq.b[0][2], q(ctx, 25, 16) * eq.b[0][0], scale=10.0 if not ctx.symbolic else None)


@contextlib.contextmanager
def ode(ctx, f):
    import scipy.integrate as si
    undo = []
    orig = ctx.fg.fieldtracer.__dict__.get("odeint")
    cands = [si.odeint] + ([orig] if orig is not None else [])
    for m in [m for k, m in list(sys.modules.items()) if k.startswith("freegs.") and m is not None]:
        for k, v in list(vars(m).items()):
            if any(v is c or (getattr(v, "__func__", None) is not None and getattr(v, "__func__", None) is getattr(c, "__func__", 0)) for c in cands):
                undo.append((m, k, v))
                setattr(m, k, f)
    try:
        yield
    finally:
        for m, k, v in undo:
            setattr(m, k, v)


@H("follow", bounds="scalar, 1-D and 2-D start positions, 3 angles, forward and backward")
def follow(ctx):
    """lines start where asked with zero length, keep their order, and are integrated in the field direction to the angles asked for"""
    shape = [(), (1,), (2,), (2, 2), (1, 3)][ctx.choose("shape", 5)]
    n = int(np.prod(shape)) if shape else 1
    eq = FieldEq(ctx, n)
    ft = ctx.fg.fieldtracer.FieldTracer(eq)
    R = [ctx.real("R%d" % k, 0.6, 2.4) for k in range(n)]
    Z = [ctx.real("Z%d" % k, -0.9, 0.9) for k in range(n)]
    back = bool(ctx.choose("backward", 2))
    ang = ctx.arr([0.0, 1.0, 2.0])
    calls = []

    def integrate(func, y0, t, args=(), rtol=None, **k):
        y0 = np.array(list(np.ravel(y0)), dtype=object if ctx.symbolic else float)
        d = func(y0.copy(), t[0], *args)
        calls.append((list(y0), list(t), list(d), rtol))
        return ctx.arr([[y0[j] + i * d[j] for j in range(len(y0))] for i in range(len(t))])

    def shaped(v):
        a = ctx.arr(v)
        return a.reshape(shape) if shape else v[0]
    with ode(ctx, integrate):
        out = ft.follow(shaped(R), shaped(Z), ang, rtol=1e-5, backward=back)
    ctx.check("integrated", len(calls) == 1 and [float(v) for v in calls[0][1]] == [0.0, 1.0, 2.0] and calls[0][3] == 1e-5)
    ctx.check("shape", out.shape == (3,) + shape + (3,))
    flat = out.reshape((3, n, 3))
    sc = dict(scale=100.0) if not ctx.symbolic else {}
    for k in range(n):
        br, bz, bt = eq.b[k]
        f = -1 if back else 1
        for i in range(3):
            ctx.equal("R", (flat[i, k, 0] - R[k]) * bt, i * f * R[k] * br, **sc)
            ctx.equal("Z", (flat[i, k, 1] - Z[k]) * bt, i * f * R[k] * bz, **sc)
        ctx.equal("length", flat[0, k, 2], 0)
        ctx.equal("length", flat[2, k, 2] ** 2 * bt ** 2, 4 * R[k] ** 2 * (br * br + bz * bz + bt * bt), scale=1e3 if not ctx.symbolic else None)


@H("trace", bounds="any axis, boundary flux and edge position, any width, 3 lines, 4 points, 2 turns")
def trace(ctx):
    """lines start on the outboard midplane at equal distances up to the width outside the boundary, and are followed both ways for the turns asked for"""
    nl, npt = 3, 4
    o = [(ctx.real("Ro", 1.25, 1.75), ctx.real("Zo", -0.25, 0.25), ctx.real("psi_axis", 1, 2))]
    pb = ctx.real("psi_bndry", -1, 0.5)
    rm, zm = ctx.real("rmid", 1.8, 2.2), ctx.real("zmid", -0.25, 0.25)
    width = ctx.real("width", 0.01, 0.1)
    P = ctx.arr([[exact(ctx, 0.125 * (i - 2 * j) + 0.0625 * i * j) for j in range(5)] for i in range(5)])

    class E:
        pass
    eq = E()
    eq.R, eq.Z = np.meshgrid(np.linspace(0.5, 2.5, 5), np.linspace(-1, 1, 5), indexing="ij")
    eq.psi = lambda: P
    eq.psi_bndry, eq.psi_axis = pb, o[0][2]
    eq.Rmin, eq.Rmax, eq.Zmin, eq.Zmax = 0.5, 2.5, -1.0, 1.0

    class T:
        wall = None
    eq.tokamak = T()
    seen, runs = [], []

    def surf(e, psifunc, r0, z0, r1, z1, psival=1.0, n=100, axis=None):
        seen.append((e, psifunc(eq.R[1, 2], eq.Z[1, 2], grid=False) if True else None, r0, z0, r1, z1, psival))
        return rm, zm

    def fol(self, Rstart, Zstart, angles, rtol=None, backward=False):
        runs.append((list(Rstart), list(Zstart), list(angles), backward))
        k = len(runs)
        return ctx.arr([[[exact(ctx, 1000 * k + 100 * i + 10 * j + c) for c in range(3)] for j in range(len(Rstart))] for i in range(len(angles))])
    F = ctx.fg.fieldtracer.FieldTracer
    orig = F.follow
    F.follow = fol
    try:
        with stubs(ctx, critical__find_critical=fixed_critical(o, []), critical__find_psisurface=surf):
            fw, bw = ctx.fg.fieldtracer.traceFieldLines(eq, solwidth=width, nlines=nl, nturns=2, npoints=npt)
    finally:
        F.follow = orig
    ctx.check("one_search", len(seen) == 1 and len(runs) == 2)
    e, v, r0, z0, r1, z1, pv = seen[0]
    ctx.near("normalised_flux", v * (pb - o[0][2]), P[1, 2] - o[0][2], 1e-9)
    ctx.equal("from_axis", r0, o[0][0])
    ctx.equal("from_axis", z0, o[0][1])
    ctx.equal("midplane", z1, o[0][1])
    ctx.check("outboard", S.b_and(r1 > 2.5, pv == 1.0))
    for Rs, Zs, ang, back in runs:
        ctx.check("lines", len(Rs) == nl and len(Zs) == nl and len(ang) == npt)
        for k in range(nl):
            ctx.near("start_R", Rs[k], rm + width * (k + 1) / nl, 1e-9)
            ctx.equal("start_Z", Zs[k], zm)
        for i in range(npt):
            ctx.near("angles", ang[i], i * 2 * ctx.pi * 2 / (npt - 1), 1e-9)
    ctx.check("both_ways", sorted(bool(b) for _, _, _, b in runs) == [False, True])
    kf = [1 + i for i, r in enumerate(runs) if not r[3]][0]
    for name, res, k in (("forward", fw, kf), ("backward", bw, 3 - kf)):
        for c, a in enumerate((res.R, res.Z, res.length)):
            ctx.check(name, a.shape == (npt, nl) and all(float(a[i, j]) == 1000 * k + 100 * i + 10 * j + c for i in range(npt) for j in range(nl)))
