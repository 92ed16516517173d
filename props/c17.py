"""C17  constrain: coil current control."""
from .common import *

HARNESSES = H = Harnesses()
ENCODES = ["freegs.control.constrain.__call__", "freegs.machine.Machine.control*"]
BOUNDS = "machines of 3 coils with arbitrary responses, every choice of controlled coils; 0..1 X-points, 0..2 isoflux pairs, 0..1 flux values; arbitrary currents, limits, gamma"
ASSUMPTIONS = ["SLSQP is replaced by an optimiser that evaluates the objective anywhere and returns any point inside the bounds and constraints it was given"]


class Eq:
    def __init__(self, ctx, mach):
        self.m = mach
        self.c = {k: ctx.reals("plasma_" + k, 3, -2, 2) for k in ("psi", "br", "bz")}

    def _p(self, k, R, Z):
        c = self.c[k]
        return c[0] + c[1] * R + c[2] * Z

    def getMachine(self):
        return self.m

    @property
    def tokamak(self):
        return self.m

    def Br(self, R, Z):
        return self._p("br", R, Z) + self.m.Br(R, Z)

    def Bz(self, R, Z):
        return self._p("bz", R, Z) + self.m.Bz(R, Z)

    def psiRZ(self, R, Z):
        return self._p("psi", R, Z) + self.m.psi(R, Z)


MASKS = [(1, 0, 1), (1, 1, 1), (0, 1, 0), (1, 1, 0)]


def machine(ctx, masks=MASKS):
    mask = masks[ctx.choose("controlled", len(masks))]
    cs = [LinCoil(ctx, "abc"[i], ctx.real("I%d" % i, -2, 2), control=bool(mask[i])) for i in range(3)]
    m = ctx.fg.machine.Machine([("P%d" % i, c) for i, c in enumerate(cs)])
    return m, cs, [i for i in range(3) if mask[i]]


def pos(ctx, tag):
    return ctx.real("r_" + tag, 0.5, 2), ctx.real("z_" + tag, -1, 1)


def constraints(ctx):
    k = ctx.choose("constraints", 4)
    x = [pos(ctx, "x")] if k in (0, 3) else []
    iso = [pos(ctx, "i") + pos(ctx, "j")] if k in (1, 3) else []
    if k == 1:
        iso = iso + [pos(ctx, "i") + pos(ctx, "k")]
    pv = [pos(ctx, "p") + (ctx.real("target", -2, 2),)] if k in (2, 3) else []
    return x, iso, pv


def residuals(eq, x, iso, pv):
    out = []
    for r, z in x:
        out += [eq.Br(r, z), eq.Bz(r, z)]
    for r1, z1, r2, z2 in iso:
        out.append(eq.psiRZ(r1, z1) - eq.psiRZ(r2, z2))
    for r, z, t in pv:
        out.append(eq.psiRZ(r, z) - t)
    return out


@H("objective", bounds="X-point, two isoflux pairs, flux value, or all; 1..3 controls; arbitrary gamma", budget=240)
def objective(ctx):
    """what is minimised is the sum of squares of the fields at X-points, the isoflux differences and flux errors after the change, plus gamma^2 times the squared change; the change is applied to the controlled coils only"""
    m, cs, ctl = machine(ctx)
    eq = Eq(ctx, m)
    x, iso, pv = constraints(ctx)
    gam = ctx.real("gamma", 0.01, 1)
    con = ctx.fg.control.constrain(xpoints=x, isoflux=iso, psivals=pv, gamma=gam)
    I0 = [c.current for c in cs]
    opt = Optimiser(ctx)
    if ctx.symbolic:
        # the analytic first guess is decided by the harness first_guess
        with scipy_standin(ctx, minimize=opt.minimize), _noinv(ctx):
            con(eq)
    else:
        with scipy_standin(ctx, minimize=opt.minimize):
            con(eq)
    ctx.check("one_fit", len(opt.calls) == 1)
    if len(opt.calls) != 1:
        return
    rec = opt.calls[0]
    for i, c in enumerate(cs):
        d = rec["x"][ctl.index(i)] if i in ctl else 0
        ctx.equal("applied", c.current, I0[i] + d)
    ctx.check("no_limits", all(l is None and h is None for l, h in rec["lims"]))
    for i, c in enumerate(cs):
        c.current = I0[i] + (rec["trial"][ctl.index(i)] if i in ctl else 0)
    ref = 0
    for r in residuals(eq, x, iso, pv):
        ref = ref + r * r
    for d in rec["trial"]:
        ref = ref + gam * gam * d * d
    ctx.equal("minimised", rec["value"], ref, rtol=1e-6)
    for n in range(len(ctl)):
        ctx.equal("current_change", con.current_change[n], rec["x"][n])
    ctx.check("recorded", eq._constraints is con)


class _noinv:
    """the matrix inverse is not needed symbolically here: replace it by zeros"""

    def __init__(self, ctx):
        self.ctx = ctx

    def __enter__(self):
        m = self.ctx.fg.control
        self.old = m.__dict__.get("inv")
        if self.old is not None:
            m.inv = lambda a: a * 0

    def __exit__(self, *a):
        if self.old is not None:
            self.ctx.fg.control.inv = self.old


@H("first_guess", bounds="1..2 controls, X-point or two isoflux pairs or flux value, unit-free arbitrary responses", budget=240)
def first_guess(ctx):
    """the starting point of the fit is the Tikhonov solution: (A^T A + gamma^2) x = A^T b"""
    mask = [(1, 0, 0), (0, 1, 1)][ctx.choose("controlled", 2)]
    cs = []
    for i in range(3):
        c = LinCoil(ctx, "abc"[i], exact(ctx, 0), control=bool(mask[i]))
        for k in c.g:  # constant responses at the two positions used
            c.g[k] = [ctx.real("%s%d" % (k, i), -2, 2) if k != "psi" else ctx.real("psi%d" % i, -2, 2), exact(ctx, 0), exact(ctx, (i + 1) / 4)]
        cs.append(c)
    m = ctx.fg.machine.Machine([("P%d" % i, c) for i, c in enumerate(cs)])
    ctl = [i for i in range(3) if mask[i]]
    eq = Eq(ctx, m)
    for k in eq.c:
        eq.c[k] = [ctx.real("plasma_" + k, -2, 2), exact(ctx, 0), exact(ctx, 0.5)]
    kind = ctx.choose("kind", 2)
    x, iso, pv = [], [], []
    if kind == 0:
        x = [(exact(ctx, 1), exact(ctx, 0.5))]
    else:
        pv = [(exact(ctx, 1), exact(ctx, -0.5), ctx.real("target", -2, 2))]
    gam = exact(ctx, 0.5)
    con = ctx.fg.control.constrain(xpoints=x, isoflux=iso, psivals=pv, gamma=gam)
    opt = Optimiser(ctx)
    with scipy_standin(ctx, minimize=opt.minimize):
        con(eq)
    x0 = opt.calls[0]["x0"]
    # stationarity of the objective at x0
    def at(d):
        for n, i in enumerate(ctl):
            cs[i].current = d[n]
        return residuals(eq, x, iso, pv)
    base = at([exact(ctx, 0)] * len(ctl))
    cols = []
    for n in range(len(ctl)):
        d = [exact(ctx, 0)] * len(ctl)
        d[n] = exact(ctx, 1)
        cols.append([u - v for u, v in zip(at(d), base)])
    res = [b + sum(cols[n][k] * x0[n] for n in range(len(ctl))) for k, b in enumerate(base)]
    for n in range(len(ctl)):
        ctx.equal("stationary", sum(c * r for c, r in zip(cols[n], res)) + gam * gam * x0[n], exact(ctx, 0), scale=None if ctx.symbolic else 4.0)


@H("limits", bounds="3 coils, limits on all, arbitrary currents (also outside the limits), optional total", budget=200)
def limits(ctx):
    """the resulting current of every controlled coil is within its own limits, the total absolute controlled current within the maximum"""
    m, cs, ctl = machine(ctx)
    eq = Eq(ctx, m)
    pv = [(exact(ctx, 1), exact(ctx, 0), ctx.real("target", -2, 2))]
    lims = []
    for i in range(3):
        lo = ctx.real("lo%d" % i, -2, 0)
        lims.append((lo, lo + ctx.real("range%d" % i, 0, 3)))
    use_lim, use_tot = ((True, False), (False, True), (True, True))[ctx.choose("which", 3)]
    tot = ctx.real("total", 0.5, 4)
    con = ctx.fg.control.constrain(psivals=pv, gamma=exact(ctx, 0.5), current_lims=lims if use_lim else None, max_total_current=tot if use_tot else None)
    I0 = [c.current for c in cs]
    opt = Optimiser(ctx, -8, 8)
    with scipy_standin(ctx, minimize=opt.minimize), _noinv(ctx) if ctx.symbolic else contextlib.nullcontext():
        con(eq)
    rec = opt.calls[0]
    for n, i in enumerate(ctl):
        ctx.equal("applied", cs[i].current, I0[i] + rec["x"][n])
        if use_lim:
            ctx.le("upper", cs[i].current, lims[i][1])
            ctx.le("lower", lims[i][0], cs[i].current)
            # nothing allowed is forbidden
            lo, hi = rec["lims"][n]
            ctx.equal("lower_exact", lo + I0[i], lims[i][0])
            ctx.equal("upper_exact", hi + I0[i], lims[i][1])
    for i in range(3):
        if i not in ctl:
            ctx.equal("uncontrolled", cs[i].current, I0[i])
    if use_tot:
        s = 0
        for i in ctl:
            s = s + absv(ctx, cs[i].current)
        ctx.le("total", s, tot)
    if use_tot:
        for i, c in enumerate(cs):
            c.current = I0[i]
        con_list = rec["constraints"]
        ctx.check("one_total_constraint", len(con_list) == 1)
        x = ctx.arr([ctx.real("probe%d" % n, -8, 8) for n in range(len(ctl))])
        v = con_list[0]["fun"](x)
        s = 0
        for n, i in enumerate(ctl):
            s = s + absv(ctx, I0[i] + x[n])
        if ctx.symbolic or abs(s - tot) > 1e-9:
            ctx.check("total_exact", bool(v >= 0) == bool(s <= tot))


@H("refusals", bounds="0 constraints; 0..4 limits for 3 coils")
def refusals(ctx):
    """no constraints, or limits for the wrong number of coils, are refused and leave the currents alone"""
    m, cs, ctl = machine(ctx)
    eq = Eq(ctx, m)
    I0 = [c.current for c in cs]
    C = ctx.fg.control.constrain
    ctx.raises("nothing", ValueError, lambda: C()(eq))
    n = (1, 2, 4)[ctx.choose("n", 3)]
    con = C(psivals=[(1.0, 0.0, ctx.real("target", -2, 2))], gamma=exact(ctx, 0.5), current_lims=[(-1.0, 1.0)] * n)
    with _noinv(ctx) if ctx.symbolic else contextlib.nullcontext():
        ctx.raises("limits", AssertionError, lambda: con(eq))
    for i, c in enumerate(cs):
        ctx.equal("currents_unchanged", c.current, I0[i])


@H("no_controls", bounds="3 uncontrolled coils")
def no_controls(ctx):
    """constraints are kept separate between instances, and the lists given are not modified"""
    C = ctx.fg.control.constrain
    x = [(1.0, 0.5)]
    a = C(xpoints=x)
    b = C()
    ctx.check("separate", list(b.xpoints) == [] and list(b.isoflux) == [] and list(b.psivals) == [] and list(a.isoflux) == [])
    m, cs, ctl = machine(ctx)
    eq = Eq(ctx, m)
    opt = Optimiser(ctx)
    pv = [(exact(ctx, 1), exact(ctx, 0), ctx.real("target", -2, 2))]
    con = C(psivals=pv, gamma=exact(ctx, 0.5))
    with scipy_standin(ctx, minimize=opt.minimize), _noinv(ctx) if ctx.symbolic else contextlib.nullcontext():
        con(eq)
        I1 = [c.current for c in cs]
        con(eq)
    ctx.check("lists_unchanged", len(pv) == 1 and len(pv[0]) == 3)
    ctx.check("two_fits", len(opt.calls) == 2)
    for n, i in enumerate(ctl):
        ctx.equal("second_from_first", cs[i].current, I1[i] + opt.calls[1]["x"][n])
