"""C18  Fitting coil currents to a target flux map."""
from .common import *

HARNESSES = H = Harnesses()
ENCODES = ["freegs.control.ConstrainPsi2D", "freegs.control.ConstrainPsiNorm2D", "freegs.control.ConstrainPsi2DAdvanced",
           "freegs.control.ConstrainPsiNorm2DAdvanced", "freegs.machine.Machine.controlCurrents/setControlCurrents"]
BOUNDS = "2x3 flux maps with arbitrary plasma flux, coil responses, targets and weights (scalar or map); 3 coils, every choice of controlled ones in the list; arbitrary currents and limits (either order in the pair)"
ASSUMPTIONS = ["the optimiser is replaced by one that evaluates its function anywhere and returns any point inside the bounds it was given",
               "axis and boundary flux are two arbitrary entries of the flux map they are updated from"]

NX, NY = 2, 3
MASKS = [(1, 0, 1), (1, 1, 1), (0, 1, 0), (1, 1, 0)]


class Map:
    """coil with an arbitrary response at every grid point"""

    def __init__(self, ctx, tag, current, control):
        self.current, self.control = current, control
        self.g = ctx.arr([[ctx.real("g_%s%d%d" % (tag, i, j), -2, 2) for j in range(NY)] for i in range(NX)])


class Eq:
    def __init__(self, ctx, m, cs):
        self.ctx, self.m, self.cs = ctx, m, cs
        self.plasma = ctx.arr([[ctx.real("plasma%d%d" % (i, j), -2, 2) for j in range(NY)] for i in range(NX)])
        self.psi_axis = self.psi_bndry = None
        self.is_limited = False

    def getMachine(self):
        return self.m

    @property
    def tokamak(self):
        return self.m

    def psi(self):
        p = self.plasma
        for c in self.cs:
            p = p + c.current * c.g
        return p

    def _updateBoundaryPsi(self, psi=None):
        psi = self.psi() if psi is None else psi
        self.psi_axis, self.psi_bndry = psi[1, 1], psi[0, 2]


def setup(ctx, wforms=3):
    mask = MASKS[ctx.choose("controlled", len(MASKS))]
    cs = [Map(ctx, "abc"[i], ctx.real("I%d" % i, -2, 2), bool(mask[i])) for i in range(3)]
    m = ctx.fg.machine.Machine([("P%d" % i, c) for i, c in enumerate(cs)])
    eq = Eq(ctx, m, cs)
    w = ctx.choose("weights", wforms) if wforms > 1 else 2
    weights = None
    W = [[exact(ctx, 1)] * NY for i in range(NX)]
    if w == 1:
        weights = ctx.real("weight", 0.25, 3)
        W = [[weights] * NY for i in range(NX)]
    elif w == 2:
        W = [[ctx.real("w%d%d" % (i, j), 0.25, 3) for j in range(NY)] for i in range(NX)]
        W[0][1] = exact(ctx, 0)
        weights = ctx.arr(W)
    t = ctx.arr([[ctx.real("t%d%d" % (i, j), -2, 2) for j in range(NY)] for i in range(NX)])
    return m, cs, [i for i in range(3) if mask[i]], eq, t, weights, W


def wavg(a, W):
    n, d = 0, 0
    for i in range(NX):
        for j in range(NY):
            n = n + W[i][j] * a[i, j]
            d = d + W[i][j]
    return n / d


def target(t, W, norm):
    if norm:
        return [t[i, j] for i in range(NX) for j in range(NY)]
    a = wavg(t, W)
    return [t[i, j] - a for i in range(NX) for j in range(NY)]


def achieved(ctx, eq, cs, ctl, I0, cur, W, norm):
    """(numerators, denominator) of the achieved map for the given controlled currents"""
    psi = eq.plasma
    for i, c in enumerate(cs):
        psi = psi + (cur[ctl.index(i)] if i in ctl else I0[i]) * c.g
    if norm:
        return [psi[i, j] - psi[1, 1] for i in range(NX) for j in range(NY)], psi[0, 2] - psi[1, 1]
    a = wavg(psi, W)
    return [psi[i, j] - a for i in range(NX) for j in range(NY)], 1


def fit(ctx, cls, advanced, norm):
    limited = bool(advanced and ctx.choose("limited", 2))
    m, cs, ctl, eq, t, weights, W = setup(ctx, 1 if limited else 3)
    kw = {} if weights is None else {"weights": weights}
    lims = None
    if limited:
        lims = []
        for n in range(len(ctl)):
            lo = ctx.real("lo%d" % n, -2, 1)
            hi = lo + ctx.real("range%d" % n, 0, 2)
            lims.append((lo, hi) if n != 1 else (hi, lo))
        kw["current_lims"] = lims
    t0 = t.copy()
    con = cls(t, **kw)
    for i in range(NX):
        for j in range(NY):
            ctx.equal("target_unchanged", t[i, j], t0[i, j])
    I0 = [c.current for c in cs]
    opt = Optimiser(ctx)
    eq._constraints = None

    def guard(cur):
        num, den = achieved(ctx, eq, cs, ctl, I0, cur, W, norm)
        if norm:
            ctx.assume(absv(ctx, den) >= 0.25)

    class O(Optimiser):
        def _point(self, n, kind):
            p = Optimiser._point(self, n, kind)
            guard(p)
            return p
    opt = O(ctx)
    with scipy_standin(ctx, minimize=opt.minimize, leastsq=opt.leastsq):
        con(eq)
    ctx.check("one_fit", len(opt.calls) == 1)
    if len(opt.calls) != 1:
        return
    rec = opt.calls[0]
    ctx.check("variables", len(rec["x"]) == len(ctl))
    for i, c in enumerate(cs):
        ctx.equal("applied", c.current, rec["x"][ctl.index(i)] if i in ctl else I0[i])
    ctx.check("recorded", eq._constraints is con)
    # start
    for n, i in enumerate(ctl):
        s = rec["x0"][n]
        if lims is None:
            ctx.equal("start", s, I0[i])
        else:
            lo, hi = lims[n] if n != 1 else lims[n][::-1]
            ctx.equal("start_limited", s, clip_ref(ctx, I0[i], lo, hi))
    # bounds
    if lims is not None:
        ctx.check("bounds_given", len(rec["lims"]) == len(ctl))
        for n in range(len(ctl)):
            lo, hi = lims[n] if n != 1 else lims[n][::-1]
            ctx.equal("lower", rec["lims"][n][0], lo)
            ctx.equal("upper", rec["lims"][n][1], hi)
    elif advanced:
        ctx.check("no_bounds", all(l is None and h is None for l, h in rec["lims"]))
    # objective
    num, den = achieved(ctx, eq, cs, ctl, I0, rec["trial"], W, norm)
    tt = target(t0, W, norm)
    ws = [w for r in W for w in r]
    diff = [(a / den - b) * w for a, b, w in zip(num, tt, ws)]
    if advanced:
        ctx.equal("minimised", rec["value"], sum((d * d for d in diff), 0), rtol=1e-6, scale=mag(ctx, 1e-6, *[d * d for d in diff]) if not ctx.symbolic else None)
    else:
        v = rec["value"]
        ctx.check("residual_count", len(v) == NX * NY)
        # order of the residuals is irrelevant; compare in the array's own order
        for a, b in zip(v, diff):
            ctx.equal("residual", a, b, scale=4.0 if not ctx.symbolic else None)


def clip_ref(ctx, v, lo, hi):
    if v < lo:
        return lo
    if v > hi:
        return hi
    return v


@H("psi", bounds="2x3 map, 1..3 controls, all weight forms", budget=200)
def psi(ctx):
    """ConstrainPsi2D: least squares fit of weighted differences from the target, both without their weighted average"""
    fit(ctx, ctx.fg.control.ConstrainPsi2D, False, False)


@H("psinorm", bounds="2x3 map, 1..3 controls, all weight forms", budget=200)
def psinorm(ctx):
    """ConstrainPsiNorm2D: least squares fit of weighted differences of normalised flux, with axis and boundary of the same currents"""
    fit(ctx, ctx.fg.control.ConstrainPsiNorm2D, False, True)


@H("psi_advanced", bounds="2x3 map, 1..3 controls, all weight forms, with or without limits", budget=300)
def psi_advanced(ctx):
    """ConstrainPsi2DAdvanced: sum of squares of the same differences, within the current limits, started inside them"""
    fit(ctx, ctx.fg.control.ConstrainPsi2DAdvanced, True, False)


@H("psinorm_advanced", bounds="2x3 map, 1..3 controls, all weight forms, with or without limits", budget=300)
def psinorm_advanced(ctx):
    """ConstrainPsiNorm2DAdvanced: as psi_advanced for normalised flux"""
    fit(ctx, ctx.fg.control.ConstrainPsiNorm2DAdvanced, True, True)


@H("total_limit", bounds="2x3 map, 1..3 controls")
def total_limit(ctx):
    """ConstrainPsi2DAdvanced: the total absolute controlled current stays within max_total_current"""
    m, cs, ctl, eq, t, weights, W = setup(ctx)
    tot = ctx.real("total", 0.5, 4)
    con = ctx.fg.control.ConstrainPsi2DAdvanced(t, max_total_current=tot)
    opt = Optimiser(ctx)
    with scipy_standin(ctx, minimize=opt.minimize, leastsq=opt.leastsq):
        con(eq)
    s = 0
    for i in ctl:
        s = s + absv(ctx, cs[i].current)
    ctx.le("total", s, tot)
