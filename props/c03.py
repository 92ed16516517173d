"""C03  Coil response: linear in current, sum over filaments."""
from .common import *

HARNESSES = H = Harnesses()
ENCODES = ["freegs.coil.Coil.{psi,Br,Bz,control*,createPsiGreens,calcPsiFromGreens}",
           "freegs.shaped_coil.ShapedCoil", "freegs.filament_coil.FilamentCoil", "freegs.multi_coil.MultiCoil",
           "freegs.machine.Solenoid", "freegs.pre_calc_coil.PreCalcCoil"]
BOUNDS = "one coil per class, arbitrary real geometry/current/turns in range; 3 filaments, 1/3/6 quadrature points per triangle, solenoids of 1-4 turns; observer scalar or (2,2) array"


def per_coil(kind):
    def fn(ctx):
        c, fil = build_coil(ctx, kind)
        R, Z = point(ctx)
        I = c.current
        for nm, ctl, tot in (("psi", "controlPsi", "psi"), ("br", "controlBr", "Br"), ("bz", "controlBz", "Bz")):
            ref = ref_sum(ctx, nm, fil, R, Z)
            sc = mag(ctx, ref_sum(ctx, "psi", [(r, z, abs(w)) for r, z, w in fil], R, Z)) if not ctx.symbolic else None
            feq(ctx, ctl, getattr(c, ctl)(R, Z), ref, sc)
            feq(ctx, tot, getattr(c, tot)(R, Z), ref * I, None if sc is None else sc * abs(I))
        pg = c.createPsiGreens(R, Z)
        ctx.equal("greens", c.calcPsiFromGreens(pg), c.psi(R, Z))
        ctx.equal("current_kept", c.current, I)
        # change the current afterwards: unit responses stay, totals follow
        J = ctx.real("J", -1e4, 1e4)
        b0 = (c.controlPsi(R, Z), c.controlBr(R, Z), c.controlBz(R, Z))
        c.current = J
        ctx.equal("unit_independent_of_current", (c.controlPsi(R, Z), c.controlBr(R, Z), c.controlBz(R, Z)), b0)
        ctx.equal("psi_follows_current", c.psi(R, Z), b0[0] * J)
        ctx.equal("greens_follow_current", c.calcPsiFromGreens(pg), b0[0] * J)
        ctx.equal("br_follows_current", c.Br(R, Z), b0[1] * J)
        ctx.equal("bz_follows_current", c.Bz(R, Z), b0[2] * J)
    fn.__doc__ = "psi, Br, Bz of a %s are current x turns x the mean filament field" % kind
    return fn


for _k in ["Coil", "ShapedCoil", "FilamentCoil", "MultiCoil", "MultiMirror", "Solenoid"]:
    H("coil_" + _k)(per_coil(_k))


def arrays(kind):
    def fn(ctx):
        c, fil = build_coil(ctx, kind)
        R = ctx.array("R", (2, 2), 0.2, 4)
        Z = ctx.array("Z", (2, 2), -4, 4)
        for nm in ("controlPsi", "controlBr", "controlBz", "psi", "Br", "Bz", "createPsiGreens"):
            f = getattr(c, nm)
            got = f(R, Z)
            ref = np.empty((2, 2), dtype=object)
            for i in np.ndindex(2, 2):
                ref[i] = f(R[i], Z[i])
            ctx.equal("elementwise_" + nm, got, ref if ctx.symbolic else ref.astype(float), rtol=1e-9,
                      scale=mag(ctx, c.psi(R, Z)))
    fn.__doc__ = "arrays of observation points are evaluated elementwise (%s)" % kind
    return fn


for _k in ["Coil", "FilamentCoil", "MultiMirror", "Solenoid"]:
    H("arrays_" + _k)(arrays(_k))


@H("multi_single_point")
def multi_single_point(ctx):
    """a MultiCoil at a single point carries current x turns, with its mirror image if asked"""
    m = ctx.fg.machine
    R0, Z0 = ctx.real("Rc", 0.1, 5), ctx.real("Zc", -5, 5)
    n, I = ctx.real("turns", 1, 100), ctx.real("I", -1e4, 1e4)
    mir = ctx.flag("mirror")
    pol = [ctx.real("p0", -1, 1), ctx.real("p1", -1, 1)]
    c = m.MultiCoil(R0, Z0, current=I, turns=n, mirror=mir, polarity=pol)
    R, Z = point(ctx)
    fil = [(R0, Z0, n * pol[0])] + ([(R0, -Z0, n * pol[1])] if mir else [])
    for nm, ctl, tot in (("psi", "controlPsi", "psi"), ("br", "controlBr", "Br"), ("bz", "controlBz", "Bz")):
        ref = ref_sum(ctx, nm, fil, R, Z)
        sc = mag(ctx, ref_greens(ctx, R0, Z0, R, Z) * n, ref_greens(ctx, R0, -Z0, R, Z) * n)
        feq(ctx, ctl, getattr(c, ctl)(R, Z), ref, sc)
        feq(ctx, tot, getattr(c, tot)(R, Z), ref * I, None if sc is None else sc * abs(I))


@H("solenoid_turns", bounds="1 to 4 turns (thorough: 1 to 9)")
def solenoid_turns(ctx):
    """a solenoid is Ns unit-current loops evenly spaced from Zsmin to Zsmax inclusive"""
    m = ctx.fg.machine
    N = 1 + ctx.choose("N", 9 if ctx.thorough else 4)
    Rs, z0, z1 = ctx.real("Rs", 0.05, 2), ctx.real("Zmin", -4, -0.1), ctx.real("Zmax", 0.1, 4)
    c = m.Solenoid(Rs, z0, z1, N)
    R, Z = point(ctx)
    fil = [(Rs, z0 + (z1 - z0) * q(ctx, i, max(1, N - 1)), 1) for i in range(N)]
    ctx.equal("controlPsi", c.controlPsi(R, Z), ref_sum(ctx, "psi", fil, R, Z))


@H("filament_single")
def filament_single(ctx):
    """a FilamentCoil given one filament as scalars, and one without an outline"""
    m = ctx.fg.machine
    n, I = ctx.real("turns", 1, 100), ctx.real("I", -1e4, 1e4)
    R, Z = point(ctx)
    r, z = ctx.real("Rf", 0.1, 5), ctx.real("Zf", -5, 5)
    c = m.FilamentCoil(Rfil=r, Zfil=z, shape=list(SQUARE), current=I, turns=n)
    ctx.equal("psi_scalar", c.psi(R, Z), ref_greens(ctx, r, z, R, Z) * n * I)


@H("shaped_polygons", bounds="three fixed outlines (square, triangle, clockwise square)")
def shaped_polygons(ctx):
    """the weights of the quadrature points of a ShapedCoil add up to one turn"""
    m = ctx.fg.machine
    shape = [SQUARE, TRI, SQUARE[::-1]][ctx.choose("shape", 3)]
    npts = (1, 3, 6)[ctx.choose("n", 3)]
    n, I = ctx.real("turns", 1, 100), ctx.real("I", -1e4, 1e4)
    c = m.ShapedCoil(list(shape), current=I, turns=n, npoints=npts)
    quad = ctx.fg.quadrature.polygon_quad(list(shape), n=npts)
    R, Z = point(ctx)
    ctx.equal("psi", c.psi(R, Z), ref_sum(ctx, "psi", [(a, b, w * n * I) for a, b, w in quad], R, Z))
    ctx.near("total_weight", sum(w for _, _, w in quad), exact(ctx, 1), 1e-9)


@H("precalc", bounds="5x5 maps with arbitrary entries on a fixed grid, every grid node and cell midpoint")
def precalc(ctx):
    """a PreCalcCoil returns its tabulated maps at the grid nodes, times current and turns"""
    m = ctx.fg.machine
    nr = nz = 5
    Rg = [1.0 + 0.25 * i for i in range(nr)]
    Zg = [-0.5 + 0.25 * i for i in range(nz)]
    RR, ZZ = np.meshgrid(np.array(Rg), np.array(Zg))   # [z, r] as exported by field codes
    if ctx.symbolic:
        from engine.shims import obj
        RR, ZZ = obj(RR), obj(ZZ)
    maps = {k: ctx.array(k, (nz, nr), -1, 1) for k in ("mPsi", "mBr", "mBz")}
    I, n = ctx.real("I", -1e4, 1e4), ctx.real("turns", 1, 100)
    c = m.PreCalcCoil(list(SQUARE), RR, ZZ, maps["mBr"], maps["mBz"], maps["mPsi"], current=I, turns=n)
    i, j = ctx.choose("i", nr), ctx.choose("j", nz)
    Ri, Zj = Rg[i], Zg[j]
    for k, ctl, tot in (("mPsi", "controlPsi", "psi"), ("mBr", "controlBr", "Br"), ("mBz", "controlBz", "Bz")):
        v = maps[k][j, i]
        ctx.equal(ctl, getattr(c, ctl)(Ri, Zj), v * n, rtol=1e-7, scale=n if not ctx.symbolic else None)
        ctx.equal(tot, getattr(c, tot)(Ri, Zj), v * n * I, rtol=1e-7, scale=None if ctx.symbolic else n * abs(I))
    ra = ctx.arr([Ri, Rg[0]])
    za = ctx.arr([Zj, Zg[0]])
    for k, ctl in (("mPsi", "controlPsi"), ("mBr", "controlBr"), ("mBz", "controlBz")):
        ctx.equal("array_" + ctl, getattr(c, ctl)(ra, za), ctx.arr([maps[k][j, i] * n, maps[k][0, 0] * n]), rtol=1e-7,
                  scale=n if not ctx.symbolic else None)
        ctx.equal("integer_" + ctl, getattr(c, ctl)(2, Zj), maps[k][j, 4] * n, rtol=1e-7, scale=n if not ctx.symbolic else None)
    ctx.near("centre_R", c.R, 1.0, 1e-9)
    ctx.near("centre_Z", c.Z, -1.1, 1e-9)
    ctx.near("area", c.area, 0.01, 1e-9)


@H("defaults", bounds="all coil kinds, arbitrary positions")
def defaults(ctx):
    """without options an element carries no current, has one turn, points one way and is controlled"""
    m = ctx.fg.machine
    R0, Z0, R1, Z1 = ctx.real("R0", 0.1, 5), ctx.real("Z0", -5, 5), ctx.real("R1", 0.1, 5), ctx.real("Z1", -5, 5)
    kind = ctx.choose("kind", 6)
    if kind == 0:
        c, fil = m.Coil(R0, Z0), [(R0, Z0, 1)]
    elif kind == 1:
        c = m.ShapedCoil(list(SQUARE))
        fil = list(ctx.fg.quadrature.polygon_quad(SQUARE, n=6))
    elif kind == 2:
        c, fil = m.FilamentCoil(Rfil=[R0, R1], Zfil=[Z0, Z1], shape=list(SQUARE)), [(R0, Z0, q(ctx, 1, 2)), (R1, Z1, q(ctx, 1, 2))]
    elif kind == 3:
        c, fil = m.MultiCoil([R0, R1], [Z0, Z1]), [(R0, Z0, 1), (R1, Z1, 1)]
    elif kind == 4:
        c, fil = m.Solenoid(R0, -1.0, 1.0, 2), [(R0, -1.0, 1), (R0, 1.0, 1)]
    else:
        a = m.Coil(R0, Z0, current=3.0)
        c, fil = m.Circuit([("a", a, 2.0)]), [(R0, Z0, 2)]
        ctx.equal("member", a.current, 0)
    ctx.equal("current", c.current, 0)
    ctx.check("control", bool(c.control) is True)
    if kind < 3:
        ctx.equal("turns", c.turns, 1)
    R, Z = point(ctx)
    feq(ctx, "response", c.controlPsi(R, Z), ref_sum(ctx, "psi", fil, R, Z),
        None if ctx.symbolic else sum(abs(w) * ref_greens(ctx, r, z, R, Z) for r, z, w in fil))
    c.current = 7.0
    ctx.equal("no_memory", m.Coil(R0, Z0).current, 0)
    ctx.check("mirrored", m.MirroredCoil(R0, 1.0).current == 0 and bool(m.MirroredCoil(R0, 1.0).control) is True)
