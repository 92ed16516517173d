"""C07  Moving a coil."""
from .common import *

HARNESSES = H = Harnesses()
ENCODES = ["freegs.coil.Coil", "freegs.shaped_coil.ShapedCoil.{R,Z}", "freegs.filament_coil.FilamentCoil.{R,Z}",
           "freegs.multi_coil.MultiCoil.{R,Z}", "freegs.pre_calc_coil.PreCalcCoil.{R,Z}"]
BOUNDS = "every coil class with an R,Z position; histories of up to 3 moves by arbitrary amounts (R kept positive), in either order"


def shifted(fil, dR, dZ, mirror=False):
    return [(r + dR, z + dZ, w) for r, z, w in fil]


def mover(kind):
    def fn(ctx):
        c, fil = build_coil(ctx, kind)
        I, n = c.current, c.turns
        R0, Z0 = c.R, c.Z
        dR, dZ = ctx.real("dR", 0, 2), ctx.real("dZ", -2, 2)
        order = ctx.choose("order", 3)
        if order != 1:
            c.R = R0 + dR
        if order != 2:
            c.Z = Z0 + dZ
        sR, sZ = (0 if order == 1 else dR), (0 if order == 2 else dZ)
        ctx.equal("position_R", c.R, R0 + sR)
        ctx.equal("position_Z", c.Z, Z0 + sZ)
        if kind == "MultiMirror":
            k = len(fil) // 2
            new = shifted(fil[:k], sR, sZ) + [(r + sR, z - sZ, w) for r, z, w in fil[k:]]
        else:
            new = shifted(fil, sR, sZ)
        R, Z = point(ctx)
        for kind2, ctl in (("psi", "controlPsi"), ("br", "controlBr"), ("bz", "controlBz")):
            sc = mag(ctx, *[w * ref_greens(ctx, r, z, R, Z) for r, z, w in new]) if not ctx.symbolic else None
            feq(ctx, ctl, getattr(c, ctl)(R, Z), ref_sum(ctx, kind2, new, R, Z), sc)
        ctx.equal("current_kept", c.current, I)
        ctx.equal("turns_kept", c.turns, n)
        # a second, relative move and then back to the start
        c.R += dZ * 0 + dR
        c.Z += dZ
        ctx.equal("second_R", c.R, R0 + sR + dR)
        c.Z = Z0
        c.R = R0
        ctx.equal("there_and_back", c.controlPsi(R, Z), ref_sum(ctx, "psi", fil, R, Z),
                  scale=mag(ctx, *[w * ref_greens(ctx, r, z, R, Z) for r, z, w in fil]) if not ctx.symbolic else None)
    fn.__doc__ = "setting R or Z of a %s translates its current rigidly" % kind
    return fn


for _k in ["Coil", "ShapedCoil", "FilamentCoil", "MultiCoil", "MultiMirror"]:
    H("move_" + _k)(mover(_k))


@H("outline", bounds="ShapedCoil and FilamentCoil with a square outline, any displacement")
def outline(ctx):
    """the outline of an extended coil moves with it and its area stays"""
    m = ctx.fg.machine
    if ctx.flag("filament"):
        c = m.FilamentCoil(Rfil=[1.0, 1.02], Zfil=[-1.1, -1.12], shape=xshape(ctx, SQUARE))
    else:
        c = m.ShapedCoil(xshape(ctx, SQUARE))
    A = c.area
    R0, Z0 = c.R, c.Z
    ctx.equal("centre_R", R0, exact(ctx, 1.0))
    ctx.equal("centre_Z", Z0, exact(ctx, -1.1))
    dR, dZ = ctx.real("dR", 0, 2), ctx.real("dZ", -2, 2)
    c.R = R0 + dR
    c.Z = Z0 + dZ
    ctx.check("vertices", len(c.shape) == len(SQUARE))
    for (r, z), (r0, z0) in zip(c.shape, SQUARE):
        ctx.equal("outline_R", r, exact(ctx, r0) + dR)
        ctx.equal("outline_Z", z, exact(ctx, z0) + dZ)
    ctx.equal("area", c.area, A)


@H("caller_data", bounds="all classes built from lists of points")
def caller_data(ctx):
    """moving a coil does not modify the lists it was built from, nor another coil built from them"""
    m = ctx.fg.machine
    rs = [ctx.real("r%d" % i, 0.5, 3) for i in range(2)]
    zs = [ctx.real("z%d" % i, -3, 3) for i in range(2)]
    R, Z = point(ctx)
    kind = ctx.choose("kind", 3)
    rl, zl, sh = list(rs), list(zs), list(SQUARE)
    if kind == 0:
        mk = lambda: m.MultiCoil(rl, zl)
    elif kind == 1:
        mk = lambda: m.FilamentCoil(Rfil=rl, Zfil=zl, shape=sh)
    else:
        mk = lambda: m.ShapedCoil(sh)
    a, b = mk(), mk()
    p = b.controlPsi(R, Z)
    a.R = a.R + ctx.real("dR", 0, 2)
    a.Z = a.Z + ctx.real("dZ", -2, 2)
    ctx.equal("lists_R", rl, rs)
    ctx.equal("lists_Z", zl, zs)
    ctx.check("outline", sh == list(SQUARE))
    ctx.equal("sibling", b.controlPsi(R, Z), p)


@H("precalc_vertical_move", bounds="5x5 arbitrary maps, move by one grid step")
def precalc_vertical_move(ctx):
    """moving a PreCalcCoil up moves its tabulated field up"""
    m = ctx.fg.machine
    Rg = np.array([1.0 + 0.25 * i for i in range(5)])
    Zg = np.array([-0.5 + 0.25 * i for i in range(5)])
    RR, ZZ = np.meshgrid(Rg, Zg)
    if ctx.symbolic:
        from engine.shims import obj
        RR, ZZ = obj(RR), obj(ZZ)
    mp = ctx.array("m", (5, 5), -1, 1)
    c = m.PreCalcCoil(list(SQUARE), RR, ZZ, mp, mp, mp)
    Z0 = c.Z
    c.Z = Z0 + exact(ctx, 0.25)
    ctx.equal("position_Z", c.Z, Z0 + exact(ctx, 0.25))
    ctx.equal("field_moves", c.controlPsi(1.5, 0.25), mp[2, 2], rtol=1e-6, scale=None if ctx.symbolic else 1.0)
