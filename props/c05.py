"""C05  Circuits."""
from .common import *

HARNESSES = H = Harnesses()
ENCODES = ["freegs.machine.Circuit.*", "freegs.machine.MirroredCoil"]
BOUNDS = "circuits of 2 or 3 members (Coil, ShapedCoil, Solenoid), arbitrary real multipliers in [-3,3]; histories of up to 3 operations in any order"


def circuit(ctx, kinds=("Coil", "Coil", "Solenoid")):
    ms = [build_coil(ctx, k, "m%d" % i, current=0.0) for i, k in enumerate(kinds)]
    mult = [ctx.real("mult%d" % i, -3, 3) for i in range(len(kinds))]
    I = ctx.real("I", -1e4, 1e4)
    c = ctx.fg.machine.Circuit([("m%d" % i, m[0], k) for i, (m, k) in enumerate(zip(ms, mult))], current=I)
    fil = [(r, z, w * k) for m, k in zip(ms, mult) for r, z, w in m[1]]
    return c, [m[0] for m in ms], mult, I, fil


def fscale(ctx, fil, R, Z, I=1.0):
    if ctx.symbolic:
        return None
    return abs(I) * sum(abs(w) * ref_greens(ctx, r, z, R, Z) for r, z, w in fil)


@H("members_follow")
def members_follow(ctx):
    """member current = multiplier x circuit current, from construction on and after every change"""
    c, ms, mult, I, fil = circuit(ctx)
    for m, k in zip(ms, mult):
        ctx.equal("initial", m.current, k * I)
    J = ctx.real("J", -1e4, 1e4)
    how = ctx.choose("how", 2)
    if how == 0:
        c.current = J
        new = J
    else:
        c.current += J
        new = I + J
    ctx.equal("circuit_current", c.current, new)
    for m, k in zip(ms, mult):
        ctx.equal("updated", m.current, k * new)
    f = ctx.flag("control")
    c.control = f
    ctx.check("control", c.control == f)
    for m in ms:
        ctx.check("member_control", m.control == f)
    for i, m in enumerate(ms):
        ctx.check("getitem", c["m%d" % i] is m)


@H("field")
def field(ctx):
    """fields of a circuit are current x sum of multiplier x member response"""
    c, ms, mult, I, fil = circuit(ctx)
    R, Z = point(ctx)
    s = fscale(ctx, fil, R, Z)
    for kind, ctl, tot in (("psi", "controlPsi", "psi"), ("br", "controlBr", "Br"), ("bz", "controlBz", "Bz")):
        ref = ref_sum(ctx, kind, fil, R, Z)
        feq(ctx, ctl, getattr(c, ctl)(R, Z), ref, s)
        feq(ctx, tot, getattr(c, tot)(R, Z), ref * I, None if s is None else s * abs(I))
    pg = c.createPsiGreens(R, Z)
    ctx.equal("greens", c.calcPsiFromGreens(pg), ref_sum(ctx, "psi", fil, R, Z) * I, scale=None if s is None else s * abs(I))
    J = ctx.real("J", -1e4, 1e4)
    c.current = J
    ctx.equal("greens_new_current", c.calcPsiFromGreens(pg), ref_sum(ctx, "psi", fil, R, Z) * J,
              scale=None if s is None else s * abs(J))
    ctx.equal("psi_new_current", c.psi(R, Z), ref_sum(ctx, "psi", fil, R, Z) * J, scale=None if s is None else s * abs(J))


@H("evaluation_has_no_side_effect", bounds="any two evaluations out of 7")
def evaluation_has_no_side_effect(ctx):
    """evaluating a circuit leaves circuit and member currents, and control switches, as they were"""
    c, ms, mult, I, fil = circuit(ctx, ("Coil", "Coil"))
    R, Z = point(ctx)
    fns = [c.psi, c.Br, c.Bz, c.controlPsi, c.controlBr, c.controlBz,
           lambda r, z: c.calcPsiFromGreens(c.createPsiGreens(r, z))]
    for k in range(2):
        fns[ctx.choose("op%d" % k, 7)](R, Z)
        ctx.equal("circuit_current", c.current, I)
        for m, kk in zip(ms, mult):
            ctx.equal("member_current", m.current, kk * I)
            ctx.check("member_control", m.control == c.control)


@H("mirrored", bounds="symmetric and antisymmetric")
def mirrored(ctx):
    """MirroredCoil is a pair of coils at +Z and -Z with equal or opposite currents"""
    R0, Z0 = ctx.real("Rc", 0.1, 5), ctx.real("Zc", 0.05, 5)
    I, n = ctx.real("I", -1e4, 1e4), ctx.real("turns", 1, 100)
    sym = ctx.flag("symmetric")
    c = ctx.fg.machine.MirroredCoil(R0, Z0, current=I, turns=n, symmetric=sym)
    R, Z = point(ctx)
    sg = 1 if sym else -1
    fil = [(R0, Z0, n), (R0, -Z0, sg * n)]
    s = fscale(ctx, fil, R, Z)
    for kind, ctl, tot in (("psi", "controlPsi", "psi"), ("br", "controlBr", "Br"), ("bz", "controlBz", "Bz")):
        ref = ref_sum(ctx, kind, fil, R, Z)
        feq(ctx, ctl, getattr(c, ctl)(R, Z), ref, s)
        feq(ctx, tot, getattr(c, tot)(R, Z), ref * I, None if s is None else s * abs(I))
    feq(ctx, "psi_parity", c.psi(R, -Z), sg * c.psi(R, Z), None if s is None else s * abs(I))


@H("mirrored_control")
def mirrored_control(ctx):
    """the control switch given to MirroredCoil is the circuit's control switch"""
    f = ctx.flag("control")
    c = ctx.fg.machine.MirroredCoil(1.0, 0.5, control=f)
    ctx.check("control", c.control == f)
    tok = ctx.fg.machine.Machine([("M", c)])
    ctx.check("listed", len(tok.controlCurrents()) == (1 if f else 0))
