"""C04  Machine: superposition, precomputed responses, control lists."""
from .common import *

HARNESSES = H = Harnesses()
ENCODES = ["freegs.machine.Machine.{psi,Br,Bz,createPsiGreens,calcPsiFromGreens,control*,setControlCurrents,getCurrents,__getitem__}",
           "freegs.machine.Circuit.*", "freegs.machine.Solenoid.*", "freegs.coil.Coil.*"]
BOUNDS = "machines of up to 4 elements (coils, solenoid, circuit of 2, filament coil), every subset of controlled elements; arbitrary real currents; histories of 3 operations"


def machine4(ctx, controls=None):
    m = ctx.fg.machine
    a, fa = build_coil(ctx, "Coil", "a")
    s, fs = build_coil(ctx, "Solenoid", "s")
    u, fu = build_coil(ctx, "Coil", "u", current=0.0)
    l, fl = build_coil(ctx, "Coil", "l", current=0.0)
    k0, k1 = ctx.real("k0", -3, 3), ctx.real("k1", -3, 3)
    circ = m.Circuit([("u", u, k0), ("l", l, k1)], current=ctx.real("I_circ", -1e4, 1e4))
    f, ff = build_coil(ctx, "FilamentCoil", "f")
    fc = [(r, z, w * k0) for r, z, w in fu] + [(r, z, w * k1) for r, z, w in fl]
    coils = [("A", a), ("S", s), ("C", circ), ("F", f)]
    fils = {"A": fa, "S": fs, "C": fc, "F": ff}
    if controls:
        for lab, c in coils:
            c.control = ctx.flag("control_" + lab)
    return m.Machine(coils), dict(coils), fils


def field(ctx, fils, I, kind, R, Z):
    tot = 0
    for lab, f in fils.items():
        tot = tot + I[lab] * ref_sum(ctx, kind, f, R, Z)
    return tot


def scale(ctx, fils, I, R, Z):
    if ctx.symbolic:
        return None
    return sum(abs(I[l]) * abs(w) * ref_greens(ctx, r, z, R, Z) for l, f in fils.items() for r, z, w in f)


@H("superposition")
def superposition(ctx):
    """psi, Br, Bz of a machine are the current-weighted sum of the elements, and precomputed maps agree with direct evaluation for any later currents"""
    tok, cs, fils = machine4(ctx)
    R, Z = point(ctx)
    I = {l: c.current for l, c in cs.items()}
    for kind, fn in (("psi", tok.psi), ("br", tok.Br), ("bz", tok.Bz)):
        feq(ctx, kind, fn(R, Z), field(ctx, fils, I, kind, R, Z), scale(ctx, fils, I, R, Z))
    pg = tok.createPsiGreens(R, Z)
    ctx.equal("greens", tok.calcPsiFromGreens(pg), tok.psi(R, Z), scale=scale(ctx, fils, I, R, Z))
    J = {l: ctx.real("J_" + l, -1e4, 1e4) for l in cs}
    for l, c in cs.items():
        c.current = J[l]
    ctx.equal("greens_after_change", tok.calcPsiFromGreens(pg), field(ctx, fils, J, "psi", R, Z),
              scale=scale(ctx, fils, J, R, Z))
    ctx.equal("psi_after_change", tok.psi(R, Z), field(ctx, fils, J, "psi", R, Z), scale=scale(ctx, fils, J, R, Z))
    for l, c in cs.items():
        ctx.equal("current_kept", c.current, J[l])


@H("control_lists", bounds="all 16 subsets of controlled elements")
def control_lists(ctx):
    """control responses and currents list exactly the controlled elements in machine order"""
    tok, cs, fils = machine4(ctx, controls=True)
    R, Z = point(ctx)
    on = [l for l in cs if cs[l].control]
    for kind, fn in (("psi", tok.controlPsi), ("br", tok.controlBr), ("bz", tok.controlBz)):
        v = fn(R, Z)
        ctx.check("length_" + kind, len(v) == len(on))
        for x, l in zip(v, on):
            feq(ctx, "response_" + kind, x, ref_sum(ctx, kind, fils[l], R, Z),
                None if ctx.symbolic else sum(abs(w) * ref_greens(ctx, r, z, R, Z) for r, z, w in fils[l]))
    cur = tok.controlCurrents()
    ctx.check("length_currents", len(cur) == len(on))
    for x, l in zip(cur, on):
        ctx.equal("controlCurrents", x, cs[l].current)
    allc = tok.getCurrents()
    ctx.check("getCurrents_labels", list(allc) == list(cs))
    for l in cs:
        ctx.equal("getCurrents", allc[l], cs[l].current)
        ctx.check("getitem", tok[l] is cs[l])


@H("adjust", bounds="all 16 subsets of controlled elements; any current changes")
def adjust(ctx):
    """controlAdjust and setControlCurrents change the controlled currents, in order, and nothing else"""
    tok, cs, fils = machine4(ctx, controls=True)
    I = {l: c.current for l, c in cs.items()}
    on = [l for l in cs if cs[l].control]
    d = ctx.array("d", (4,), -1e4, 1e4)[:len(on)]
    col = ctx.flag("column")
    tok.controlAdjust(d.reshape(-1, 1) if col else d)
    for i, l in enumerate(on):
        ctx.equal("adjusted", cs[l].current, I[l] + d[i])
    for l in cs:
        if l not in on:
            ctx.equal("uncontrolled_untouched", cs[l].current, I[l])
    ctx.equal("circuit_members_u", cs["C"]["u"].current, cs["C"].current * ctx.real("k0", -3, 3))
    ctx.equal("circuit_members_l", cs["C"]["l"].current, cs["C"].current * ctx.real("k1", -3, 3))
    new = ctx.array("n", (4,), -1e4, 1e4)[:len(on)]
    tok.setControlCurrents(list(new))
    for i, l in enumerate(on):
        ctx.equal("set", cs[l].current, new[i])
    for l in cs:
        if l not in on:
            ctx.equal("uncontrolled_untouched_set", cs[l].current, I[l])
    # get/set round trip
    tok.setControlCurrents(tok.controlCurrents())
    for i, l in enumerate(on):
        ctx.equal("roundtrip", cs[l].current, new[i])


@H("response_is_derivative", bounds="all 16 subsets of controlled elements; any current changes")
def response_is_derivative(ctx):
    """changing controlled currents by d changes the field by the sum of response x d"""
    tok, cs, fils = machine4(ctx, controls=True)
    R, Z = point(ctx)
    on = [l for l in cs if cs[l].control]
    which = ctx.choose("which", 3)
    fn, resp = [(tok.psi, tok.controlPsi), (tok.Br, tok.controlBr), (tok.Bz, tok.controlBz)][which]
    v0 = fn(R, Z)
    r = resp(R, Z)
    d = ctx.array("d", (4,), -1e4, 1e4)[:len(on)]
    tok.controlAdjust(d)
    v1 = fn(R, Z)
    exp = v0 + sum((a * b for a, b in zip(r, d)), 0)
    sc = None
    if not ctx.symbolic:
        I = {l: abs(c.current) + 1e4 for l, c in cs.items()}
        sc = scale(ctx, fils, I, R, Z)
    feq(ctx, "linear_response", v1, exp, sc)


@H("unknown_label")
def unknown_label(ctx):
    """looking up a label that is not there is an error"""
    tok, cs, fils = machine4(ctx)
    ctx.raises("machine_keyerror", KeyError, lambda: tok["nope"])
    ctx.raises("circuit_keyerror", KeyError, lambda: cs["C"]["nope"])


@H("empty")
def empty(ctx):
    """a machine without coils produces no field"""
    tok = ctx.fg.machine.EmptyTokamak()
    R, Z = point(ctx)
    for nm in ("psi", "Br", "Bz"):
        ctx.equal("zero_" + nm, getattr(tok, nm)(R, Z), exact(ctx, 0))
    ctx.check("no_controls", tok.controlPsi(R, Z) == [] and tok.controlCurrents() == [])
