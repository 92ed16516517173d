"""C02  Magnetic field and flux are consistent."""
from .common import *

HARNESSES = H = Harnesses()
ENCODES = ["freegs.gradshafranov.GreensBr", "freegs.gradshafranov.GreensBz", "freegs.gradshafranov.Greens",
           "freegs.coil.Coil.*", "freegs.shaped_coil.ShapedCoil.*", "freegs.filament_coil.FilamentCoil.*",
           "freegs.multi_coil.MultiCoil.*", "freegs.machine.Solenoid.*", "freegs.machine.Circuit.*",
           "freegs.machine.Machine.Br", "freegs.machine.Machine.Bz", "freegs.machine.Machine.psi"]
BOUNDS = "all real positions/currents/turns in stated ranges; one coil of each class (3 filaments, 3 solenoid turns, square outline), circuits of 2"
E = 1e-3


def fd_br(psi, R, Z, e):
    return (psi(R, Z - e) - psi(R, Z + e)) / (2 * e * R)


def fd_bz(psi, R, Z, e):
    return (psi(R + e, Z) - psi(R - e, Z)) / (2 * e * R)


@H("kernel", bounds="all reals, any difference step eps in [1e-4, 0.05]")
def kernel(ctx):
    """GreensBr/GreensBz are the centred differences of Greens with the given step, default 1e-3"""
    g = ctx.fg.gradshafranov
    Rc, Zc = ctx.real("Rc", 0.1, 5), ctx.real("Zc", -5, 5)
    R, Z = point(ctx)
    e = ctx.real("eps", 1e-4, 0.05)
    G = lambda r, z: g.Greens(Rc, Zc, r, z)
    sc = G(R, Z)
    feq(ctx, "br_eps", g.GreensBr(Rc, Zc, R, Z, eps=e), fd_br(G, R, Z, e), sc * 10)
    feq(ctx, "bz_eps", g.GreensBz(Rc, Zc, R, Z, eps=e), fd_bz(G, R, Z, e), sc * 10)
    d = exact(ctx, E)
    feq(ctx, "br_default", g.GreensBr(Rc, Zc, R, Z), fd_br(G, R, Z, d), sc)
    feq(ctx, "bz_default", g.GreensBz(Rc, Zc, R, Z), fd_bz(G, R, Z, d), sc)


@H("kernel_symmetry")
def kernel_symmetry(ctx):
    """Br is odd and Bz even about the plane of the loop; both translate with it"""
    g = ctx.fg.gradshafranov
    Rc, Zc = ctx.real("Rc", 0.1, 5), ctx.real("Zc", -5, 5)
    R, d = ctx.real("R", 0.2, 4), ctx.real("d", -4, 4)
    sc = g.Greens(Rc, Zc, R, Zc + d)
    feq(ctx, "br_odd", g.GreensBr(Rc, Zc, R, Zc + d), -g.GreensBr(Rc, Zc, R, Zc - d), sc)
    feq(ctx, "bz_even", g.GreensBz(Rc, Zc, R, Zc + d), g.GreensBz(Rc, Zc, R, Zc - d), sc)
    feq(ctx, "br_translate", g.GreensBr(Rc, Zc, R, Zc + d), g.GreensBr(Rc, 0, R, d), sc)
    feq(ctx, "bz_translate", g.GreensBz(Rc, Zc, R, Zc + d), g.GreensBz(Rc, 0, R, d), sc)


def per_coil(kind):
    def fn(ctx):
        c, fil = build_coil(ctx, kind)
        R, Z = point(ctx)
        e = exact(ctx, E)
        s0, s1 = c.controlPsi(R, Z), c.psi(R, Z)
        feq(ctx, "controlBr", c.controlBr(R, Z), fd_br(c.controlPsi, R, Z, e), s0)
        feq(ctx, "controlBz", c.controlBz(R, Z), fd_bz(c.controlPsi, R, Z, e), s0)
        feq(ctx, "Br", c.Br(R, Z), fd_br(c.psi, R, Z, e), s1)
        feq(ctx, "Bz", c.Bz(R, Z), fd_bz(c.psi, R, Z, e), s1)
    fn.__doc__ = "Br=-(1/R)dpsi/dZ and Bz=(1/R)dpsi/dR of the same coil's flux (%s)" % kind
    return fn


for _k in ["Coil", "ShapedCoil", "FilamentCoil", "MultiCoil", "MultiMirror", "Solenoid"]:
    H("coil_" + _k)(per_coil(_k))


@H("divergence")
def divergence(ctx):
    """R*Br and R*Bz derive from one flux function: the discrete divergence vanishes"""
    c, _ = build_coil(ctx, "Coil")
    R, Z = point(ctx)
    e = exact(ctx, E)
    a = (R + e) * c.Br(R + e, Z)
    b = (R - e) * c.Br(R - e, Z)
    p = R * c.Bz(R, Z + e)
    m = R * c.Bz(R, Z - e)
    if ctx.symbolic:
        ctx.equal("divergence", a - b, m - p)
    else:
        sc = mag(ctx, a, b, p, m, c.psi(R, Z))
        ctx.equal("divergence", (a - b), (m - p), rtol=1e-8, scale=sc)


@H("circuit_and_machine")
def circuit_and_machine(ctx):
    """a circuit and a whole machine obey the same relation"""
    m = ctx.fg.machine
    a, _ = build_coil(ctx, "Coil", "a")
    b, _ = build_coil(ctx, "Coil", "b")
    s, _ = build_coil(ctx, "Solenoid", "s")
    k = [ctx.real("mult%d" % i, -3, 3) for i in range(2)]
    circ = m.Circuit([("a", a, k[0]), ("b", b, k[1])], current=ctx.real("Icirc", -1e4, 1e4))
    tok = m.Machine([("circ", circ), ("sol", s)])
    R, Z = point(ctx)
    e = exact(ctx, E)
    for nm, o in (("circuit", circ), ("machine", tok)):
        sc = mag(ctx, o.psi(R, Z), a.psi(R, Z), b.psi(R, Z), s.psi(R, Z))
        feq(ctx, nm + "_Br", o.Br(R, Z), fd_br(o.psi, R, Z, e), sc)
        feq(ctx, nm + "_Bz", o.Bz(R, Z), fd_bz(o.psi, R, Z, e), sc)
