"""C06  Coil forces."""
from .common import *

HARNESSES = H = Harnesses()
ENCODES = ["freegs.coil.Coil.getForces", "freegs.coil.Coil.area", "freegs.coil.AreaCurrentLimit.__call__",
           "freegs.machine.Machine.getForces", "freegs.machine.Circuit.getForces", "freegs.machine.Solenoid.getForces"]
BOUNDS = "machines of 2-3 elements, arbitrary real positions, currents, turns, areas; any external (plasma) field values"
ASSUMPTIONS = ["log is an uninterpreted function with log(xy)=log x+log y and its sign"]


class External:
    """Stands for an equilibrium: field of the machine plus an arbitrary plasma field."""

    def __init__(self, tok, br, bz):
        self.tok, self.br, self.bz = tok, br, bz

    def Br(self, R, Z):
        return self.tok.Br(R, Z) + self.br

    def Bz(self, R, Z):
        return self.tok.Bz(R, Z) + self.bz


def simple(ctx, tag, area=True):
    R, Z = ctx.real("Rc_" + tag, 0.3, 4), ctx.real("Zc_" + tag, -4, 4)
    I, n = ctx.real("I_" + tag, 10, 1e4), ctx.real("n_" + tag, 1, 50)
    A = ctx.real("A_" + tag, 1e-4, 0.05)
    c = ctx.fg.machine.Coil(R, Z, current=I, turns=n, area=A)
    return c, R, Z, I, n, A


def ref_force(ctx, R, It, A, Br, Bz):
    a = sqrt(ctx, A / ctx.pi)
    hoop = mu0(ctx) * It ** 2 / (4 * ctx.pi * R) * (log(ctx, 8 * R / a) - 1 + q(ctx, 1, 4))
    L = 2 * ctx.pi * R
    return (It * Bz + hoop) * L, -It * Br * L


def two_coils(ctx):
    a, Ra, Za, Ia, na, Aa = simple(ctx, "a")
    b, Rb, Zb, Ib, nb, Ab = simple(ctx, "b")
    ctx.assume((Ra - Rb) ** 2 + (Za - Zb) ** 2 >= exact(ctx, 0.01))
    tok = ctx.fg.machine.Machine([("a", a), ("b", b)])
    return tok, a, b, (Ra, Za, Ia, na, Aa), (Rb, Zb, Ib, nb, Ab)


def fsc(ctx, R, It, f):
    """rounding scale for a force: field of size psi/R differenced, times the current"""
    return None if ctx.symbolic else 1e-3 * abs(It) * 6.3 * abs(f)


@H("lorentz_and_hoop", bounds="with and without a plasma field, machine default when no equilibrium is given")
def lorentz_and_hoop(ctx):
    """force = current x length x (field of everything else) plus the outward hoop force; own field excluded"""
    tok, a, b, (Ra, Za, Ia, na, Aa), (Rb, Zb, Ib, nb, Ab) = two_coils(ctx)
    plasma = ctx.flag("plasma")
    br, bz = (ctx.real("br", -2, 2), ctx.real("bz", -2, 2)) if plasma else (0, 0)
    f = tok.getForces(External(tok, br, bz)) if plasma else tok.getForces()
    ctx.check("labels", list(f) == ["a", "b"])
    for lab, (R, Z, I, n, A), (R2, Z2, I2, n2, _) in (("a", (Ra, Za, Ia, na, Aa), (Rb, Zb, Ib, nb, Ab)),
                                                   ("b", (Rb, Zb, Ib, nb, Ab), (Ra, Za, Ia, na, Aa))):
        Br = ref_br(ctx, R2, Z2, R, Z) * n2 * I2 + br
        Bz = ref_bz(ctx, R2, Z2, R, Z) * n2 * I2 + bz
        Fr, Fz = ref_force(ctx, R, I * n, A, Br, Bz)
        sc = fsc(ctx, R, I * n, ref_greens(ctx, R2, Z2, R, Z) * n2 * I2)
        ctx.equal("Fr", f[lab][0], Fr, scale=sc)
        ctx.equal("Fz", f[lab][1], Fz, scale=sc)
    ctx.equal("current_restored", (a.current, b.current), (Ia, Ib))


@H("third_law")
def third_law(ctx):
    """vertical forces between two coils are equal and opposite, with no plasma"""
    tok, a, b, (Ra, Za, Ia, na, Aa), (Rb, Zb, Ib, nb, Ab) = two_coils(ctx)
    f = tok.getForces()
    sc = fsc(ctx, Ra, Ia * na, ref_greens(ctx, Rb, Zb, Ra, Za) * nb * Ib)
    ctx.equal("Fz_action_reaction", f["a"][1], -f["b"][1], scale=sc)


@H("current_reversal")
def current_reversal(ctx):
    """reversing every current leaves every force unchanged"""
    tok, a, b, A, B = two_coils(ctx)
    f = tok.getForces()
    a.current, b.current = -A[2], -B[2]
    g = tok.getForces()
    sc = fsc(ctx, A[0], A[2] * A[3], ref_greens(ctx, B[0], B[1], A[0], A[1]) * B[3] * B[2])
    for l in ("a", "b"):
        ctx.equal("reversal", f[l], g[l], scale=sc)
    ctx.equal("current_restored", (a.current, b.current), (-A[2], -B[2]))


@H("area_limit", bounds="either sign of current, any current density")
def area_limit(ctx):
    """a current-density area makes area = |current x turns| / density, and the hoop force uses it"""
    R, Z = ctx.real("Rc", 0.3, 4), ctx.real("Zc", -4, 4)
    I, n = ctx.real("I", 10, 1e4), ctx.real("n", 1, 50)
    sg = -1 if ctx.flag("negative") else 1
    J = ctx.real("J", 1e6, 1e8)
    m = ctx.fg.machine
    c = m.Coil(R, Z, current=sg * I, turns=n, area=m.AreaCurrentLimit(J))
    ctx.equal("area", c.area, I * n / J)
    f = m.Machine([("c", c)]).getForces()["c"]
    Fr, Fz = ref_force(ctx, R, sg * I * n, I * n / J, 0, 0)
    ctx.equal("hoop", f[0], Fr)
    ctx.equal("no_vertical", f[1], exact(ctx, 0), atol=1e-6)
    I2 = ctx.real("I2", 10, 1e4)
    c.current = I2
    ctx.equal("area_follows_current", c.area, I2 * n / J)
    d = m.Coil(R, Z, current=sg * I, turns=n)
    ctx.equal("default_area", d.area, I * n / exact(ctx, 3.5e9))
    A = ctx.real("A", 1e-4, 0.05)
    d.area = A
    ctx.equal("fixed_area", d.area, A)


@H("circuit", bounds="a circuit of two coils next to a single coil, arbitrary multipliers")
def circuit(ctx):
    """a coil in a circuit feels the other coils of the circuit and of the machine, not itself"""
    m = ctx.fg.machine
    u, Ru, Zu, _, nu, Au = simple(ctx, "u")
    l, Rl, Zl, _, nl, Al = simple(ctx, "l")
    s, Rs, Zs, Is, ns, As = simple(ctx, "s")
    for (r1, z1), (r2, z2) in (((Ru, Zu), (Rl, Zl)), ((Ru, Zu), (Rs, Zs)), ((Rl, Zl), (Rs, Zs))):
        ctx.assume((r1 - r2) ** 2 + (z1 - z2) ** 2 >= exact(ctx, 0.01))
    ku, kl = ctx.real("ku", -3, 3), ctx.real("kl", -3, 3)
    I = ctx.real("I", 10, 1e4)
    circ = m.Circuit([("u", u, ku), ("l", l, kl)], current=I)
    tok = m.Machine([("C", circ), ("s", s)])
    f = tok.getForces()
    ctx.check("labels", list(f) == ["C", "s"] and list(f["C"]) == ["u", "l"])

    def src(R, Z, others):
        br = bz = 0
        for (r, z, w) in others:
            br = br + w * ref_br(ctx, r, z, R, Z)
            bz = bz + w * ref_bz(ctx, r, z, R, Z)
        return br, bz

    U, L, S_ = (Ru, Zu, nu * ku * I), (Rl, Zl, nl * kl * I), (Rs, Zs, ns * Is)
    for got, (R, Z, It), A, oth in ((f["C"]["u"], U, Au, [L, S_]), (f["C"]["l"], L, Al, [U, S_]), (f["s"], S_, As, [U, L])):
        br, bz = src(R, Z, oth)
        Fr, Fz = ref_force(ctx, R, It, A, br, bz)
        sc = None if ctx.symbolic else fsc(ctx, R, It, sum(abs(w) * ref_greens(ctx, r, z, R, Z) for r, z, w in oth))
        ctx.equal("Fr", got[0], Fr, scale=sc)
        ctx.equal("Fz", got[1], Fz, scale=sc)
    ctx.equal("state", (circ.current, u.current, l.current, s.current), (I, ku * I, kl * I, Is))
    ctx.check("members", [x[0] for x in circ.coils] == ["u", "l"])


@H("filaments", bounds="filament coils (outline given closed, open or not at all) and multi-filament coils, 2 and 3 filaments, arbitrary turns and current")
def filaments(ctx):
    """coils made of filaments feel the field of everything else at the middle of their outline or filaments, and use their area; their own filaments do not act on them"""
    m = ctx.fg.machine
    n, I = ctx.real("turns", 1, 50), ctx.real("I", 10, 1e4)
    k = ctx.choose("kind", 5)
    A = exact(ctx, 0.02)
    sq = [(0.95, -1.2), (1.05, -1.2), (1.05, -1.0), (0.95, -1.0)]
    fil = [(0.97, -1.15), (1.03, -1.05)] if k < 2 else [(0.95, -1.2), (1.05, -1.0)]
    fR, fZ = ctx.arr([exact(ctx, r) for r, z in fil]), ctx.arr([exact(ctx, z) for r, z in fil])
    Rc, Zc = exact(ctx, 1.0), exact(ctx, -1.1)
    if k == 0:
        c = m.FilamentCoil(fR, fZ, shape=xshape(ctx, sq), current=I, turns=n)
    elif k == 1:
        c = m.FilamentCoil(fR, fZ, shape=xshape(ctx, sq + sq[:1]), current=I, turns=n)
    elif k == 2:  # outline is the box round the filaments
        c = m.FilamentCoil(fR, fZ, current=I, turns=n)
    elif k == 3:
        A = ctx.real("A", 1e-3, 0.05)
        c, n = m.MultiCoil(fR, fZ, current=I, area=A), 2
    else:
        J = exact(ctx, 1e6)
        c, n = m.MultiCoil(ctx.arr([exact(ctx, v) for v in (0.95, 1.0, 1.05)]), ctx.arr([exact(ctx, v) for v in (-1.2, -1.1, -1.0)]),
                           current=I, area=m.AreaCurrentLimit(J)), 3
        A = I * n / J
    b, Rb, Zb, Ib, nb, Ab = simple(ctx, "b")
    ctx.assume((Rc - Rb) ** 2 + (Zc - Zb) ** 2 >= exact(ctx, 0.1))
    f = m.Machine([("c", c), ("b", b)]).getForces()
    br, bz = ref_br(ctx, Rb, Zb, Rc, Zc) * nb * Ib, ref_bz(ctx, Rb, Zb, Rc, Zc) * nb * Ib
    Fr, Fz = ref_force(ctx, Rc, I * n, A, br, bz)
    sc = fsc(ctx, Rc, I * n, ref_greens(ctx, Rb, Zb, Rc, Zc) * nb * Ib)
    ctx.equal("centre", (c.R, c.Z), (Rc, Zc))
    ctx.equal("Fr", f["c"][0], Fr, scale=sc)
    ctx.equal("Fz", f["c"][1], Fz, scale=sc)
    ctx.equal("current_restored", c.current, I)


@H("shaped", bounds="fixed square outline, closed explicitly or not, arbitrary turns and current")
def shaped(ctx):
    """an extended coil uses its centre and outline area"""
    m = ctx.fg.machine
    n, I = ctx.real("turns", 1, 50), ctx.real("I", 10, 1e4)
    out = list(SQUARE)
    if ctx.choose("closed", 2):
        out = out + out[:1]
    c = m.ShapedCoil(xshape(ctx, out), current=I, turns=n)
    b, Rb, Zb, Ib, nb, Ab = simple(ctx, "b")
    Rc, Zc = exact(ctx, 1.0), exact(ctx, -1.1)
    ctx.assume((Rc - Rb) ** 2 + (Zc - Zb) ** 2 >= exact(ctx, 0.1))
    tok = m.Machine([("c", c), ("b", b), ("sol", m.Solenoid(0.1, -1, 1, 3))])
    f = tok.getForces()
    br, bz = ref_br(ctx, Rb, Zb, Rc, Zc) * nb * Ib, ref_bz(ctx, Rb, Zb, Rc, Zc) * nb * Ib
    Fr, Fz = ref_force(ctx, Rc, I * n, exact(ctx, 0.01), br, bz)
    sc = fsc(ctx, Rc, I * n, ref_greens(ctx, Rb, Zb, Rc, Zc) * nb * Ib)
    ctx.equal("centre_and_area", (c.R, c.Z, c.area), (Rc, Zc, exact(ctx, 0.01)))
    ctx.equal("Fr", f["c"][0], Fr, scale=sc)
    ctx.equal("Fz", f["c"][1], Fz, scale=sc)
    ctx.equal("current_restored", c.current, I)
    ctx.check("solenoid_not_implemented", len(f["sol"]) == 0)
