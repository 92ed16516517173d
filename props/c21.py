"""C21  Saving to HDF5 and reading back."""
import io

from .common import *
from .c09 import ref_grid

HARNESSES = H = Harnesses()
ENCODES = ["freegs.dump.OutputFile.{__init__,write_equilibrium,read_equilibrium,close}",
           "freegs.{coil.Coil,shaped_coil.ShapedCoil,filament_coil.FilamentCoil,multi_coil.MultiCoil,machine.Solenoid,machine.Circuit}.{to_numpy_array,from_numpy_array}",
           "freegs.equilibrium.Equilibrium.__init__", "freegs.machine.Machine.{__init__,__eq__}"]
BOUNDS = "9x9 and 9x17 grids with arbitrary flux, domain and plasma current; machines of two elements of every kind (circuits of two coils with arbitrary multipliers) with arbitrary positions and currents, control on or off, turns 1 or 12, with or without wall; all three boundary conditions, both orders"
ASSUMPTIONS = ["h5py stores and restores named data, converting to the stored type, and lists the members of a group alphabetically; in replays the real h5py writes to memory"]

KINDS = ["Coil", "ShapedCoil", "FilamentCoil", "MultiCoil", "MultiPoint", "Solenoid", "Circuit"]


def build(ctx, kind, tag):
    m = ctx.fg.machine
    I = ctx.real("I_" + tag, -1e4, 1e4)
    on = bool(ctx.choose("control_" + tag, 2))
    n = (1, 12)[ctx.choose("turns_" + tag, 2)]

    def pos(t):
        return ctx.real("Rc%s_%s" % (t, tag), 0.2, 5), ctx.real("Zc%s_%s" % (t, tag), -5, 5)
    if kind == "Coil":
        r, z = pos("")
        return m.Coil(r, z, current=I, turns=n, control=on)
    if kind == "ShapedCoil":
        d = ctx.real("dZ_" + tag, -3, 3)
        c = m.ShapedCoil([(1.0, 0.0), (1.25, 0.0), (1.25, 0.5), (1.0, 0.5)], current=I, turns=n, control=on, npoints=(1, 3)[ctx.choose("np_" + tag, 2)])
        c.Z = c.Z + d
        return c
    if kind == "FilamentCoil":
        p = [pos(t) for t in "ab"]
        return m.FilamentCoil(Rfil=[v[0] for v in p], Zfil=[v[1] for v in p], current=I, turns=n, control=on)
    if kind == "MultiCoil":
        p = [pos(t) for t in "ab"]
        return m.MultiCoil([v[0] for v in p], [v[1] for v in p], current=I, control=on, mirror=True,
                           polarity=[ctx.real("pol0_" + tag, -1, 1), exact(ctx, -1)])
    if kind == "MultiPoint":
        r, z = pos("")
        return m.MultiCoil(r, z, current=I, turns=n, control=on)
    if kind == "Solenoid":
        return m.Solenoid(ctx.real("Rs_" + tag, 0.1, 1), ctx.real("Zmin_" + tag, -3, -0.1), ctx.real("Zmax_" + tag, 0.1, 3), 3, current=I, control=on)
    p = [pos(t) for t in "ab"]
    mu = [ctx.real("mult%s_%s" % (t, tag), -3, 3) for t in "ab"]
    nz = ctx.choose("zero_multiplier_" + tag, 3)
    if nz < 2:
        mu[nz] = exact(ctx, 0)
        ctx.assume(mu[1 - nz] >= 0.25)
    else:
        ctx.assume(mu[0] >= 0.25)
    cs = [m.Coil(r, z, turns=n, control=on) for r, z in p]
    return m.Circuit([("u", cs[0], mu[0]), ("d", cs[1], mu[1])], current=I, control=on)


def data(c, kind):
    """everything that defines the element"""
    if kind == "Circuit":
        out = dict(current=c.current, control=c.control, n=len(c.coils))
        for k, (label, coil, mult) in enumerate(c.coils):
            out["label%d" % k], out["mult%d" % k] = label, mult
            for a, v in data(coil, "Coil").items():
                out["%s%d" % (a, k)] = v
        return out
    if kind == "Solenoid":
        return dict(Rs=c.Rs, Zsmin=c.Zsmin, Zsmax=c.Zsmax, Ns=c.Ns, current=c.current, control=c.control)
    out = dict(R=c.R, Z=c.Z, current=c.current, control=c.control, turns=c.turns)
    if kind == "ShapedCoil":
        out["n"] = len(c.shape)
        for k, (r, z) in enumerate(c.shape):
            out["r%d" % k], out["z%d" % k] = r, z
    if kind == "FilamentCoil":
        out["n"] = len(c.points)
    if kind in ("MultiCoil", "MultiPoint"):
        out.update(mirror=c.mirror, n=len(c.Rfil), p0=c.polarity[0], p1=c.polarity[1])
    return out


def response(ctx, c):
    R, Z = exact(ctx, 1.625), exact(ctx, 0.3125)
    return c.controlPsi(R, Z), c.controlBr(R, Z)


def same(ctx, name, a, b):
    for k, v in a.items():
        if isinstance(v, (str, bool, np.bool_)):
            ctx.check("%s_%s" % (name, k), b[k] == v)
        else:
            ctx.equal("%s_%s" % (name, k), b[k], v, rtol=1e-12, scale=mag(ctx, v))


def write(ctx, eq):
    f = io.BytesIO()
    with ctx.fg.dump.OutputFile(f, "w") as out:
        out.write_equilibrium(eq)
    return f


def read(ctx, f):
    with ctx.fg.dump.OutputFile(f, "r") as inp:
        return inp.read_equilibrium()


@H("elements", bounds="every element kind beside a coil with another label order")
def elements(ctx):
    """every element is restored with its label, kind, position, current, turns, control setting and response"""
    m = ctx.fg.machine
    kind = KINDS[ctx.choose("kind", len(KINDS))]
    c = build(ctx, kind, "c")
    I2 = ctx.real("I2", -1e4, 1e4)
    other = m.Coil(2.0, -1.0, current=I2, control=False)
    P = ctx.arr([[exact(ctx, 0.125 * (i - 2 * j)) for j in range(9)] for i in range(9)])
    before = data(c, kind)
    resp = response(ctx, c)
    with stubs(ctx, critical__find_critical=no_critical):
        tok = m.Machine([("PB", c), ("PA", other)])
        eq = ctx.fg.equilibrium.Equilibrium(tok, Rmin=0.5, Rmax=2.5, Zmin=-1.0, Zmax=1.0, nx=9, ny=9, psi=P)
        f = write(ctx, eq)
        same(ctx, "written", before, data(c, kind))
        c.current = exact(ctx, 7)               # the file is a copy
        new = read(ctx, f)
    t2 = new.tokamak
    ctx.check("labels", sorted(l for l, _ in t2.coils) == ["PA", "PB"])
    d = t2["PB"]
    ctx.check("kind", type(d) is type(c))
    same(ctx, "restored", before, data(d, kind))
    for v, w, n in zip(response(ctx, d), resp, ("psi", "br")):
        ctx.equal("restored_response_" + n, v, w, rtol=1e-6, scale=mag(ctx, w))
    ctx.equal("other_current", t2["PA"].current, I2, rtol=1e-12)
    ctx.check("other_control", not t2["PA"].control)
    if kind == "Circuit":
        d.current = exact(ctx, 3)
        for k in range(2):
            ctx.equal("members_follow", d.coils[k][1].current, 3 * before["mult%d" % k], scale=10.0 if not ctx.symbolic else None)


@H("equality", bounds="two coils and a solenoid")
def equality(ctx):
    """machines compare equal exactly when the elements (in any order) do"""
    m = ctx.fg.machine
    I = [ctx.real("I%d" % i, -10, 10) for i in range(3)]
    mk = lambda c: [("A", m.Coil(1.0, 0.5, current=c[0])), ("B", m.Coil(1.5, 0.5, current=c[1])), ("S", m.Solenoid(0.25, -1.0, 1.0, 3, current=c[2]))]
    a = m.Machine(mk(I))
    other = list(mk(I))
    k = ctx.choose("changed", 4)
    if k < 3:
        new = ctx.real("new", -10, 10)
        other[k][1].current = new
    b = m.Machine(other[::-1])
    r = (a == b)
    if k == 3:
        ctx.check("equal_when_same", bool(r))
    else:
        ctx.check("equal_iff_same_current", bool(r) == bool(I[k] == new))
    ctx.check("ne", bool(a != b) == (not bool(r)))


def variant(ctx, kind, what, d):
    """an element of the kind, with one of its quantities changed by d"""
    m = ctx.fg.machine

    def v(n, x):
        return exact(ctx, x) + d if what == n else exact(ctx, x)
    kw = dict(current=v("current", 5), control=what != "control")
    n = 2 if what == "turns" else 1
    if kind == "Coil":
        return m.Coil(v("R", 1), v("Z", 0.5), turns=n, **kw)
    if kind == "ShapedCoil":
        sh = [(1.0, 0.0), (1.5, 0.0), (1.5, 0.5)]
        c = m.ShapedCoil(sh + [(1.0, 0.5)] * (what == "n"), turns=n, npoints=3 if what == "points" else 6, **kw)
        if what in ("R", "Z"):
            setattr(c, what, getattr(c, what) + d)
        return c
    if kind == "FilamentCoil":
        # the filaments are compared, not only the outline
        return m.FilamentCoil(Rfil=[v("R", 1.1), 1.2], Zfil=[v("Z", 0.1), 0.2], shape=[(1.0, 0.0), (2.0, 0.0), (2.0, 1.0)], turns=n, **kw)
    if kind == "MultiCoil":
        return m.MultiCoil([v("R", 1), exact(ctx, 1.5) - (d if what == "R" else 0)], [v("Z", 0.5), exact(ctx, 1)], mirror=what == "mirror",
                           polarity=[v("polarity", 1), 1.0], **kw)
    if kind == "Solenoid":
        return m.Solenoid(v("R", 0.25), v("Zmin", -1), v("Zmax", 1), 4 if what == "n" else 3, **kw)
    if kind == "Circuit":
        cs = [("u", m.Coil(v("R", 1), v("Z", 0.5), turns=n), v("multiplier", 1)), ("d", m.Coil(1.0, -0.5), exact(ctx, -1))]
        return m.Circuit(cs if what != "n" else cs[:1], **kw)
    if kind == "Wall":
        R, Z = [v("R", 1), 2.0, 2.0], [0.0, v("Z", 0), 1.0]
        return m.Wall(R + [1.0] * (what == "n"), Z + [1.0] * (what == "n"))


EQ_KINDS = {"Coil": ("current", "control", "turns", "R", "Z"),
         "ShapedCoil": ("current", "control", "turns", "R", "Z", "n", "points"),
         "FilamentCoil": ("current", "control", "turns", "R", "Z"),
         "MultiCoil": ("current", "control", "R", "Z", "mirror", "polarity"),
         "Solenoid": ("current", "control", "R", "Zmin", "Zmax", "n"),
         "Circuit": ("current", "control", "turns", "R", "Z", "multiplier", "n"),
         "Wall": ("R", "Z", "n")}
DISCRETE = ("control", "turns", "n", "points", "mirror")


@H("element_equality", bounds="every kind of element and wall, one quantity changed by any amount of magnitude 0.01 to 0.2, or none")
def element_equality(ctx):
    """elements and walls compare equal exactly when all quantities that define them agree; machines exactly when label, elements and wall do"""
    m = ctx.fg.machine
    names = sorted(EQ_KINDS)
    kind = names[ctx.choose("kind", len(names))]
    what = EQ_KINDS[kind][ctx.choose("what_" + kind, len(EQ_KINDS[kind]))]
    case = 0 if what in DISCRETE else ctx.choose("case", 3)
    d = 0 if case == 0 else ctx.real("d", 0.01, 0.2) * (1 if case == 1 else -1)
    a, b = variant(ctx, kind, None, 0), variant(ctx, kind, what, d)
    same = False if what in DISCRETE else case == 0
    ctx.check("equal", bool(a == b) == same and bool(b == a) == same)
    ctx.check("not_equal", bool(a != b) == (not same) and bool(b != a) == (not same))
    ctx.check("equal_to_itself", bool(a == a) and not bool(a != a))
    coil = [("C", m.Coil(1.0, 0.5))]
    mk = (lambda e: m.Machine(coil, wall=e, nlimit=4)) if kind == "Wall" else (lambda e: m.Machine(coil + [("E", e)]))
    ctx.check("machine", bool(mk(a) == mk(b)) == same and bool(mk(a) != mk(b)) == (not same))
    if kind == "Wall":
        ctx.check("no_wall", not bool(mk(a) == m.Machine(coil)) and not bool(m.Machine(coil) == mk(a)))
    else:
        ctx.check("label", not bool(mk(a) == m.Machine(coil + [("F", a)])))
        ctx.check("one_less", not bool(mk(a) == m.Machine(coil)))
        k2 = names[(names.index(kind) + 1) % (len(names) - 1)]
        other = variant(ctx, k2, None, 0)
        ctx.check("other_kind", not bool(mk(a) == mk(other)) and not bool(mk(other) == mk(a)))


@H("equilibrium", bounds="arbitrary flux, domain, current; all boundary conditions, orders, limited or not, wall or not")
def equilibrium(ctx):
    """grid, plasma flux, total flux, plasma current, boundary condition, wall and options are restored"""
    m = ctx.fg.machine
    nx, ny = ((9, 9), (9, 17))[ctx.choose("grid", 2)]
    P = ctx.array("P", (nx, ny), -2, 2)
    dom = ctx.real("Rmin", 0.25, 1), ctx.real("Rmax", 1.5, 3), ctx.real("Zmin", -2, -0.5), ctx.real("Zmax", 0.5, 2)
    Ip = ctx.real("Ip", -2, 2)
    b = ctx.choose("boundary", 3)
    order = (2, 4)[ctx.choose("order", 2)]
    bnd = [ctx.fg.boundary.freeBoundary, ctx.fg.boundary.freeBoundaryHagenow, ctx.fg.boundary.fixedBoundary][b]
    lim, wall, R0 = bool(ctx.choose("limited", 2)), ctx.choose("wall", 2), ctx.real("R0", 0.5, 3)
    Ic = ctx.real("Ic", -1e4, 1e4)
    coil = m.Coil(2.0, 1.0, current=Ic)
    W = m.Wall([0.75, 1.5, 1.5, 0.75], [-0.5, -0.5, 0.5, 0.5]) if wall else None
    with stubs(ctx, critical__find_critical=no_critical):
        tok = m.Machine([("C", coil)], R0=R0)
        tok.wall = W
        eq = ctx.fg.equilibrium.Equilibrium(tok, Rmin=dom[0], Rmax=dom[1], Zmin=dom[2], Zmax=dom[3], nx=nx, ny=ny, boundary=bnd, psi=P.copy(), current=Ip, order=order)
        eq.check_limited = lim
        tot = eq.psi().copy()
        f = write(ctx, eq)
        eq.plasma_psi = eq.plasma_psi * 2
        new = read(ctx, f)
    for n, v in zip(("Rmin", "Rmax", "Zmin", "Zmax"), dom):
        ctx.equal("domain_" + n, getattr(new, n), v, rtol=1e-12)
    ctx.check("resolution", (new.nx, new.ny) == (nx, ny) and new.R.shape == (nx, ny))
    psi = new.psi()
    for i in range(nx):
        for j in range(ny):
            ctx.equal("plasma_psi", new.plasma_psi[i, j], P[i, j], rtol=1e-12)
            ctx.equal("psi", psi[i, j], tot[i, j])
    ctx.equal("plasma_current", new.plasmaCurrent(), Ip, rtol=1e-12)
    ctx.check("boundary", new._applyBoundary is bnd)
    ctx.check("check_limited", bool(new.check_limited) == lim)
    ctx.check("order", new.order == order)
    ctx.equal("R0", new.tokamak.R0, R0, rtol=1e-12)
    w = new.tokamak.wall
    if wall:
        for k in range(4):
            ctx.equal("wall_R", w.R[k], W.R[k], rtol=1e-12)
            ctx.equal("wall_Z", w.Z[k], W.Z[k], rtol=1e-12)
    else:
        ctx.check("no_wall", w is None)



@H("coil_area", bounds="any fixed cross-section (KF02)")
def coil_area(ctx):
    """a coil given a fixed cross-section keeps it"""
    m = ctx.fg.machine
    A = ctx.real("area", 0.125, 2)
    P = ctx.arr([[exact(ctx, 0.125 * (i - 2 * j)) for j in range(9)] for i in range(9)])
    with stubs(ctx, critical__find_critical=no_critical):
        tok = m.Machine([("C", m.Coil(2.0, -1.0, current=5.0, area=A))])
        ctx.equal("area", tok["C"].area, A)
        new = read(ctx, write(ctx, ctx.fg.equilibrium.Equilibrium(tok, Rmin=0.5, Rmax=2.5, Zmin=-1.0, Zmax=1.0, nx=9, ny=9, psi=P)))
    ctx.equal("area_restored", new.tokamak["C"].area, A)
