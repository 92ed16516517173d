"""C24  Sensors."""
from .common import *
from .c09 import ref_grid
from .c27 import Prof, solved, fdom, coils, poly, coil_sum, crit_points

HARNESSES = H = Harnesses()
ENCODES = ["freegs.machine.{Sensor,RogowskiSensor,PoloidalFieldSensor,FluxLoopSensor}.{__init__,get_measure}",
           "freegs.machine.Machine.{takeMeasurements,printMeasurements}",
           "freegs.machine.{Circuit,Solenoid}.inShape", "freegs.coil.Coil.inShape", "freegs.shaped_coil.ShapedCoil.inShape",
           "freegs.filament_coil.FilamentCoil.inShape", "freegs.multi_coil.MultiCoil.inShape",
           "freegs.equilibrium.Equilibrium.{psiRZ,plasmaBr,plasmaBz}"]
BOUNDS = "any probe position and angle with a cubic plasma flux and 2 coils; Rogowski loops: any axis-aligned rectangle, and fixed L-shaped and triangular loops, round coils of every kind at any position, any current, turns, multiplier, and any current density on a 5x5 grid"
ASSUMPTIONS = ["shapely: strict containment and exact polygon areas", "filaments and coil outlines do not touch the loop within 1e-6"]

ELL = [(0.5, -1.0), (2.5, -1.0), (2.5, 0.0), (1.5, 0.0), (1.5, 1.0), (0.5, 1.0)]


# boxes (r0, r1, z0, z1) covering the positions, and whether they are inside the loop
BOXES = [((0.5, 2.5, -1, 0), 1), ((0.5, 1.5, 0, 1), 1), ((0.5, 1.5, -0.5, 0.5), 1), ((1.5, 3, 0, 1.5), 0), ((0.3, 0.5, -1.5, 1.5), 0),
         ((2.5, 3, -1.5, 1.5), 0), ((0.3, 3, -1.5, -1), 0), ((0.3, 3, 1, 1.5), 0)]


def in_ell(ctx, tag, r, z, boxes=None):
    """put a filament in one of the boxes; is it inside the loop"""
    boxes = boxes or range(len(BOXES))
    (a, b, c, d), inside = BOXES[boxes[ctx.choose("box" + tag, len(boxes))]]
    m = 1e-6
    for cond in (r >= a + m, r <= b - m, z >= c + m, z <= d - m):
        ctx.assume(cond)
    return inside


def loop(ctx, pts, **k):
    return ctx.fg.machine.RogowskiSensor([p[0] for p in pts], [p[1] for p in pts], **k)


def around(ctx, pts, elements):
    s = loop(ctx, pts, name="rog")
    tok = ctx.fg.machine.Machine(elements, sensors=[s])
    tok.takeMeasurements()
    return s.measurement


def near(ctx, tag=""):
    return ctx.real("Rc" + tag, 0.3, 3), ctx.real("Zc" + tag, -1.5, 1.5)


SC = 1e6


@H("loop_coils", bounds="L-shaped loop; every coil kind, any position, turns and current")
def loop_coils(ctx):
    """the loop reads the sum over filaments inside it of turns times current"""
    m = ctx.fg.machine
    I = ctx.real("I", -1e4, 1e4)
    n = ctx.real("turns", 1, 50)
    kind = ctx.choose("kind", 5)
    want = 0
    if kind == 0:
        r, z = near(ctx)
        c = m.Coil(r, z, current=I, turns=n)
        fil = [(r, z, n)]
    elif kind == 1:
        p = [near(ctx, i) for i in "ab"]
        c = m.FilamentCoil(Rfil=[v[0] for v in p], Zfil=[v[1] for v in p], current=I, turns=n)
        fil = [(r, z, n / 2) for r, z in p]
    elif kind == 2:
        r, z = near(ctx)
        pol = [ctx.real("pol%d" % i, -1, 1) for i in range(2)]
        mir = bool(ctx.choose("mirror", 2))
        c = m.MultiCoil(r, z, current=I, turns=n, mirror=mir, polarity=pol)
        fil = [(r, z, n * pol[0])] + ([(r, -z, n * pol[1])] if mir else [])
    elif kind == 3:
        p = [near(ctx, i) for i in "ab"]
        c = m.MultiCoil([v[0] for v in p], [v[1] for v in p], current=I)
        fil = [(r, z, 1) for r, z in p]
    else:
        r = ctx.real("Rs", 0.3, 3)
        z0, z1 = ctx.real("Zmin", -1.4, -0.1), ctx.real("Zmax", 0.1, 1.4)
        c = m.Solenoid(r, z0, z1, 3, current=I)
        fil = [(r, z0 + (z1 - z0) * q(ctx, i, 2), 1) for i in range(3)]
    for k, (r, z, w) in enumerate(fil):
        if in_ell(ctx, str(k), r, z, None if k == 0 or kind == 3 else (0, 1, 3, 5)):
            want = want + w * I
    ctx.equal("loop_reading", around(ctx, ELL, [("A", c)]), want, scale=mag(ctx, I * n))
    ctx.equal("current_kept", c.current, I)


@H("circuits", bounds="two members with any positions, turns and multipliers, plus a coil beside the circuit")
def circuits(ctx):
    """members of a circuit count with their multiplier; elements add up"""
    m = ctx.fg.machine
    I, I2 = ctx.real("I", -1e4, 1e4), ctx.real("I2", -1e4, 1e4)
    mu = [ctx.real("mult%d" % i, -3, 3) for i in range(2)]
    n = ctx.real("turns", 1, 50)
    p = [near(ctx, i) for i in "ab"]
    cs = [m.Coil(p[0][0], p[0][1], turns=n), m.Coil(p[1][0], p[1][1])]
    cir = m.Circuit([("a", cs[0], mu[0]), ("b", cs[1], mu[1])], current=exact(ctx, 1))
    cir.current = I
    extra = m.Coil(1.0, 0.5, current=I2)
    want = I2
    for (r, z), u, t, k in zip(p, mu, (n, 1), "ab"):
        if in_ell(ctx, k, r, z, (0, 1, 3, 5)):
            want = want + u * t * I
    ctx.equal("circuit_reading", around(ctx, ELL, [("C", cir), ("X", extra)]), want, scale=mag(ctx, I * n, I2))


def overlap(ctx, a0, a1, b0, b1):
    lo = a0 if bool(a0 >= b0) else b0
    hi = a1 if bool(a1 <= b1) else b1
    return hi - lo if bool(hi > lo) else 0


@H("shaped", bounds="any rectangular loop, rectangular and L-shaped coil outlines, moved by any displacement")
def shaped(ctx):
    """a shaped coil counts with the fraction of its cross-section inside the loop"""
    m = ctx.fg.machine
    I, n = ctx.real("I", -1e4, 1e4), ctx.real("turns", 1, 50)
    boxes = ([(1.0, 1.5, -0.25, 0.25)], [(1.0, 1.5, -0.25, 0.25), (1.5, 2.0, -0.25, 0.0)])[ctx.choose("outline", 2)]
    if len(boxes) == 1:
        shape = [(1.0, -0.25), (1.5, -0.25), (1.5, 0.25), (1.0, 0.25)]
    else:
        shape = [(1.0, -0.25), (2.0, -0.25), (2.0, 0.0), (1.5, 0.0), (1.5, 0.25), (1.0, 0.25)]
    area = sum((b[1] - b[0]) * (b[3] - b[2]) for b in boxes)
    c = m.ShapedCoil(shape, current=I, turns=n, npoints=1)
    d = ctx.real("moved", -0.5, 0.5)
    c.Z = c.Z + d
    r0, r1 = ctx.real("r0", 0.5, 1.9), ctx.real("r1", 0.6, 2.5)
    z0, z1 = exact(ctx, -0.125), ctx.real("z1", 0.0, 1)
    ctx.assume(r1 >= r0 + 0.125)
    tot = 0
    for b in boxes:
        tot = tot + overlap(ctx, r0, r1, exact(ctx, b[0]), exact(ctx, b[1])) * overlap(ctx, z0, z1, b[2] + d, b[3] + d)
    pts = [(r0, z0), (r1, z0), (r1, z1), (r0, z1)]
    if ctx.choose("orientation", 2):
        pts = pts[::-1]
    ctx.equal("shaped_reading", around(ctx, pts, [("S", c)]), tot * n * I / exact(ctx, area), scale=mag(ctx, I * n))


def plasma(ctx, J, P=None, tok=None):
    zero = ctx.arr([[exact(ctx, 0)] * 5 for _ in range(5)])
    tok = tok or ctx.fg.machine.Machine([])
    o, x = [(exact(ctx, 1.5), exact(ctx, 0), exact(ctx, 1))], [(exact(ctx, 1.5), exact(ctx, -0.75), exact(ctx, 0))]
    return solved(ctx, zero if P is None else P, Prof(ctx), tok, fdom(ctx), o, x, mask=zero + 1, J=J)


@H("plasma_loop", bounds="any current density at 25 nodes; any rectangular loop", budget=400)
def plasma_loop(ctx):
    """the plasma part is the current density integrated over the loop, each node standing for the cell round it"""
    J = ctx.array("J", (5, 5), -1e6, 1e6)
    I = ctx.real("I", -1e4, 1e4)
    c = ctx.fg.machine.Coil(1.5, 0.0, current=I)
    kind = ctx.choose("loop", 3)
    if kind == 0:
        r0, r1 = ctx.real("r0", 0.3, 1.45), ctx.real("r1", 1.55, 2.7)
        z0, z1 = exact(ctx, -0.875), exact(ctx, 0.3125)
        boxes = [(r0, r1, z0, z1)]
        pts = [(r0, z0), (r0, z1), (r1, z1), (r1, z0)]
    elif kind == 1:
        z0, z1 = ctx.real("z0", -1.2, -0.1), ctx.real("z1", 0.1, 1.2)
        r0, r1 = exact(ctx, 1.0625), exact(ctx, 2.25)
        boxes = [(r0, r1, z0, z1)]
        pts = [(r0, z0), (r1, z0), (r1, z1), (r0, z1)]
    else:
        pts = [(0.75, -0.875), (2.25, -0.875), (2.25, 0.125), (1.3125, 0.125), (1.3125, 0.9375), (0.75, 0.9375)]
        pts = [(exact(ctx, a), exact(ctx, b)) for a, b in pts]
        e = lambda *v: tuple(exact(ctx, w) for w in v)
        boxes = [e(0.75, 2.25, -0.875, 0.125), e(0.75, 1.3125, 0.125, 0.9375)]
    eq = plasma(ctx, J.copy())
    s = loop(ctx, pts)
    tok = ctx.fg.machine.Machine([] if kind == 2 else [("C", c)], sensors=[s])
    tok.takeMeasurements(eq)
    want = 0 if kind == 2 else I
    Rs, Zs = ref_grid(ctx, fdom(ctx), 5, 5)
    h = q(ctx, 1, 4)
    for b in boxes:
        wr = [overlap(ctx, b[0], b[1], r - h, r + h) for r in Rs]
        wz = [overlap(ctx, b[2], b[3], z - h, z + h) for z in Zs]
        for i in range(5):
            for j in range(5):
                want = want + J[i, j] * wr[i] * wz[j]
    ctx.equal("plasma_reading", s.measurement, want, scale=mag(ctx, J))
    tok.takeMeasurements()
    ctx.equal("without_plasma", s.measurement, 0 if kind == 2 else I, scale=mag(ctx, J))


@H("probes", bounds="cubic plasma flux, 2 coils, any position and angle, with or without plasma, repeated after a current change", spline_fork=True)
def probes(ctx):
    """field probes read (plasma + coils) Br cos(theta) + Bz sin(theta); flux loops the total flux; sensors that are off keep their value"""
    m = ctx.fg.machine
    tok, cs = coils(ctx)
    f = poly(ctx)
    Rs, Zs = ref_grid(ctx, fdom(ctx), 5, 5)
    P = ctx.arr([[f(r, z) for z in Zs] for r in Rs])
    a, b, o, x = crit_points(ctx)
    r, z, th = ctx.real("r0", 0.5, 2.5), ctx.real("z0", -1, 1), ctx.real("theta", -7, 7)
    withp = ctx.choose("plasma", 2)
    eq = solved(ctx, P, Prof(ctx), tok, fdom(ctx), o, x, mask=ctx.arr([[1.0] * 5] * 5)) if withp else None
    old = ctx.real("old", -2, 2)
    probe = m.PoloidalFieldSensor(r, z, th, name="B")
    fl = m.FluxLoopSensor(r, z)
    off = m.PoloidalFieldSensor(r, z, th, measurement=old)
    off2 = m.FluxLoopSensor(r, z, name="off", measurement=old)
    off3 = m.RogowskiSensor([0.5, 2.5, 2.5, 0.5], [-1.0, -1.0, 1.0, 1.0], measurement=old)
    never = m.FluxLoopSensor(r, z, status=False)
    for s in (off, off2, off3):
        s.status = False
    tok.sensors = [off, probe, off2, fl, never, off3]
    SC = 30.0 if not ctx.symbolic else None
    for step in range(2):
        if step:
            cs[0].current = ctx.real("I0_later", -2, 2)
        (tok.printMeasurements if step else tok.takeMeasurements)(eq=eq)
        br, bz, p = (coil_sum(cs, k, r, z) for k in ("br", "bz", "psi"))
        if withp:
            br, bz, p = br - f(r, z, 0, 1) / r, bz + f(r, z, 1, 0) / r, p + f(r, z)
        ctx.equal("probe", probe.measurement, br * cos(ctx, th) + bz * sin(ctx, th), scale=SC)
        ctx.equal("flux_loop", fl.measurement, p, scale=SC)
        for s in (off, off2, off3):
            ctx.equal("off_unchanged", s.measurement, old)
        ctx.check("never_measured", getattr(never, "measurement", None) is None)


@H("no_sensors", bounds="machines without sensors")
def no_sensors(ctx):
    """measuring on a machine without sensors does nothing"""
    m = ctx.fg.machine
    I = ctx.real("I", -1, 1)
    c = m.Coil(1.0, 0.0, current=I)
    tok = m.Machine([("C", c)], sensors=[] if ctx.choose("empty", 2) else None)
    tok.takeMeasurements()
    tok.printMeasurements()
    ctx.equal("current", c.current, I)


@H("equality", bounds="all kinds of sensor at arbitrary places; one coordinate changed by 0.01 to 0.2 either way, or none")
def equality(ctx):
    """sensors are equal exactly when they are at the same place"""
    m = ctx.fg.machine
    kind, what, sign = ctx.choose("kind", 3), ctx.choose("what", 3), 1 - 2 * ctx.choose("sign", 2)
    d = ctx.real("d", 0.01, 0.2) * sign
    R, Z = ctx.real("R", 0.5, 2), ctx.real("Z", -2, 2)

    def mk(r, z):
        if kind == 0:
            return m.RogowskiSensor([r, r + 1, r + 1], [z, z, z + 1])
        return m.PoloidalFieldSensor(r, z, 0.5) if kind == 1 else m.FluxLoopSensor(r, z)
    a, b = mk(R, Z), mk(R + (d if what == 1 else 0), Z + (d if what == 2 else 0))
    ctx.check("equal", bool(a == b) == (what == 0) and bool(b == a) == (what == 0))
    ctx.check("not_equal", bool(a != b) == (what != 0))
