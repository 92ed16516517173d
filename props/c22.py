"""C22  GEQDSK files."""
import sys

from .common import *
from .c09 import ref_grid
from .c27 import solved

HARNESSES = H = Harnesses()
ENCODES = ["freegs.geqdsk.{write,read,isPow2,ceilPow2}", "freegs.equilibrium.Equilibrium.{__init__,psi,fpol,fvac,pressure,pprime,ffprime,q,plasmaCurrent}",
           "freegs.jtor.ProfilesPprimeFfprime", "freegs.machine.Machine.generate_limit_points"]
BOUNDS = "5x5, 5x9 and 9x9 grids with arbitrary flux, domain, axis and boundary flux; cubic profiles; 5 boundary points in any position; read: arbitrary flux map and profile values at 9 points"
ASSUMPTIONS = ["searches for axis, X-points, core mask, boundary curve and safety factor return arbitrary values (C14-C16, C32)",
               "current fits and the Picard iteration are replaced by recorders (C18, C19)", "the text format itself is freeqdsk's"]


class CubicProf:
    def __init__(self, ctx):
        self.a = {k: ctx.reals(k + "_", 4, -2, 2) for k in ("fpol", "pprime", "ffprime", "pressure")}
        self.fv = ctx.real("fvac", 1, 2)

    def _e(self, k, x):
        c = self.a[k]
        return c[0] + x * (c[1] + x * (c[2] + x * c[3]))

    def fpol(self, x):
        return self._e("fpol", x)

    def pprime(self, x):
        return self._e("pprime", x)

    def ffprime(self, x):
        return self._e("ffprime", x)

    def pressure(self, x):
        return self._e("pressure", x)

    def fvac(self):
        return self.fv

    def Jtor(self, R, Z, psi, psi_bndry=None):
        return psi * 0


def axis(ctx):
    r, z, a, b = ctx.real("Rax", 1.25, 1.75), ctx.real("Zax", -0.25, 0.25), ctx.real("psi_axis", 1, 2), ctx.real("psi_x", -1, 0.5)
    return [(r, z, a)], [(exact(ctx, 1.5), exact(ctx, -0.75), b)]


class Capture:
    def __call__(self, data, fh, label=None, **k):
        self.data, self.fh, self.label = data, fh, label


NQ = 5


@H("write", bounds="5x5, 5x9 and 9x5 grids, arbitrary flux at every node, cubic profiles, cubic q, 5 boundary points")
def write(ctx):
    """every quantity in the file is the equilibrium's, with the flux measured from the magnetic axis"""
    nx, ny = ((5, 5), (5, 9), (9, 5))[ctx.choose("grid", 3)]
    P = ctx.array("P", (nx, ny), -2, 2)
    dom = ctx.real("Rmin", 0.25, 1), ctx.real("Rmax", 1.5, 3), ctx.real("Zmin", -2, -0.5), ctx.real("Zmax", 0.5, 2)
    prof = CubicProf(ctx)
    I, R0 = ctx.real("I", -2, 2), ctx.real("R0", 0.5, 3)
    c = LinCoil(ctx, "c", I)
    tok = ctx.fg.machine.Machine([("C", c)], R0=R0)
    if ctx.choose("wall", 2):
        tok.wall = ctx.fg.machine.Wall([0.5, 2.5, 2.5, 0.5], [-1.0, -1.0, 1.0, 1.0])
    o, x = axis(ctx)
    mask = ctx.arr([[1.0] * ny] * nx)
    J = ctx.arr([[ctx.real("J", -2, 2)] * ny] * nx)
    eq = solved(ctx, P, prof, tok, dom, o, x, mask=mask, J=J)
    low = ctx.choose("lowest", 3) * 2
    pts = [(ctx.real("rb%d" % k, 0.5 + 0.25 * k, 0.625 + 0.25 * k), ctx.real("zb%d" % k, -0.25, 1) if k != low else ctx.real("zlow%d" % k, -1, -0.5)) for k in range(5)]
    qc = ctx.reals("q_", 4, -2, 2)

    def fs(eq, npsi=1, psinorm=None, **k):
        return qc[0] + psinorm * (qc[1] + psinorm * (qc[2] + psinorm * qc[3]))

    def sep(eq, opoint=None, xpoint=None, ntheta=20, psi=None, axis=None, psival=1.0):
        return [tuple(p) for p in pts]
    given = ctx.choose("oxpoints_given", 2)
    cap = Capture()
    fh = object()
    with stubs(ctx, critical__find_critical=fixed_critical(o, x), critical__find_separatrix=sep, critical__find_safety=fs):
        ctx.fg.geqdsk.write(eq, fh, label="LAB", oxpoints=(o, x) if given else None, fileformat=cap)
    d = cap.data
    ctx.check("handle_and_label", cap.fh is fh and cap.label == "LAB")
    ctx.check("size", d["nx"] == nx and d["ny"] == ny)
    ax, bx = o[0][2], x[0][2]
    for n, v in dict(rdim=dom[1] - dom[0], zdim=dom[3] - dom[2], rleft=dom[0], zmid=(dom[2] + dom[3]) / 2, rcentr=R0, rmagx=o[0][0], zmagx=o[0][1],
                     cpasma=eq.plasmaCurrent()).items():
        ctx.equal("file_" + n, d[n], v)
    ctx.equal("file_bcentr", d["bcentr"] * R0, prof.fv)
    ctx.equal("flux_difference", d["sibdry"] - d["simagx"], bx - ax)
    Rs, Zs = ref_grid(ctx, dom, nx, ny)
    for i in range(nx):
        for j in range(ny):
            g = c.g["psi"]
            want = P[i, j] + I * (g[0] + g[1] * Rs[i] + g[2] * Zs[j]) - ax
            ctx.equal("file_psi", d["psi"][i, j] - d["simagx"], want, scale=30.0 if not ctx.symbolic else None)
    for i in range(nx):
        s = q(ctx, i, nx - 1)
        for n, k in (("fpol", "fpol"), ("pres", "pressure"), ("ffprime", "ffprime"), ("pprime", "pprime")):
            ctx.equal("file_" + n, d[n][i], prof._e(k, s))
        if 0 < i < nx - 1:
            ctx.equal("file_q", d["qpsi"][i], fs(None, psinorm=s))
        else:
            # not defined on the axis and the boundary: the next surface's value
            ctx.equal("file_q_end", d["qpsi"][i], fs(None, psinorm=q(ctx, 1 if i == 0 else nx - 2, nx - 1)))
    ctx.check("profile_lengths", all(len(d[n]) == nx for n in ("fpol", "pres", "ffprime", "pprime", "qpsi")))
    if tok.wall is not None:
        ctx.check("wall", list(d["rlim"]) == [0.5, 2.5, 2.5, 0.5] and list(d["zlim"]) == [-1.0, -1.0, 1.0, 1.0])
    else:
        ctx.check("no_wall", "rlim" not in d)
    # closed boundary curve through every point in order (from any start, in either direction)
    rb, zb = d["rbdry"], d["zbdry"]
    ctx.check("boundary_length", len(rb) == 6 and len(zb) == 6)
    opts = [[pts[(k0 + s * k) % 5] for k in range(6)] for k0 in range(5) for s in (1, -1)]
    ctx.check("boundary_curve", S.b_or(*[S.b_and(*[S.b_and(rb[k] == o[k][0], zb[k] == o[k][1]) for k in range(6)]) for o in opts]))


class Fit:
    log = []

    def __init__(self, target, weights=None, current_lims=None):
        self.target, self.weights, self.lims = target, weights, current_lims
        Fit.log.append(self)
        self.eq = None

    def __call__(self, eq):
        self.eq = eq


def kind(name):
    return type(name, (Fit,), {})


@contextlib.contextmanager
def file_reader(ctx, data, log):
    """the file holds the given data"""
    import freeqdsk.geqdsk as real

    def rd(fh, cocos=1, **k):
        log.append((fh, cocos))
        if not hasattr(real, "GEQDSKFile"):
            return dict(data)
        f = real.GEQDSKFile.__new__(real.GEQDSKFile)   # what the installed freeqdsk returns
        for k in ("rbdry", "zbdry", "rlim", "zlim"):
            setattr(f, k, None)
        for k, v in data.items():
            setattr(f, k, v)
        return f
    undo = []
    orig = real.read
    for m in [real] + [m for k, m in list(sys.modules.items()) if k.startswith("freegs") and m is not None]:
        for k, v in list(vars(m).items()):
            if v is orig:
                undo.append((m, k))
                setattr(m, k, rd)
    try:
        yield
    finally:
        for m, k in undo:
            setattr(m, k, orig)


def cubic(c, t, d=0):
    if d == 0:
        return c[0] + t * (c[1] + t * (c[2] + t * c[3]))
    return c[1] + 2 * t * c[2] + 3 * t * t * c[3]


CORE = [(2, 4), (3, 4), (3, 5)]


def file_data(ctx, nx, ny, wall):
    """flux map with one arbitrary node in the core and some outside; profiles cubic (p) and linear (f)"""
    real = (lambda n, lo, hi: exact(ctx, 0.375 * lo + 0.625 * hi)) if wall else ctx.real    # the limiter search needs a concrete flux map
    a, b = real("simagx", 1, 2), real("sibdry", -1, 0.5)
    t = real("psin", 0, 1)
    free = {(0, 0): 0, (3, 2): 1, (4, 7): 2}
    psi = ctx.arr([[a + (b - a) * t if (i, j) == CORE[0] else a + (b - a) * q(ctx, 1 + i, 8) if (i, j) in CORE
                    else real("P%d" % free[(i, j)], -20, -10) if (i, j) in free else exact(ctx, 5.0 + i) for j in range(ny)] for i in range(nx)])
    s = [q(ctx, i, nx - 1) for i in range(nx)]
    pc, fc = ctx.reals("p_", 4, -2, 2), [ctx.real("f0", 1, 2), ctx.real("f1", -0.5, 0.5), exact(ctx, 0), exact(ctx, 0)]
    d = dict(nx=nx, ny=ny, psi=psi, simagx=a, sibdry=b, rdim=real("rdim", 1, 2), zdim=real("zdim", 1, 3), rleft=real("rleft", 0.25, 1),
             zmid=real("zmid", -0.5, 0.5), rcentr=ctx.real("rcentr", 0.5, 2), bcentr=ctx.real("bcentr", -2, 2), cpasma=ctx.real("cpasma", -2, 2),
             rmagx=ctx.real("rmagx", 1, 2), zmagx=ctx.real("zmagx", -0.25, 0.25),
             pres=ctx.arr([cubic(pc, t) for t in s]), fpol=ctx.arr([cubic(fc, t) for t in s]), qpsi=ctx.arr([1 + t for t in s]),
             ffprime=ctx.arr([t * 0 for t in s]), pprime=ctx.arr([t * 0 for t in s]))
    if wall:
        d["rlim"], d["zlim"] = np.array([0.5, 2.5, 2.5, 0.5]), np.array([-1.0, -1.0, 1.0, 1.0])
    return d, pc, fc, t


def run_read(ctx, d, tok, mask, **kw):
    rec = dict(log=[], picard=None)
    Fit.log = []
    o, x = [(exact(ctx, 1.5), exact(ctx, 0), d["simagx"])], [(exact(ctx, 1.5), exact(ctx, -0.75), d["sibdry"])]

    def pic(eq, profiles, constrain=None, **k):
        rec["picard"] = (eq, profiles, constrain, k)
    names = ["ConstrainPsi2D", "ConstrainPsi2DAdvanced", "ConstrainPsiNorm2D", "ConstrainPsiNorm2DAdvanced"]
    st = {"control__" + n: kind(n) for n in names}
    def crit(R, Z, psi, *a, **k):
        rec["fluxes"].append(psi.copy())
        return list(o), list(x)
    rec["fluxes"] = []
    st.update(critical__find_critical=crit, critical__core_mask=lambda R, Z, psi, op, xp=(), pb=None: mask.copy() if psi.shape == mask.shape else psi * 0,
              critical__find_separatrix=lambda *a, **k: [(exact(ctx, 1.25), exact(ctx, 0)), (exact(ctx, 1.75), exact(ctx, 0))],
              picard__solve=pic, multigrid__createVcycle=lambda *a, **k: (lambda x, b: x))   # the linear solve is a recorder below
    fh = object()
    E = ctx.fg.equilibrium.Equilibrium
    orig = E.solve
    rec["solves"] = []

    def solve(self, profiles, Jtor=None, **k):
        rec["solves"].append((self, profiles, Jtor, len(rec["fluxes"])))
        self._profiles = profiles
        self.Jtor = Jtor
    E.solve = solve
    try:
        with stubs(ctx, **st), file_reader(ctx, d, rec["log"]):
            rec["eq"] = ctx.fg.geqdsk.read(fh, tok, **kw)
    finally:
        E.solve = orig
    ctx.check("file_read", len(rec["log"]) == 1 and rec["log"][0][0] is fh)
    return rec


@H("read", bounds="5x9 flux map, profile values of cubic p and linear f, arbitrary domain", budget=300)
def read(ctx):
    """grid, flux, wall, field and profile functions handed to the reconstruction are those of the file"""
    nx, ny = 5, 9
    wall, bounded, sol = ((0, 0, False), (1, 0, True), (1, 1, False), (0, 1, True))[ctx.choose("options", 4)]
    d, pc, fc, s = file_data(ctx, nx, ny, wall)
    core = CORE
    mask = ctx.arr([[1.0 if (i, j) in core else 0.0 for j in range(ny)] for i in range(nx)])
    coil = ctx.fg.machine.Coil(3.0, 1.0) if wall else LinCoil(ctx, "c", ctx.real("I", -2, 2))
    tok = ctx.fg.machine.Machine([("C", coil)])
    bounds = [(-1.0, 2.0)] if bounded else None
    kw = dict(fit_sol=sol, rtol=1e-4, blend=0.25, maxits=30)
    if bounds:
        kw["current_bounds"] = bounds
    rec = run_read(ctx, d, tok, mask, cocos=3, **kw)
    ctx.check("cocos", rec["log"][0][1] == 3)
    eq = rec["eq"]
    peq, prof, con, opts = rec["picard"]
    ctx.check("solved_the_result", peq is eq and eq.tokamak is tok)
    ctx.check("options", opts.get("rtol") == 1e-4 and opts.get("blend") == 0.25 and (bounds is not None or opts.get("maxits") == 30))
    for n, v in (("Rmin", d["rleft"]), ("Rmax", d["rleft"] + d["rdim"]), ("Zmin", d["zmid"] - d["zdim"] / 2), ("Zmax", d["zmid"] + d["zdim"] / 2)):
        ctx.equal("domain_" + n, getattr(eq, n), v)
    ctx.check("resolution", eq.R.shape == (nx, ny))
    ctx.equal("R0", tok.R0, d["rcentr"])
    if wall:
        ctx.check("wall", list(tok.wall.R) == [0.5, 2.5, 2.5, 0.5] and list(tok.wall.Z) == [-1.0, -1.0, 1.0, 1.0])
        ctx.check("limit_points", tok.limit_points_R is not None and len(tok.limit_points_R) == len(tok.limit_points_Z) > 4)
    # the plasma in the file is found in the file's flux, whatever the coils carry
    for i in range(nx):
        for j in range(ny):
            ctx.equal("searched_flux", rec["fluxes"][rec["solves"][0][3] - 1][i, j], d["psi"][i, j])
    # profiles
    rng = d["sibdry"] - d["simagx"]
    ctx.equal("pressure", prof.pressure(s), cubic(pc, s), scale=10.0 if not ctx.symbolic else None)
    ctx.equal("pprime", prof.pprime(s) * rng, cubic(pc, s, 1), scale=10.0 if not ctx.symbolic else None)
    ctx.equal("fpol", prof.fpol(s), cubic(fc, s), scale=10.0 if not ctx.symbolic else None)
    ctx.equal("ffprime", prof.ffprime(s) * rng, cubic(fc, s) * cubic(fc, s, 1), scale=10.0 if not ctx.symbolic else None)
    ctx.equal("fvac", prof.fvac(), d["rcentr"] * d["bcentr"])
    # first solve: current density inside the core
    ctx.check("one_linear_solve", len(rec["solves"]) == 1 and rec["solves"][0][1] is prof)
    J = rec["solves"][0][2]
    Rs, Zs = ref_grid(ctx, (d["rleft"], d["rleft"] + d["rdim"], 0, 1), nx, ny)
    for i, j in core + [(0, 0), (3, 2)]:
        t = s if (i, j) == core[0] else q(ctx, 1 + i, 8)
        if (i, j) in core:
            want = Rs[i] * cubic(pc, t, 1) / rng + cubic(fc, t) * cubic(fc, t, 1) / rng / (Rs[i] * mu0(ctx))
        else:
            want = 0
        ctx.equal("Jtor", J[i, j], want, scale=1e8 if not ctx.symbolic else None)
    # fits
    ctx.check("two_fits", len(Fit.log) == 2)
    f1, f2 = Fit.log
    ctx.check("fit_kinds", type(f1).__name__ == ("ConstrainPsi2DAdvanced" if bounds else "ConstrainPsi2D")
              and type(f2).__name__ == ("ConstrainPsiNorm2DAdvanced" if bounds else "ConstrainPsiNorm2D"))
    ctx.check("fit_limits", f1.lims == bounds and f2.lims == bounds)
    ctx.check("fits_used", f1.eq is eq and con is f2)
    for i in range(nx):
        for j in range(ny):
            ctx.equal("fit_target", f1.target[i, j], d["psi"][i, j])
            if not sol:
                ctx.check("fit_weight", f1.weights[i, j] == mask[i, j])
            ctx.check("fit2_weight", f2.weights[i, j] == mask[i, j])
    for i, j in core:
        ctx.equal("fit2_target", f2.target[i, j] * rng, d["psi"][i, j] - d["simagx"])
    if sol:
        ctx.check("whole_domain_fitted", f1.weights is None)


@H("resize", bounds="4x6 file (not 2^n+1), arbitrary flux map, cubic p, linear f")
def resize(ctx):
    """a file whose grid is not 2^n+1 is interpolated linearly onto a grid that is, over the same domain"""
    nx, ny = 4, 6
    d, pc, fc, s = file_data(ctx, nx, ny, False)
    P = ctx.array("P", (nx, ny), -2, 2)
    d["psi"] = P
    mask = ctx.arr([[1.0 if (i, j) in CORE else 0.0 for j in range(9)] for i in range(5)])
    tok = ctx.fg.machine.Machine([("C", ctx.fg.machine.Coil(3.0, 1.0))])
    rec = run_read(ctx, d, tok, mask)
    eq, prof = rec["eq"], rec["picard"][1]
    ctx.check("resolution", eq.R.shape == (5, 9))
    for n, v in (("Rmin", d["rleft"]), ("Rmax", d["rleft"] + d["rdim"]), ("Zmin", d["zmid"] - d["zdim"] / 2), ("Zmax", d["zmid"] + d["zdim"] / 2)):
        ctx.equal("domain_" + n, getattr(eq, n), v)
    f1 = Fit.log[0]
    for i in range(5):
        for j in range(9):
            i0, j0 = min(3 * i // 4, 2), min(5 * j // 8, 4)
            u, v = q(ctx, 3 * i - 4 * i0, 4), q(ctx, 5 * j - 8 * j0, 8)
            want = (P[i0, j0] * (1 - u) + P[i0 + 1, j0] * u) * (1 - v) + (P[i0, j0 + 1] * (1 - u) + P[i0 + 1, j0 + 1] * u) * v
            ctx.equal("interpolated", f1.target[i, j], want, scale=4.0 if not ctx.symbolic else None)
    ctx.equal("pressure", prof.pressure(s), cubic(pc, s), scale=10.0 if not ctx.symbolic else None)
    ctx.equal("fpol", prof.fpol(s), cubic(fc, s), scale=10.0 if not ctx.symbolic else None)


@H("domain", bounds="5x9 file read onto the same, a wider, a taller and a smaller domain; arbitrary profiles")
def domain(ctx):
    """reading onto another domain keeps the file's flux, current density and plasma where the grids coincide"""
    nx, ny = 5, 9
    d, pc, fc, s = file_data(ctx, nx, ny, True)
    for k in ("rlim", "zlim"):
        del d[k]
    d["rleft"], d["rdim"], d["zmid"], d["zdim"] = [exact(ctx, v) for v in (0.5, 1.0, 0.0, 2.0)]
    new, shape, off, step = [((0.5, 1.5, -1.0, 1.0), (5, 9), (0, 0), 1), ((0.5, 2.5, -1.0, 1.0), (9, 9), (0, 0), 1), ((0.5, 1.5, -1.0, 3.0), (5, 17), (0, 0), 1),
                             ((0.0625, 1.5, -1.0, 1.0), (9, 9), None, None), ((0.75, 1.25, -1.0, 1.0), (5, 9), (1, 0), 2)][ctx.choose("new", 5)]
    mask = ctx.arr([[1.0 if (i, j) in CORE else 0.0 for j in range(ny)] for i in range(nx)])
    tok = ctx.fg.machine.Machine([("C", ctx.fg.machine.Coil(3.0, 1.0))])
    rec = run_read(ctx, d, tok, mask, domain=new)
    eq, prof = rec["eq"], rec["picard"][1]
    for n, v in zip(("Rmin", "Rmax", "Zmin", "Zmax"), new):
        ctx.equal("domain_" + n, getattr(eq, n), v)
    ctx.check("resolution", eq.R.shape == shape)
    ctx.check("same_profiles", rec["picard"][0] is eq and rec["solves"][-1][0] is eq and rec["solves"][-1][1] is prof)
    ctx.equal("pressure", prof.pressure(s), cubic(pc, s), scale=10.0 if not ctx.symbolic else None)
    f1, f2 = Fit.log
    ctx.check("fits_used", f1.eq is eq and rec["picard"][2] is f2)
    J = rec["solves"][-1][2]
    ctx.check("shapes", f1.target.shape == shape and f2.target.shape == shape and f1.weights.shape == shape and f2.weights.shape == shape and J.shape == shape)
    if off is None:
        return
    rng = d["sibdry"] - d["simagx"]
    tol = dict(scale=1e9) if not ctx.symbolic else {}
    Rs = [q(ctx, 2 + i, 4) for i in range(nx)]
    for i in range(nx):
        for j in range(ny):
            k = (i - off[0]) * step
            if not 0 <= k < shape[0]:
                continue
            ctx.near("flux", f1.target[k, j], d["psi"][i, j], 1e-6)
            ctx.near("weight", f1.weights[k, j], mask[i, j], 1e-9)
            ctx.near("weight2", f2.weights[k, j], mask[i, j], 1e-9)
            if (i, j) in CORE:
                t = s if (i, j) == CORE[0] else q(ctx, 1 + i, 8)
                want = Rs[i] * cubic(pc, t, 1) / rng + cubic(fc, t) * cubic(fc, t, 1) / rng / (Rs[i] * mu0(ctx))
                ctx.near("normalised", f2.target[k, j], t, 1e-6)
            else:
                want = 0
            ctx.near("Jtor", J[k, j], want, 1.0)
