"""C19  Picard iteration: what is solved, when it stops and what it reports."""
from .common import *

HARNESSES = H = Harnesses()
ENCODES = ["freegs.picard.solve"]
BOUNDS = "up to 4 solves; 3-point flux maps with arbitrary values after every solve and every coil adjustment; arbitrary rtol, atol, blend, boundary fluxes (or none); is_limited arbitrary after every solve"
ASSUMPTIONS = ["Equilibrium.solve (C09) and the coil control (C17, C18) are replaced by ones with arbitrary results"]


class Stop(Exception):
    """the bound on the number of solves is reached"""


class Eq:
    def __init__(self, ctx, maxsolves, n=3, none_bndry=False, limited=False):
        self.ctx, self.maxsolves, self.n = ctx, maxsolves, n
        self.none_bndry, self.limited = none_bndry, limited
        self.k = 0
        self.p = self._map("start")
        self.psi_bndry = ctx.real("bndry_start", 0.5, 2)
        self.psi_axis = exact(ctx, 4)
        self.is_limited = False
        self.check_limited = False
        self.log = []
        self.extra = 0

    def _map(self, tag):
        return self.ctx.arr([[self.ctx.real("psi_%s_%d" % (tag, i), -2, 2) for i in range(self.n)]])

    def psi(self):
        return self.p + self.extra

    def solve(self, profiles, Jtor=None, psi=None, psi_bndry=None):
        ctx = self.ctx
        if self.k == self.maxsolves:
            raise Stop
        self.log.append(dict(kind="solve", psi=psi.copy(), given=psi_bndry, before=self.psi_bndry, check=self.check_limited, profiles=profiles))
        self.k += 1
        self.p = self._map("solve%d" % self.k)
        if self.none_bndry and ctx.choose("no_boundary%d" % self.k, 2):
            self.psi_bndry = None
        else:
            b = ctx.real("bndry%d" % self.k, -2, 2)
            ctx.assume(absv(ctx, b) >= 0.1)
            self.psi_bndry = b
        self.is_limited = bool(self.limited and self.check_limited and ctx.choose("limited%d" % self.k, 2))
        out = self.psi()
        # not a constant map
        ctx.assume(out[0, 0] - out[0, 1] >= 0.01)
        self.log[-1].update(out=out, bndry=self.psi_bndry, is_limited=self.is_limited)

    def constrain(self, eq):
        self.ctx.check("same_equilibrium", eq is self)
        n = sum(r["kind"] == "constrain" for r in self.log)
        self.extra = self.extra + self.ctx.real("coils%d" % n, -1, 1)
        self.log.append(dict(kind="constrain"))


def run(ctx, eq, profiles, con=None, **kw):
    try:
        r = ctx.fg.picard.solve(eq, profiles, eq.constrain if con else None, **kw)
        return "done", r
    except RuntimeError:
        return "fail", None
    except Stop:
        return "bound", None


def changes(ctx, rec):
    a = rec["out"]
    m, hi, lo = None, None, None
    for i in range(a.shape[1]):
        d = absv(ctx, a[0, i] - rec["psi"][0, i])
        m = d if m is None or d > m else m
        hi = a[0, i] if hi is None or a[0, i] > hi else hi
        lo = a[0, i] if lo is None or a[0, i] < lo else lo
    return m, hi - lo


def met(ctx, rec, prev, rtol, atol):
    """the documented criterion for one solve"""
    m, rng = changes(ctx, rec)
    if not (m < atol or m < rtol * rng):
        return False
    if rec["bndry"] is None:
        return False
    d = absv(ctx, rec["bndry"] - prev)
    return bool(d < rtol * absv(ctx, rec["bndry"]) or d < atol)


def setup(ctx):
    return dict(rtol=ctx.real("rtol", 0.001, 0.5), atol=ctx.real("atol", 1e-4, 0.1))


@H("criterion", bounds="2 solves, 2-point maps, boundary flux present or not", budget=300, max_paths=4000)
def criterion(ctx):
    """stops after the first solve whose change of flux (absolute or relative to the range of the flux) and of boundary flux is small, and only then"""
    tol = setup(ctx)
    eq = Eq(ctx, 2, n=2, none_bndry=True)
    st, r = run(ctx, eq, None, maxits=4, **tol)
    ctx.check("no_failure", st != "fail")
    ctx.check("no_result", r is None)
    solves = [x for x in eq.log if x["kind"] == "solve"]
    prev = 0
    for k, rec in enumerate(solves):
        ok = met(ctx, rec, prev, **tol)
        last = k == len(solves) - 1
        if last and st == "done":
            ctx.check("stops_only_if_converged", ok)
        else:
            ctx.check("stops_when_converged", not ok)
        if rec["bndry"] is not None:
            prev = rec["bndry"]
    ctx.check("final_state", eq.psi() is not None and len(solves) >= 1)


@H("sequence", bounds="3 solves, coil control present or not, arbitrary blend, given boundary flux or none", budget=200)
def sequence(ctx):
    """coils are adjusted before the first solve and between solves, not after the last; each solve starts from the blend of the new flux with what the previous solve started from; a given boundary flux is used in every solve"""
    con = bool(ctx.choose("control", 2))
    blend = ctx.real("blend", 0, 1)
    given = ctx.real("psi_bndry", -2, 2) if ctx.choose("given", 2) else None
    eq = Eq(ctx, 3, n=2)
    prof = object()
    start = eq.psi()
    # third solve converges
    st, r = run_forced(ctx, eq, prof, con, 3, blend=blend, psi_bndry=given, maxits=5)
    ctx.check("stops", st == "done")
    if st != "done":
        return
    kinds = [x["kind"] for x in eq.log]
    ctx.check("order", kinds == (["constrain", "solve"] * 3 if con else ["solve"] * 3))
    solves = [x for x in eq.log if x["kind"] == "solve"]
    extra, prev = 0, None
    for k, rec in enumerate(solves):
        if con:
            extra = extra + ctx.real("coils%d" % k, -1, 1)
        for i in range(2):
            if k == 0:
                want = start[0, i] + extra
            else:
                new = ctx.real("psi_solve%d_%d" % (k, i), -2, 2) + extra
                want = (1 - blend) * new + blend * prev["psi"][0, i]
            ctx.equal("starts_from", rec["psi"][0, i], want)
        ctx.check("profiles", rec["profiles"] is prof)
        ctx.check("no_limit_check", not rec["check"])
        if given is None:
            ctx.check("no_boundary_given", rec["given"] is None)
        else:
            ctx.check("boundary_given", rec["given"] is not None)
            ctx.equal("boundary_flux", rec["given"], given)
        prev = rec


def run_forced(ctx, eq, prof, con, n, **kw):
    """with tolerances under which exactly the n-th solve converges: relative change limits far apart"""
    rtol, atol = exact(ctx, 1e-6), exact(ctx, 1e-9)
    orig = eq.solve

    def solve(profiles, Jtor=None, psi=None, psi_bndry=None):
        orig(profiles, Jtor=Jtor, psi=psi, psi_bndry=psi_bndry)
        rec = [x for x in eq.log if x["kind"] == "solve"][-1]
        if eq.k == n:
            for i in range(eq.n):
                ctx.assume(eq.psi()[0, i] == rec["psi"][0, i])
            prev = [x for x in eq.log if x["kind"] == "solve"][-2]["bndry"] if n > 1 else 0
            ctx.assume(eq.psi_bndry == prev)
        elif eq.k < n:
            ctx.assume(absv(ctx, eq.psi()[0, 0] - rec["psi"][0, 0]) >= 0.1)
    eq.solve = solve
    return run(ctx, eq, prof, con, rtol=rtol, atol=atol, **kw)


def away(ctx, eq):
    """the flux keeps changing"""
    orig = eq.solve

    def solve(profiles, Jtor=None, psi=None, psi_bndry=None):
        orig(profiles, Jtor=Jtor, psi=psi, psi_bndry=psi_bndry)
        rec = [x for x in eq.log if x["kind"] == "solve"][-1]
        ctx.assume(absv(ctx, eq.psi()[0, 0] - rec["psi"][0, 0]) >= 0.1)
    eq.solve = solve


@H("failure", bounds="maxits 1..3")
def failure(ctx):
    """if no solve converges within maxits, RuntimeError"""
    n = ctx.choose("maxits", 3) + 1
    eq = Eq(ctx, n + 2, n=2)
    away(ctx, eq)
    st, r = run(ctx, eq, None, bool(ctx.choose("control", 2)), maxits=n, rtol=exact(ctx, 1e-6), atol=exact(ctx, 1e-9))
    ctx.check("fails", st == "fail")
    solves = sum(x["kind"] == "solve" for x in eq.log)
    ctx.check("attempts", n <= solves <= n + 1)


@H("no_limit", bounds="6 solves without maxits")
def no_limit(ctx):
    """maxits=None: goes on until converged"""
    eq = Eq(ctx, 8, n=2)
    st, r = run_forced(ctx, eq, None, False, 6, maxits=None)
    ctx.check("converges", st == "done" and eq.k == 6)


@H("info", bounds="1..3 solves, 3-point maps", budget=200)
def info(ctx):
    """with convergenceInfo the absolute and relative flux changes of every solve are returned, in order"""
    n = ctx.choose("solves", 2) + 2
    eq = Eq(ctx, n, n=3 if n == 2 else 2)
    st, r = run_forced(ctx, eq, None, True, n, convergenceInfo=True, maxits=5)
    ctx.check("done", st == "done")
    if st != "done":
        return
    solves = [x for x in eq.log if x["kind"] == "solve"]
    ctx.check("pair", len(r) == 2 and len(r[0]) == len(solves) and len(r[1]) == len(solves))
    for k, rec in enumerate(solves):
        m, rng = changes(ctx, rec)
        ctx.equal("max_change", r[0][k], m)
        ctx.equal("rel_change", r[1][k], m / rng)


@H("limited", bounds="4 solves, limit_it 0..3, limited or not after every solve", budget=200)
def limited(ctx):
    """the limiter is checked only on request, from solve limit_it on (always after a limited plasma), with the present boundary flux; wait_for_limited returns only a limited plasma"""
    check = bool(ctx.choose("check", 2))
    wait = bool(ctx.choose("wait", 2))
    lit = ctx.choose("limit_it", 4)
    N = 4
    eq = Eq(ctx, N, n=2, limited=True)
    orig = eq.solve
    conv = []

    def solve(profiles, Jtor=None, psi=None, psi_bndry=None):
        orig(profiles, Jtor=Jtor, psi=psi, psi_bndry=psi_bndry)
        solves = [x for x in eq.log if x["kind"] == "solve"]
        rec = solves[-1]
        if len(solves) >= 2 and ctx.choose("converge%d" % len(solves), 2):
            for i in range(eq.n):
                ctx.assume(eq.psi()[0, i] == rec["psi"][0, i])
            ctx.assume(eq.psi_bndry == solves[-2]["bndry"])
            conv.append(True)
        else:
            ctx.assume(absv(ctx, eq.psi()[0, 0] - rec["psi"][0, 0]) >= 0.1)
            conv.append(False)
    eq.solve = solve
    st, r = run(ctx, eq, None, False, rtol=exact(ctx, 1e-6), atol=exact(ctx, 1e-9), maxits=10, check_limited=check, wait_for_limited=wait, limit_it=lit)
    ctx.check("no_failure", st != "fail")
    solves = [x for x in eq.log if x["kind"] == "solve"]
    seen = False
    for k, rec in enumerate(solves):
        want = check and (k >= lit or seen)
        ctx.check("limiter_checked", bool(rec["check"]) == want)
        if want:
            ctx.check("boundary_given", rec["given"] is not None)
            ctx.equal("present_boundary", rec["given"], rec["before"])
        else:
            ctx.check("no_boundary_given", rec["given"] is None)
        seen = seen or rec["is_limited"]
        stop = conv[k] and (rec["is_limited"] or not wait)
        ctx.check("stops", stop == (st == "done" and k == len(solves) - 1))
    if st == "done" and wait:
        ctx.check("limited", eq.is_limited)


@H("lost_boundary", bounds="3 solves, any pattern of present and absent boundary flux")
def lost_boundary(ctx):
    """without a boundary flux after the last solve there is no convergence, whatever it was before"""
    eq = Eq(ctx, 3, n=2, none_bndry=True)
    orig = eq.solve

    def solve(profiles, Jtor=None, psi=None, psi_bndry=None):
        orig(profiles, Jtor=Jtor, psi=psi, psi_bndry=psi_bndry)
        rec = [x for x in eq.log if x["kind"] == "solve"][-1]
        if eq.k == 3:
            for i in range(eq.n):
                ctx.assume(eq.psi()[0, i] == rec["psi"][0, i])
        else:
            ctx.assume(absv(ctx, eq.psi()[0, 0] - rec["psi"][0, 0]) >= 0.1)
    eq.solve = solve
    st, r = run(ctx, eq, None, False, rtol=exact(ctx, 1e-6), atol=exact(ctx, 1e-9), maxits=10)
    if st == "done":
        ctx.check("has_boundary", eq.psi_bndry is not None)
