"""C23  The optimiser (differential evolution), its measures and its controls."""
import math
import random as pyrandom
import sys

from .common import *

HARNESSES = H = Harnesses()
ENCODES = ["freegs.optimiser.{mutate,pickUnique,optimise}",
           "freegs.optimise.{optimise,max_abs_coil_current,max_coil_force,no_wall_intersection,weighted_sum,CoilRadius,CoilHeight}",
           "freegs.machine.Machine.{getCurrents,getForces}"]
BOUNDS = "populations of 4 (5 for the choice of agents), up to 2 generations, 1-2 controls, arbitrary scores, control values and random draws"
ASSUMPTIONS = ["numpy.random (or the random module) returns arbitrary values of the documented ranges", "Picard iteration replaced by a recorder that may fail (C19)"]


class Draws:
    """stand-in for numpy.random and random: every draw is an input of the harness"""

    def __init__(self, ctx, integer=None):
        self.ctx, self.n, self.ranges, self.policy, self.exact = ctx, 0, [], integer, True
        self.tag, self.const = "u", None

    def u(self):
        self.n += 1
        if self.const is not None:
            return exact(self.ctx, self.const)
        return self.ctx.real("%s%d" % (self.tag, self.n), 0, 1)

    def gauss(self):
        self.n += 1
        if self.const is not None:
            return exact(self.ctx, 3 * self.const - 1)
        return self.ctx.real("g_%s%d" % (self.tag, self.n), -4, 4)

    def i(self, n):
        self.n += 1
        if n <= 0:
            raise ValueError("low >= high")
        self.ranges.append(n)
        if self.policy is not None:
            v = self.policy(n)
            if v is not None:
                return v % n
        return self.ctx.choose("%s%d_of_%d" % (self.tag, self.n, n), n) if n > 1 else 0

    # numpy
    def np_random(self, size=None):
        if size is not None:
            return self.ctx.arr([self.u() for _ in range(size)])
        return self.u()

    def np_rand(self, *shape):
        return self.np_random(*shape)

    def np_uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.np_random(size)

    def np_normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.gauss()

    def np_randn(self):
        return self.gauss()

    def np_randint(self, low, high=None, size=None, dtype=int):
        lo, hi = (0, low) if high is None else (low, high)
        if size is not None:
            return np.array([lo + self.i(hi - lo) for _ in range(size)])
        return lo + self.i(hi - lo)

    def np_choice(self, a, size=None, replace=True, p=None):
        pool = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        if size is None:
            return pool[self.i(len(pool))]
        out = []
        for _ in range(size):
            k = self.i(len(pool))
            out.append(pool[k] if replace else pool.pop(k))
        return np.array(out)

    def np_permutation(self, a):
        pool = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        self.exact = False
        return np.array([pool.pop(self.i(len(pool))) for _ in range(len(pool))])

    def np_shuffle(self, a):
        a[:] = list(self.np_permutation(list(a)))

    # random
    def py_random(self):
        return self.u()

    def py_uniform(self, a, b):
        return a + (b - a) * self.u()

    def py_gauss(self, mu=0.0, sigma=1.0):
        return mu + sigma * self.gauss()

    def py_randint(self, a, b):
        return a + self.i(b - a + 1)

    def py_randrange(self, a, b=None):
        return self.np_randint(a, b)

    def py_choice(self, seq):
        return seq[self.i(len(seq))]

    def py_sample(self, pop, k):
        return list(self.np_choice(list(pop), k, replace=False))

    def py_shuffle(self, a):
        self.np_shuffle(a)

    @contextlib.contextmanager
    def installed(self):
        nr = self.ctx.np.random if self.ctx.symbolic else np.random
        new = [(nr, dict(random=self.np_random, rand=self.np_rand, random_sample=self.np_random, sample=self.np_random, ranf=self.np_random, uniform=self.np_uniform,
                         normal=self.np_normal, standard_normal=self.np_randn, randn=self.np_randn, randint=self.np_randint, choice=self.np_choice,
                         permutation=self.np_permutation, shuffle=self.np_shuffle, seed=lambda *a: None,
                         default_rng=lambda *a: _Rng(self))),
               (pyrandom, dict(random=self.py_random, uniform=self.py_uniform, gauss=self.py_gauss, normalvariate=self.py_gauss, randint=self.py_randint,
                               randrange=self.py_randrange, choice=self.py_choice, sample=self.py_sample, shuffle=self.py_shuffle, seed=lambda *a: None))]
        undo = []
        mods = [m for k, m in list(sys.modules.items()) if k.startswith("freegs.") and m is not None]
        missing = object()
        try:
            for obj, fs in new:
                for k, f in fs.items():
                    old = getattr(obj, k, missing)
                    own = obj.__dict__.get(k, missing)
                    undo.append((obj, k, own))
                    setattr(obj, k, f)
                    for m in mods:      # from numpy.random import randint
                        for n, v in list(vars(m).items()):
                            if old is not missing and callable(old) and (v is old or (getattr(v, "__self__", None) is nr and getattr(v, "__name__", None) == getattr(old, "__name__", 0))):
                                undo.append((m, n, v))
                                setattr(m, n, f)
            yield self
        finally:
            for obj, k, v in reversed(undo):
                if v is missing:
                    delattr(obj, k)
                else:
                    setattr(obj, k, v)


class _Rng:
    def __init__(self, d):
        self.random, self.uniform, self.normal, self.integers, self.choice, self.permutation, self.shuffle = (
            d.np_random, d.np_uniform, d.np_normal, d.np_randint, d.np_choice, d.np_permutation, d.np_shuffle)


class Thing:
    """object being optimised"""

    def __init__(self, x):
        self.x = list(x)


class Knob:
    def __init__(self, i, log=None):
        self.i, self.log = i, log

    def get(self, o):
        return o.x[self.i]

    def set(self, o, v):
        if self.log is not None:
            self.log.append((o, self.i, v))
        o.x[self.i] = v


@H("pick", bounds="populations of 4 and 5, 3 and all agents, one or two excluded; every draw")
def pick(ctx):
    """agents picked are different, in range and not excluded; every choice is possible and equally likely"""
    N, m, e = [(4, 3, [0]), (4, 3, [2]), (5, 3, [3]), (5, 2, [4, 1]), (4, 4, [])][ctx.choose("case", 5)]
    d1, d2 = LoggedDraws(ctx), LoggedDraws(ctx)
    d1.tag, d2.tag = "a", "b"
    e0 = list(e)
    with d1.installed():
        p1 = [int(k) for k in ctx.fg.optimiser.pickUnique(N, m, e)]
    with d2.installed():
        p2 = [int(k) for k in ctx.fg.optimiser.pickUnique(N, m, e)]
    ctx.check("number", len(p1) == m)
    ctx.check("in_range", all(0 <= k < N for k in p1))
    ctx.check("different", len(set(p1)) == m)
    ctx.check("not_excluded", not set(p1) & set(e0))
    ctx.check("exclusions_unchanged", e == e0)
    if d1.exact and d2.exact:
        # as many equally likely draws as choices, and different draws give different choices
        left = N - len(e)
        ctx.check("every_choice_possible", math.prod(d1.ranges) == math.prod(range(left - m + 1, left + 1)))
        ctx.check("equally_likely", (p1 == p2) == (draws(d1, ctx) == draws(d2, ctx)))


def draws(d, ctx):
    return tuple(d.values)


class LoggedDraws(Draws):
    def __init__(self, *a, **k):
        Draws.__init__(self, *a, **k)
        self.values = []

    def i(self, n):
        v = Draws.i(self, n)
        if n > 1:
            self.values.append(v)
        return v


@H("mutation", bounds="two controls of any value, every draw")
def mutation(ctx):
    """a mutated object is a copy whose controls differ by at most 10%; zero values do move"""
    zero = ctx.flag("zero")
    a, b = (exact(ctx, 0) if zero else ctx.real("x0", 0.5, 4)), ctx.real("x1", -4, -0.5)
    o = Thing([a, b, exact(ctx, 3)])
    d = Draws(ctx)
    if zero:
        d.const = 0.75
    with d.installed():
        n = ctx.fg.optimiser.mutate(o, [Knob(0), Knob(1)])
    ctx.check("copied", n is not o and n.x is not o.x)
    ctx.equal("original_kept", o.x[0], a)
    ctx.equal("original_kept", o.x[1], b)
    ctx.equal("other_values_kept", n.x[2], 3)
    if zero:
        ctx.check("zero_moves", n.x[0] != 0)
    else:
        ctx.check("within_10_percent", S.b_and(n.x[0] <= a + a / 10, n.x[0] >= a - a / 10))
    ctx.check("within_10_percent", S.b_and(n.x[1] <= b - b / 10, n.x[1] >= b + b / 10))


def small_policy():
    """a fixed sequence of integer draws"""
    state = [0]

    def f(n):
        state[0] += 1
        return state[0]
    return f


def run(ctx, nctrl, maxgen, N, score, policy, F=None, CR=0.3, x=None, const=None):
    """run the real optimiser, recording every measurement"""
    rec = dict(measured=[], monitor=[], sets=[])
    start = Thing(x)

    def measure(o):
        s = score(len(rec["measured"]), o)
        rec["measured"].append((o, s, list(o.x)))
        return s

    def monitor(gen, best, pop):
        rec["monitor"].append((gen, best, list(pop), len(rec["measured"])))
    knobs = [Knob(k, rec["sets"]) for k in range(nctrl)]
    d = Draws(ctx, policy)
    d.const = const
    with d.installed():
        kw = dict(maxgen=maxgen, N=N, CR=CR, monitor=monitor)
        if F is not None:
            kw["F"] = F
        rec["result"] = ctx.fg.optimiser.optimise(start, knobs, measure, **kw)
    rec["start"] = start
    return rec


@H("best", bounds="population of 4, 1 generation, one control; arbitrary scores", budget=400)
def best(ctx):
    """the result is the object with the lowest score of all that were measured; the monitor sees it every generation"""
    gens = ctx.choose("generations", 2)
    rec = run(ctx, 1, gens, 4, lambda k, o: ctx.real("score%d" % k, 0, 100), small_policy(), x=[exact(ctx, 2)], const=0.75)
    check_best(ctx, rec, gens, 4)


def check_best(ctx, rec, gens, N):
    M = rec["measured"]
    ctx.check("evaluations", len(M) == N * (1 + gens))
    got = [s for o, s, x in M if o is rec["result"]]
    ctx.check("result_was_measured", len(got) >= 1)
    for o, s, x in M:
        ctx.check("lowest_score", got[-1] <= s)
    ctx.check("monitor_calls", [g for g, _, _, _ in rec["monitor"]] == list(range(gens)))
    prev = [s for o, s, x in M[:N]]
    for g, b, pop, k in rec["monitor"]:
        ctx.check("population_size", len(pop) == N)
        ctx.check("monitor_best_is_lowest", S.b_and(*[b[0] <= s for o, s, x in M[:k]]))
        for j, (s, o) in enumerate(pop):
            ctx.check("population_scores", S.b_or(*[s == s2 for o2, s2, x in M[:k] if o2 is o]) if any(o2 is o for o2, _, _ in M) else False)
            ctx.check("population_never_worse", s <= prev[j])
        prev = [s for s, o in pop]
    x0 = rec["start"]
    ctx.check("controls_only_on_copies", all(o is not x0 for o, _, _ in rec["sets"]))


@H("two_generations", bounds="population of 4, 2 generations, two controls; scores of the last generation arbitrary")
def two_generations(ctx):
    """as above over two generations"""
    order = [[5, 7, 6, 8, 9, 4, 3, 9], [5, 3, 6, 8, 6, 4, 5, 2]][ctx.choose("first", 2)]
    rec = run(ctx, 2, 2, 4, lambda k, o: exact(ctx, order[k]) if k < 8 else ctx.real("score%d" % k, 0, 10), small_policy(), x=[exact(ctx, 2), exact(ctx, -1)], const=0.25)
    check_best(ctx, rec, 2, 4)


@H("trial", bounds="population of 4 with arbitrary control values, one or two controls, every draw for one member, any F and CR", budget=400)
def trial(ctx):
    """a trial changes at least one control, to x1 + F (x2 - x3) of three different other members, and nothing else"""
    nc = 1 + ctx.choose("controls", 2)
    who = ctx.choose("member", 2) * 3
    F, CR = ctx.real("F", 0, 2), exact(ctx, 0.5)
    N = 4
    count = [0]
    fixed = small_policy()

    def policy(n):
        return None if count[0] == N + who else fixed(n)

    def score(k, o):
        count[0] = k + 1
        return exact(ctx, 1 + k)            # trials are all rejected
    rec = run(ctx, nc, 1, N, score, policy, F=F, CR=CR, x=[exact(ctx, 2), exact(ctx, -3), exact(ctx, 7)])
    M = rec["measured"]
    ctx.check("evaluations", len(M) == 2 * N)
    pop = [x for o, s, x in M[:N]]
    t = M[N + who][2]
    me = pop[who]
    ctx.equal("rest_kept", t[2], 7)
    o = M[N + who][0]
    changed = [i for q_, i, v in rec["sets"] if q_ is o]
    ctx.check("some_control_changed", len(changed) >= 1)
    for i in range(nc, 3):
        ctx.equal("not_controlled", t[i], me[i])
    others = [k for k in range(N) if k != who]
    alt = []
    import itertools
    for a, b, c in itertools.permutations(others, 3):
        alt.append(S.b_and(*[t[i] == pop[a][i] + F * (pop[b][i] - pop[c][i]) for i in set(changed)]) if ctx.symbolic else
                   all(abs(t[i] - pop[a][i] - F * (pop[b][i] - pop[c][i])) < 1e-9 for i in set(changed)))
    ctx.check("combination_of_three_others", S.b_or(*alt) if ctx.symbolic else any(alt))
    for i in range(nc):
        if i not in changed:
            ctx.equal("kept_control", t[i], me[i])


@H("limits", bounds="any limits (also zero and none) and any requested value")
def limits(ctx):
    """coil controls move only the named coil, and keep it within the limits given"""
    m = ctx.fg.machine
    radius = ctx.flag("radius")
    lo = [None, exact(ctx, 0), ctx.real("lo", 0.5, 1.5)][ctx.choose("lower", 3)]
    hi = [None, exact(ctx, 2), ctx.real("hi", 1.75, 3), exact(ctx, 0)][ctx.choose("upper", 4 if not radius else 3)]
    if hi is not None and not radius and lo is not None:
        ctx.assume(lo <= hi)
    v = ctx.real("value", -3, 4)
    tok = m.Machine([("A", m.Coil(1.25, 0.25)), ("B", m.Coil(1.5, 0.5))])

    class Eq:
        tokamak = tok
    cls = ctx.fg.optimise.CoilRadius if radius else ctx.fg.optimise.CoilHeight
    c = cls("B", minimum=lo, maximum=hi)
    ctx.equal("get", c.get(Eq), 1.5 if radius else 0.5)
    c.set(Eq, v)
    got = tok["B"].R if radius else tok["B"].Z
    want = v
    if lo is not None:
        ctx.check("above_minimum", got >= lo)
    if hi is not None:
        ctx.check("below_maximum", got <= hi)
    inside = S.b_and(*([v >= lo] if lo is not None else []), *([v <= hi] if hi is not None else []), True)
    ctx.check("value_kept_inside", S.b_or(S.b_not(inside) if not isinstance(inside, (bool, np.bool_)) else not inside, got == v))
    ctx.check("nearest_allowed", S.b_or(got == v, *([got == lo] if lo is not None else []), *([got == hi] if hi is not None else [])))
    ctx.equal("get_after", c.get(Eq), got)
    ctx.equal("other_coordinate", tok["B"].Z if radius else tok["B"].R, 0.5 if radius else 1.5)
    ctx.equal("other_coil_R", tok["A"].R, 1.25)
    ctx.equal("other_coil_Z", tok["A"].Z, 0.25)


@H("default_radius", bounds="any requested radius")
def default_radius(ctx):
    """without limits a radius stays non-negative"""
    m = ctx.fg.machine
    v = ctx.real("value", -3, 4)
    tok = m.Machine([("B", m.Coil(1.5, 0.5))])

    class Eq:
        tokamak = tok
    ctx.fg.optimise.CoilRadius("B").set(Eq, v)
    ctx.check("not_negative", tok["B"].R >= 0)


@H("measures", bounds="coil, circuit of two, solenoid; any currents, forces and weights")
def measures(ctx):
    """largest coil current and force of all elements; weighted sums; wall intersections give infinity"""
    m, op = ctx.fg.machine, ctx.fg.optimise
    I = [ctx.real("I%d" % k, -10, 10) for k in range(3)]
    c1, c2, c3 = m.Coil(1.0, 0.5, current=I[0]), m.Coil(1.5, 0.5), m.Coil(1.5, -0.5)
    circ = m.Circuit([("P", c2, 2.0), ("Q", c3, -1.0)], current=I[1])
    sol = m.Solenoid(0.25, -1.0, 1.0, 3, current=I[2])
    kind = ctx.choose("machine", 3)
    tok = m.Machine([("C", c1)] + ([("X", circ)] if kind >= 1 else []) + ([("S", sol)] if kind == 2 else []))
    B = [(ctx.real("br%d" % k, -1, 1), ctx.real("bz%d" % k, -1, 1)) for k in range(3)]
    pos = {(1.0, 0.5): 0, (1.5, 0.5): 1, (1.5, -0.5): 2}
    hit = ctx.flag("hits_wall")

    class Eq:
        tokamak = tok

        def Br(self, R, Z):
            return B[pos[(float(R), float(Z))]][0]

        def Bz(self, R, Z):
            return B[pos[(float(R), float(Z))]][1]

        def intersectsWall(self):
            return hit
    eq = Eq()
    cur = [I[0]] + ([I[1]] if kind >= 1 else []) + ([I[2]] if kind == 2 else [])
    got = op.max_abs_coil_current(eq)
    for v in cur:
        ctx.check("largest_current", S.b_and(got >= v, got >= -v))
    ctx.check("a_coil_current", S.b_or(*[S.b_or(got == v, got == -v) for v in cur]))
    w1, w2 = ctx.real("w1", -2, 2), ctx.real("w2", -2, 2)
    f = op.weighted_sum(lambda e: w1 if e is eq else None, (lambda e: w2 if e is eq else None, 3.0), (lambda e: 5.0, w1))
    ctx.equal("weighted_sum", f(eq), w1 + 3 * w2 + 5 * w1, scale=20.0 if not ctx.symbolic else None)
    ctx.check("wall", op.no_wall_intersection(eq) == (float("inf") if hit else 0.0))


@H("forces", bounds="coil, circuit of two, solenoid; any currents and plasma field", budget=300)
def forces(ctx):
    """max_coil_force is the largest force on any coil in the equilibrium's field, members of circuits included"""
    m, op = ctx.fg.machine, ctx.fg.optimise
    F = [(ctx.real("fr%d" % k, -2, 2), ctx.real("fz%d" % k, -2, 2)) for k in range(3)]
    seen = []

    def coil(k):
        c = m.Coil(1.0 + k, 0.5, current=1.0)

        def gf(equilibrium):
            seen.append(equilibrium)
            return ctx.arr([F[k][0], F[k][1]])
        c.getForces = gf
        return c
    kind = ctx.choose("machine", 4)
    els = [("C", coil(0))]
    n = 1
    if kind in (1, 3):
        els.append(("X", m.Circuit([("P", coil(1), 2.0), ("Q", coil(2), -1.0)])))
        n = 3
    if kind in (2, 3):
        els.append(("S", m.Solenoid(0.25, -1.0, 1.0, 3)))

    class Eq:
        tokamak = m.Machine(els)

        def getForces(self):
            return self.tokamak.getForces(self)
    eq = Eq()
    got = op.max_coil_force(eq)
    ctx.check("field_of_equilibrium", len(seen) == n and all(e is eq for e in seen))
    mags = [F[k][0] ** 2 + F[k][1] ** 2 for k in range(n)]
    for v in mags:
        ctx.le("largest_force", sqrt(ctx, v), got)
    ctx.check("a_force", S.b_or(*[got * got == v for v in mags]) if ctx.symbolic else any(abs(got * got - v) < 1e-9 for v in mags))


@H("equilibrium", bounds="population of 4 equilibria, coil radius and height; any scores; any one solve fails", budget=400)
def equilibrium(ctx):
    """every candidate is solved again with the field of the moved coils before it is measured; failed solves are never chosen"""
    m = ctx.fg.machine
    fail = ctx.choose("failing", 4)         # 0: none
    P = ctx.arr([[exact(ctx, 0.125 * (i - 2 * j)) for j in range(9)] for i in range(9)])
    coil, other = m.Coil(2.0, 1.0, current=1000.0), m.Coil(2.0, -1.0, current=500.0)
    with stubs(ctx, critical__find_critical=no_critical):
        tok = m.Machine([("A", coil), ("B", other)])
        eq = ctx.fg.equilibrium.Equilibrium(tok, Rmin=0.5, Rmax=1.5, Zmin=-0.5, Zmax=0.5, nx=9, ny=9, psi=P, order=2)
        eq._profiles, eq._constraints = "PROF", "CON"
        solved, scored = [], []

        def pic(e, profiles, constrain=None, **k):
            solved.append((e, profiles, constrain, e.psi()[3, 4], e.plasma_psi[3, 4] + e.tokamak.psi(e.R[3, 4], e.Z[3, 4])))
            if len(solved) == fail:
                raise RuntimeError("did not converge")

        def measure(e):
            s = ctx.real("score%d" % len(scored), 0, 10)
            scored.append((e, s))
            return s
        d = Draws(ctx, small_policy())
        with d.installed(), stubs(ctx, picard__solve=pic):
            res = ctx.fg.optimise.optimise(eq, [ctx.fg.optimise.CoilHeight("A")], measure, maxgen=0, N=4)
    ctx.check("all_solved", len(solved) == 4 and len(set(id(s[0]) for s in solved)) == 4)
    for e, p, c, got, want in solved:
        ctx.check("same_problem", p == "PROF" and c == "CON")
        ctx.equal("flux_of_moved_coils", got, want, scale=1.0 if not ctx.symbolic else None)
    ctx.check("measured_after_solving", len(scored) == (3 if fail else 4))
    if fail:
        bad = solved[fail - 1][0]
        ctx.check("failed_not_measured", all(e is not bad for e, _ in scored))
        ctx.check("failed_not_chosen", res is not bad)
    mine = [s for e, s in scored if e is res]
    ctx.check("result_measured", len(mine) == 1)
    for e, s in scored:
        ctx.check("lowest", mine[0] <= s)
    ctx.check("start_coil_kept", coil.Z == 1.0 and other.Z == -1.0)
