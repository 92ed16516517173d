"""Execution contexts: symbolic exploration (SymCtx) and concrete replay (ConcreteCtx)."""
import math
import random
import sys
import threading
import time
from fractions import Fraction

import numpy as np

from . import sym as S
from .sym import (REG, NotEvaluable, PathEnd, Sym, SymBool, Unsupported, b_and,
                  b_not, b_or, booleval, clear_denominators, cmp0, frac,
                  identically_zero, numeval, sign_of)

import z3

CUR = None


def set_current(c):
    global CUR
    CUR = c
    return c


class AssumptionFailed(BaseException):
    pass


class TooManyPaths(Exception):
    pass


# ------------------------------------------------------------ z3 emission


class Z3Emitter:
    def __init__(self):
        self.acons = {}
        self.avars = {}
        self.psign = {}  # signs of denominators decided on this path (option sign_fork)

    def sign(self, p):
        sg = sign_of(p)
        if sg in (1, 2, -1, -2) or not self.psign:
            return sg
        return self.psign.get(p.fp(), sg)

    def var(self, a):
        v = self.avars.get(a.id)
        if v is None:
            v = z3.Real("a%d_%s" % (a.id, a.name))
            self.avars[a.id] = v
        return v

    def poly(self, s):
        """z3 term for a Sym without inv atoms and negative exponents."""
        terms = []
        for m, c in s.p.items():
            t = None
            for aid, e in m:
                v = self.var(REG.atoms[aid])
                for _ in range(e):
                    t = v if t is None else t * v
            cv = z3.RealVal("%d/%d" % (c.numerator, c.denominator)) if c.denominator != 1 else z3.RealVal(c.numerator)
            if t is None:
                t = cv
            elif c != 1:
                t = cv * t
            terms.append(t)
        if not terms:
            return z3.RealVal(0)
        return z3.Sum(terms) if len(terms) > 1 else terms[0]

    def cmp(self, op, d, used, side):
        """z3 formula for d op 0.  used: set of atom ids, side: list of nonzero facts."""
        if op in ("==", "!="):
            n, facs = clear_denominators(d)
            for p, k in facs:
                side.append(p)
        else:
            n, facs = clear_denominators(d)
            mult = S.ONE
            for p, k in facs:
                side.append(p)
                if k % 2:
                    sg = self.sign(p)
                    if sg in (-1, -2):
                        n = -n
                    elif sg not in (1, 2):
                        mult = mult * p
            if mult is not S.ONE:
                n = n * mult
                n, f2 = clear_denominators(n)
                # factors of an already positive multiplication: even powers only
                for p, k in f2:
                    side.append(p)
                    if k % 2 and self.sign(p) not in (1, 2):
                        raise Unsupported("nested denominator sign")
        used |= n.atom_ids()
        t = self.poly(n)
        z = z3.RealVal(0)
        if op == "<":
            return t < z
        if op == "<=":
            return t <= z
        if op == "==":
            return t == z
        return t != z

    def bool(self, b, used, side):
        if not isinstance(b, SymBool):
            if isinstance(b, tuple) and b[0] == "sq":
                _, a, x = b
                n, facs = clear_denominators(x)
                den = S.ONE
                for p, k in facs:
                    side.append(p)
                    den = den * (p ** k)
                den, _f = clear_denominators(den)
                used.add(a.id)
                used |= n.atom_ids() | den.atom_ids()
                v = self.var(a)
                return v * v * self.poly(den) == self.poly(n)
            return z3.BoolVal(bool(b))
        if b.kind == "cmp":
            return self.cmp(b.op, b.d, used, side)
        ps = [self.bool(p, used, side) for p in b.parts]
        return z3.And(ps) if b.kind == "and" else z3.Or(ps)

    def atom_constraints(self, aid):
        """(list of z3 formulas, set of atom ids they mention)"""
        r = self.acons.get(aid)
        if r is not None:
            return r
        a = REG.atoms[aid]
        fs = []
        used = set()
        side = []
        v = self.var(a)
        if a.pos:
            fs.append(v > 0)
        elif a.nonneg:
            fs.append(v >= 0)
        if a.lo is not None:
            fs.append(v >= z3.RealVal(str(a.lo)))
        if a.hi is not None:
            fs.append(v <= z3.RealVal(str(a.hi)))
        self.acons[aid] = (fs, used)  # break cycles
        if a.cons is not None:
            keep, self.psign = self.psign, {}  # cached for all paths
            for c in a.cons():
                fs.append(self.bool(c, used, side))
            self.psign = keep
        for p in side:
            n, _ = clear_denominators(p)
            if sign_of(n) in (1, -1):
                continue
            used |= n.atom_ids()
            fs.append(self.poly(n) != 0)
        used.discard(aid)
        self.acons[aid] = (fs, used)
        return fs, used


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_time = 0.0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.paths = 0
        self.decisions = 0
        self.feas = 0
        self.max_query_atoms = 0
        self.dumped = []

    def as_dict(self):
        return {k: (round(v, 4) if isinstance(v, float) else v)
                for k, v in self.__dict__.items() if k != "dumped"}


class Obligation:
    __slots__ = ("name", "status", "detail", "model", "path")

    def __init__(self, name, status, detail="", model=None, path=None):
        self.name = name
        self.status = status
        self.detail = detail
        self.model = model
        self.path = path


class BaseCtx:
    symbolic = False

    def __init__(self, fg, tier, seed):
        self.fg = fg
        self.tier = tier
        self.seed = seed

    @property
    def thorough(self):
        return self.tier == "thorough"

    # convenience -------------------------------------------------------
    def reals(self, prefix, n, lo=None, hi=None, pos=False):
        return [self.real("%s%d" % (prefix, i), lo, hi, pos=pos) for i in range(n)]

    def array(self, prefix, shape, lo=None, hi=None, pos=False):
        out = np.empty(shape, dtype=object)
        for idx in np.ndindex(*out.shape):
            out[idx] = self.real("%s_%s" % (prefix, "_".join(map(str, idx))), lo, hi, pos=pos)
        if not self.symbolic:
            out = out.astype(float)
        return out

    def grid(self, a, b, n):
        """Uniform 1-D grid of n points from a to b."""
        pts = [a + (b - a) * Fraction(i, n - 1) if self.symbolic else a + (b - a) * (i / (n - 1)) for i in range(n)]
        return self.arr(pts)

    def arr(self, vals):
        a = np.array(vals, dtype=object)
        if not self.symbolic:
            return a.astype(float)
        f = a.ravel()
        for i in range(f.size):
            f[i] = Sym.of(f[i])
        return f.reshape(a.shape)

    def raises(self, name, exc, fn):
        """Obligation: fn() raises one of exc."""
        try:
            fn()
        except (Unsupported, PathEnd, AssumptionFailed):
            raise
        except exc:
            self.check(name, True)
            return
        self.check(name, False)


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, fg, tier, seed, stats, opts):
        super().__init__(fg, tier, seed)
        self.stats = stats
        self.opts = opts
        self.em = Z3Emitter()
        self.prefix = []
        self.trace = []
        self.pending = []
        self.pc = []  # list of (z3 formula, frozenset atom ids, SymBool)
        self.obls = []
        self.inputs = {}
        self.counts = {}
        self.deadline = None
        self.cond_cache = {}
        self.timeout_ms = opts.get("timeout_ms", 20000)
        self.branch_timeout_ms = opts.get("branch_timeout_ms", 3000)
        self.max_paths = opts.get("max_paths", 4000)
        self.notes = set()
        self._known = {}
        self.proved_keys = set()
        self.ranges = {}

    # -- driving
    def start_path(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.pc = []
        self.inputs = {}
        self.counts = {}
        self._known = {}
        self.em.psign = {}
        self.path_obls = []
        self.assume_log = []
        self._points = {}

    def fresh_name(self, base):
        n = self.counts.get(base, 0)
        self.counts[base] = n + 1
        return "%s~%d" % (base, n)

    # -- inputs
    def real(self, name, lo=None, hi=None, pos=False):
        a = REG.var(name)
        x = Sym.atom(a)
        # facts about an input are kept over all paths of a harness: its range must be the same everywhere
        if self.ranges.setdefault(name, (lo, hi, pos)) != (lo, hi, pos):
            raise RuntimeError("harness error: input %s declared with different ranges" % name)
        self.inputs[name] = (lo, hi, pos, "real")
        if lo is not None and frac(lo) >= 0:
            a.nonneg = True
            if frac(lo) > 0 or pos:
                a.pos = True
        if pos:
            a.pos = a.nonneg = True
        if lo is not None:
            a.lo = frac(lo)
        if hi is not None:
            a.hi = frac(hi)
        return x

    def choose(self, name, n):
        """Nondeterministic choice 0..n-1 (forks)."""
        a = REG.var("choice:" + name)
        self.inputs["choice:" + name] = (0, n - 1, False, "int")
        a.lo, a.hi = Fraction(0), Fraction(n - 1)
        x = Sym.atom(a)
        for i in range(n - 1):
            if self.decide(SymBool("cmp", "==", x - i)):
                return i
        self.add_pc(SymBool("cmp", "==", x - (n - 1)))
        return n - 1

    def flag(self, name):
        return bool(self.choose(name, 2))

    def fresh(self, base, lo=None, hi=None, pos=False, evalf=None):
        name = self.fresh_name("env:" + base)
        return S.fresh(name, lo, hi, pos, evalf)

    # -- path condition
    def add_pc(self, cond):
        if not isinstance(cond, SymBool):
            if not cond:
                raise PathEnd()
            return
        used = set()
        side = []
        f = self.em.bool(cond, used, side)
        fs = [f]
        for p in side:
            n, _ = clear_denominators(p)
            if sign_of(n) in (1, -1):
                continue
            used |= n.atom_ids()
            fs.append(self.em.poly(n) != 0)
        self.pc.append((z3.And(fs) if len(fs) > 1 else f, frozenset(used), cond))
        self._known[cond.key()] = True
        self._known[b_not(cond).key()] = False

    def assume(self, cond):
        if isinstance(cond, (bool, np.bool_)):
            if not cond:
                raise PathEnd()
            return
        self.add_pc(cond)
        self.assume_log.append(repr(cond)[:200])

    def closure(self, ids):
        """pc conjuncts and atom constraints connected with atom ids."""
        ids = set(ids)
        todo = list(ids)
        fs = []
        seen_pc = set()
        done = set()
        while todo:
            aid = todo.pop()
            if aid in done:
                continue
            done.add(aid)
            cf, cu = self.em.atom_constraints(aid)
            fs.extend(cf)
            for u in cu:
                if u not in done:
                    todo.append(u)
            for k, (f, used, _) in enumerate(self.pc):
                if k not in seen_pc and aid in used:
                    seen_pc.add(k)
                    fs.append(f)
                    for u in used:
                        if u not in done:
                            todo.append(u)
        return fs, done

    def _overdue(self):
        if self.deadline and time.time() > self.deadline:
            raise TimeoutError("harness deadline")

    def _check_sat(self, s, timeout_ms):
        """s.check(), interrupted if z3 does not keep to its own time limit"""
        s.set("timeout", int(timeout_ms))
        t = threading.Timer(timeout_ms / 1000.0 + 3, s.ctx.interrupt)
        t.daemon = True
        t.start()
        try:
            return s.check()
        except z3.Z3Exception:
            return z3.unknown
        finally:
            t.cancel()

    def solve(self, formulas, timeout_ms, want_model=False):
        t0 = time.time()
        s = z3.Solver()
        s.set("random_seed", 1)
        for f in formulas:
            s.add(f)
        r = self._check_sat(s, timeout_ms)
        self.stats.queries += 1
        self.stats.solver_time += time.time() - t0
        if r == z3.sat:
            self.stats.sat += 1
            return "sat", (s.model() if want_model else None), s
        if r == z3.unsat:
            self.stats.unsat += 1
            return "unsat", None, s
        self.stats.unknown += 1
        return "unknown", None, s

    def feasible(self, cond, timeout=None):
        used = set()
        side = []
        f = self.em.bool(cond, used, side)
        fs, done = self.closure(used)
        self.stats.feas += 1
        r, _, _ = self.solve(fs + [f], timeout or self.branch_timeout_ms)
        return r

    def decide(self, cond):
        if not isinstance(cond, SymBool):
            return bool(cond)
        k = cond.key()
        if k in self._known:
            return self._known[k]
        if self.deadline and time.time() > self.deadline:
            raise TimeoutError("harness deadline")
        if self.opts.get("sign_fork"):
            self._decide_signs(cond)
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.trace.append(v)
            self.add_pc(cond if v else b_not(cond))
            self._known[k] = v
            return v
        self.stats.decisions += 1
        rt = self.feasible(cond)
        if rt == "unsat":
            self.trace.append(False)
            self.prefix = self.prefix[:i] + [False]
            self.add_pc(b_not(cond))
            self._known[k] = False
            return False
        rf = self.feasible(b_not(cond))
        if rf != "unsat":
            self.pending.append(self.trace + [False])
            if len(self.pending) > self.max_paths:
                raise TooManyPaths("too many paths")
        self.trace.append(True)
        self.prefix = self.prefix[:i] + [True]
        self.add_pc(cond)
        self._known[k] = True
        return True

    def _decide_signs(self, cond):
        """Decide the signs of denominators first, so that comparisons need not be multiplied by them."""
        if not isinstance(cond, SymBool):
            return
        if cond.kind != "cmp":
            for p in cond.parts:
                self._decide_signs(p)
            return
        if cond.op in ("==", "!="):
            return
        _, facs = clear_denominators(cond.d)
        for p, k in facs:
            if k % 2 and self.em.sign(p) not in (1, 2, -1, -2):
                fp = p.fp()
                if fp not in self.em.psign:
                    neg = self.decide(cmp0("<", p))
                    self.em.psign[fp] = -1 if neg else 1

    # -- obligations
    def _record(self, name, status, detail="", bad=None):
        self.path_obls.append((name, status, detail, bad))

    def check(self, name, cond, **kw):
        """cond must hold."""
        if isinstance(cond, np.ndarray):
            for v in cond.ravel():
                self.check(name, v, **kw)
            return
        if not isinstance(cond, SymBool):
            if cond:
                self._trivial(name)
            else:
                self._record(name, "violated", "false on this path", True)
            return
        self._overdue()
        neg = b_not(cond)
        used = set()
        side = []
        f = self.em.bool(neg, used, side)
        for p in side:
            n, _ = clear_denominators(p)
            used |= n.atom_ids()
            f = z3.And(f, self.em.poly(n) != 0)
        fs, done = self.closure(used)
        r, m, s = self.solve(fs + [f], self.timeout_ms)
        self._dump(s, r)
        if r == "unsat":
            self._record(name, "proved")
        elif r == "sat":
            self._record(name, "violated", "", neg)
        else:
            self._record(name, "unknown", "solver unknown", neg)

    def _dump(self, s, r):
        if self.opts.get("dump") is not None and len(self.opts["dump"]) < 400:
            self.opts["dump"].append((s.to_smt2(), r))

    def _trivial(self, name):
        # the fact is concrete on this path: the path condition is all there is
        self._record(name, "proved", "concrete")

    def equal(self, name, a, b, rtol=1e-6, atol=1e-13, scale=None):
        if _is_arrayish(a) or _is_arrayish(b):
            aa = _asobj(a)
            bb = _asobj(b)
            if bb.ndim == 0 and aa.ndim:
                bb = np.full(aa.shape, bb[()], dtype=object)
            if aa.shape != bb.shape:
                self._record(name + ":shape", "violated",
                             "shapes %s vs %s" % (aa.shape, bb.shape), True)
                return
            for x, y in zip(aa.ravel(), bb.ravel()):
                self.equal(name, x, y, rtol, atol)
            return
        if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
            self.check(name, a == b)
            return
        for v in (a, b):
            if isinstance(v, (float, np.floating)) and not math.isfinite(v):
                ok = (not isinstance(a, Sym)) and (not isinstance(b, Sym)) and (
                    a == b or (a != a and b != b))
                self.check(name, ok)
                return
        a = Sym.of(a)
        b = Sym.of(b)
        d = a - b
        # Cleared-denominator identity  A*Db != B*Da  handed to the solver
        an, af = clear_denominators(a)
        bn, bf = clear_denominators(b)
        same = (not d.p) or identically_zero(d)
        if same and len(an.p) + len(bn.p) < 400 and not _has_special(an) and not _has_special(bn):
            za, zb = self.em.poly(an), self.em.poly(bn)
            for p, k in bf:
                q, f2 = clear_denominators(p)
                if f2:
                    break
                for _ in range(k):
                    za = za * self.em.poly(q)
            else:
                for p, k in af:
                    q, f2 = clear_denominators(p)
                    if f2:
                        break
                    for _ in range(k):
                        zb = zb * self.em.poly(q)
                else:
                    r, _, s = self.solve([za != zb], 5000)
                    if r == "unsat":
                        self._dump(s, r)
                        self._record(name, "proved")
                        return
        if same:
            # decided on the normal form; the solver sees the normalised residual
            n, _ = clear_denominators(d)
            r, _, s = self.solve([self.em.poly(n) != 0], 5000)
            self._record(name, "proved" if r == "unsat" else "unknown")
            return
        neg = cmp0("!=", d)
        if isinstance(neg, bool):
            self._record(name, "violated" if neg else "proved", "", True)
            return
        self._overdue()
        hit = self._numeric_refutation(d)
        if hit is not None:
            # a point of the path on which the encoded values differ: the query is
            # satisfiable, no need to search for a model
            self._record(name, "violated", "%s != %s" % (a, b), ("point", hit))
            return
        used = set()
        side = []
        f = self.em.bool(neg, used, side)
        extra = []
        for p in side:
            n, _ = clear_denominators(p)
            if sign_of(n) in (1, -1):
                continue
            used |= n.atom_ids()
            extra.append(self.em.poly(n) != 0)
        fs, done = self.closure(used)
        r, m, s = self.solve(fs + [f] + extra, self.timeout_ms)
        self._dump(s, r)
        if r == "unsat":
            self._record(name, "proved")
        elif r == "sat":
            self._record(name, "violated", "%s != %s" % (a, b), neg)
        else:
            self._record(name, "unknown", "%s != %s" % (a, b), neg)

    def _numeric_refutation(self, d):
        rng = random.Random(12345)
        names = list(self.inputs)
        conds = [c for _, _, c in self.pc]
        seen = False
        for t in range(6):
            env0 = {n: _rand_in(rng, *self.inputs[n]) for n in names}
            env = dict(env0)
            try:
                if not all(booleval(c, env) for c in conds):
                    continue
                seen = True
                v, mag = S.numeval2(d, env)
                if abs(v) > 1e-6 * mag:
                    return env0
            except (NotEvaluable, ZeroDivisionError, ValueError, OverflowError, TypeError):
                return None
        if seen:
            return None
        # a path that random points do not take: points of it from the solver
        k = len(self.pc), len(names)
        if self._points.get("key") != k:
            self._points = dict(key=k, points=self.model_of(None, rng, tries=20, want=2))
        for env0 in self._points["points"]:
            env = dict(env0)
            try:
                v, mag = S.numeval2(d, env)
                if abs(v) > 1e-6 * mag:
                    return env0
            except (NotEvaluable, ZeroDivisionError, ValueError, OverflowError, TypeError):
                return None
        return None

    def le(self, name, a, b, tol=1e-9):
        self.check(name, Sym.of(a) <= b)

    def near(self, name, a, b, tol):
        """|a-b| <= tol (tol > 0): decided over the reals with the tolerance."""
        d = Sym.of(a) - b
        t = Sym.of(tol)
        self.check(name, b_and(d <= t, -d <= t))

    def note(self, msg):
        self.notes.add(msg)

    # -- models
    def model_of(self, bad, rng, tries=40, want=1):
        """Concrete input assignments satisfying the path condition and `bad`."""
        self.model_status = "sat"
        if isinstance(bad, tuple) and bad[0] == "point":
            return [bad[1]]
        out = []
        names = list(self.inputs)
        conds = [c for _, _, c in self.pc]
        # 1. random sampling by direct evaluation of the path condition
        for t in range(tries):
            env0 = {n: _rand_in(rng, *self.inputs[n]) for n in names}
            env = dict(env0)
            try:
                if all(booleval(c, env) for c in conds) and (
                        bad is True or bad is None or booleval(bad, env)):
                    out.append(env0)
                    if len(out) >= want:
                        return out
            except (NotEvaluable, ZeroDivisionError, ValueError, OverflowError, TypeError):
                break
        # 2. solver model
        fs = [f for f, _, _ in self.pc]
        ids = set()
        for _, u, _ in self.pc:
            ids |= u
        if isinstance(bad, SymBool):
            used = set()
            side = []
            fs.append(self.em.bool(bad, used, side))
            for p in side:
                n, _ = clear_denominators(p)
                used |= n.atom_ids()
                fs.append(self.em.poly(n) != 0)
            ids |= used
        done = set()
        todo = list(ids)
        for n in names:
            todo.append(REG.vars[n].id)
        while todo:
            aid = todo.pop()
            if aid in done:
                continue
            done.add(aid)
            cf, cu = self.em.atom_constraints(aid)
            fs.extend(cf)
            todo.extend(cu)
        t0 = time.time()
        s = z3.Solver()
        for f in fs:
            s.add(f)
        r = self._check_sat(s, self.timeout_ms)
        self.stats.queries += 1
        self.stats.solver_time += time.time() - t0
        self.model_status = str(r)
        if r != z3.sat:
            return out
        out.append(self._extract(s.model(), names))
        # 3. more generic models: fix inputs at random values while still satisfiable
        for _ in range(max(0, want - len(out))):
            s.push()
            m = s.model() if self._check_sat(s, 1500) == z3.sat else None
            order = names[:]
            rng.shuffle(order)
            for n in order[:40]:
                val = _rand_in(rng, *self.inputs[n])
                v = self.em.var(REG.vars[n])
                s.push()
                s.add(v == z3.RealVal(str(Fraction(val).limit_denominator(1000))))
                if self._check_sat(s, 1500) == z3.sat:
                    m = s.model()
                else:
                    s.pop()
                if time.time() - t0 > 60:
                    break
            if m is not None:
                out.append(self._extract(m, names))
            while s.num_scopes():
                s.pop()
            if time.time() - t0 > 60:
                break
            self._check_sat(s, 1500)
        return out

    def _extract(self, m, names):
        res = {}
        for n in names:
            lo, hi, pos, kind = self.inputs[n]
            v = m.eval(self.em.var(REG.vars[n]), model_completion=True)
            res[n] = _z3num(v)
            if kind == "int":
                res[n] = int(round(res[n]))
        return res


def _has_special(s):
    return False


def _z3num(v):
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        v = v.approx(20)
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    return 0.0


def _rand_in(rng, lo, hi, pos, kind):
    if kind == "int":
        return rng.randint(lo, hi)
    if lo is not None and hi is not None:
        lo, hi = float(lo), float(hi)
        v = lo + (hi - lo) * rng.random()
        if hi - lo > 2:
            v = round(v, 3)
        return v
    if lo is not None:
        return float(lo) + rng.random() * rng.choice([1.0, 3.0])+ 0.01
    if hi is not None:
        return float(hi) - rng.random() * rng.choice([1.0, 3.0]) - 0.01
    v = rng.uniform(-2, 2)
    if pos:
        return abs(v) + 0.05
    return v


def _is_arrayish(x):
    return isinstance(x, (np.ndarray, list, tuple)) and not (isinstance(x, np.ndarray) and x.ndim == 0)


def _asobj(x):
    if isinstance(x, np.ndarray):
        return x.astype(object) if x.dtype != object else x
    if isinstance(x, (list, tuple)):
        return np.array(list(x), dtype=object)
    r = np.empty((), dtype=object)
    r[()] = x
    return r


class ConcreteCtx(BaseCtx):
    """Runs a harness with concrete inputs against the unpatched library."""

    def __init__(self, fg, tier, seed, values):
        super().__init__(fg, tier, seed)
        self.values = values
        self.results = []
        self.counts = {}
        self.n_env = 0
        self.rng = random.Random(seed)
        self.drawn = {}

    def real(self, name, lo=None, hi=None, pos=False):
        v = self.values.get(name)
        if v is None:
            v = _rand_in(self.rng, lo, hi, pos, "real")
            self.values[name] = v
        v = float(v)
        if lo is not None and v < float(lo) or hi is not None and v > float(hi):
            raise AssumptionFailed(name)
        if pos and not v > 0:
            raise AssumptionFailed(name)
        return v

    def choose(self, name, n):
        v = self.values.get("choice:" + name)
        if v is None:
            v = self.rng.randrange(n)
            self.values["choice:" + name] = v
        v = int(v)
        if not 0 <= v < n:
            raise AssumptionFailed(name)
        return v

    def flag(self, name):
        return bool(self.choose(name, 2))

    def assume(self, cond):
        if not cond:
            raise AssumptionFailed()

    def check(self, name, cond, **kw):
        c = bool(np.all(np.asarray(cond, dtype=bool)))
        self.results.append((name, c, "" if c else "condition false"))

    def equal(self, name, a, b, rtol=1e-6, atol=1e-13, scale=None):
        if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
            self.results.append((name, a == b, "%r vs %r" % (a, b)))
            return
        aa = np.asarray(a, dtype=float)
        bb = np.asarray(b, dtype=float)
        if bb.ndim == 0 and aa.ndim:
            bb = np.full(aa.shape, float(bb))
        if aa.shape != bb.shape:
            self.results.append((name + ":shape", False, "shapes %s vs %s" % (aa.shape, bb.shape)))
            return
        sc = 0.0 if scale is None else float(np.max(np.abs(np.asarray(scale, dtype=float))))
        fin = np.isfinite(aa) & np.isfinite(bb)
        bad = ~fin & ~((aa == bb) | (np.isnan(aa) & np.isnan(bb)))
        if aa.size:
            sc = max([sc] + [float(np.max(np.abs(x[fin]))) for x in (aa, bb) if fin.any()])
        tol = rtol * sc + atol
        with np.errstate(all="ignore"):
            bad = bad | (fin & (np.abs(aa - bb) > tol))
        ok = not bad.any()
        det = ""
        if not ok:
            idx = np.argwhere(bad)[0] if bad.ndim else ()
            idx = tuple(int(i) for i in idx)
            det = "got %r expected %r at %s (tol %.3g)" % (float(aa[idx]), float(bb[idx]), idx, tol)
        self.results.append((name, ok, det))

    def near(self, name, a, b, tol):
        ok = abs(float(a) - float(b)) <= float(tol) * (1 + 1e-6)
        self.results.append((name, ok, "" if ok else "%r vs %r (tol %g)" % (float(a), float(b), tol)))

    def le(self, name, a, b, tol=1e-9):
        a, b = float(a), float(b)
        ok = a <= b + tol * max(1.0, abs(a), abs(b))
        self.results.append((name, ok, "" if ok else "%r > %r" % (a, b)))

    def note(self, msg):
        pass
