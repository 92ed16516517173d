"""Symbolic real values: canonical rational functions over *atoms*.

A `Sym` is a Laurent polynomial with rational coefficients in atoms.  An atom is
  - an input variable,
  - `pi`,
  - inv(p): reciprocal of a polynomial p with more than one term,
  - sqrt(x), abs(x)  (s*s is rewritten to x resp. x*x),
  - clip/min/max of arguments (constrained atom),
  - an application of an uninterpreted function (ellipk, log, sin, spline basis...),
  - a fresh value constrained by the environment (solver output, random number).
Floats met on the way are read as the simplest rational which rounds to them, so
the semantic domain is the exact reals.

A `SymBool` is a comparison of a Sym with zero or a boolean combination; asking
for its truth value forks the execution through the current `Ctx`.
"""
import decimal as _decimal
import math
import numbers
import random
from fractions import Fraction
from functools import lru_cache

import numpy as _np

P = (1 << 61) - 1


class Unsupported(Exception):
    """The engine cannot encode this operation."""


class PathEnd(BaseException):
    """The current path is infeasible or was cut."""


@lru_cache(maxsize=65536)
def simplest_fraction(x):
    """Simplest rational that rounds to the float x."""
    x = float(x)
    if math.isnan(x) or math.isinf(x):
        raise Unsupported("non-finite constant %r" % x)
    if x == int(x) and abs(x) < 2 ** 53:
        return Fraction(int(x))
    if x < 0:
        return -simplest_fraction(-x)
    s = repr(x)
    digits = s.replace(".", "").lstrip("0").split("e")[0].rstrip("0")
    if len(digits) <= 11:
        return Fraction(s)
    exact = Fraction(x)
    half = Fraction(math.ulp(x)) / 2
    f = _simplest_between(exact - half, exact + half)
    if float(f) == x:
        return f
    return exact


def _simplest_between(lo, hi):
    # Stern-Brocot: simplest fraction in the closed interval [lo, hi], 0 < lo
    fl = lo.numerator // lo.denominator
    if fl == lo:
        return Fraction(fl)
    if fl + 1 <= hi:
        return Fraction(fl + 1)
    r = _simplest_between(1 / (hi - fl), 1 / (lo - fl))
    return fl + 1 / r


def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, _np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, _np.integer)):
        return Fraction(int(x))
    if isinstance(x, (float, _np.floating)):
        return simplest_fraction(float(x))
    raise Unsupported("cannot convert %r to a rational" % type(x))


# ---------------------------------------------------------------- atoms


class Atom:
    __slots__ = (
        "id", "name", "kind", "args", "square", "invof", "pos", "nonneg",
        "evalf", "fp", "_z3", "cons", "lo", "hi", "isint",
    )

    def __init__(self, reg, name, kind, args=()):
        self.id = len(reg.atoms)
        reg.atoms.append(self)
        self.name = name
        self.kind = kind
        self.args = args
        self.square = None
        self.invof = None
        self.pos = False
        self.nonneg = False
        self.evalf = None
        self.cons = None  # function returning list of SymBool
        self.lo = None
        self.hi = None
        self.isint = False
        rng = random.Random("%s|%d" % (name, self.id))
        self.fp = rng.randrange(2, P - 2)
        self._z3 = None

    def __repr__(self):
        return self.name


class Registry:
    def __init__(self):
        self.reset()

    def reset(self):
        self.atoms = []
        self.special = set()
        self.vars = {}
        self.intern = {}  # (kind, fingerprints) -> [atom]
        self.invs = {}
        self.fresh_count = 0
        self._pi = None

    def var(self, name):
        a = self.vars.get(name)
        if a is None:
            a = Atom(self, name, "var")
            self.vars[name] = a
        return a

    def pi(self):
        if self._pi is None:
            a = Atom(self, "pi", "pi")
            a.pos = a.nonneg = True
            a.lo = Fraction(314159265, 10 ** 8)
            a.hi = Fraction(314159266, 10 ** 8)
            a.evalf = lambda env: math.pi
            self._pi = a
        return self._pi


REG = Registry()


def mono_mul(m1, m2):
    """Product of monomials; second result tells that a reduction is needed."""
    if not m1:
        return m2, False
    if not m2:
        return m1, False
    out = []
    i = j = 0
    n1 = len(m1)
    n2 = len(m2)
    special = REG.special
    flag = False
    while i < n1 and j < n2:
        a = m1[i]
        b = m2[j]
        if a[0] == b[0]:
            e = a[1] + b[1]
            if e:
                out.append((a[0], e))
                if a[0] in special:
                    flag = True
            i += 1
            j += 1
        elif a[0] < b[0]:
            out.append(a)
            i += 1
        else:
            out.append(b)
            j += 1
    if i < n1:
        out.extend(m1[i:])
    elif j < n2:
        out.extend(m2[j:])
    return tuple(out), flag


def _needs_reduction(m):
    for aid, e in m:
        if aid in REG.special:
            a = REG.atoms[aid]
            if a.square is not None:
                if e not in (0, 1):
                    return True
            elif a.invof is not None and e < 0:
                return True
    return False


def _reduce(m):
    """Rewrite a monomial with out-of-range exponents of special atoms."""
    keep = []
    res = None
    for aid, e in m:
        a = REG.atoms[aid]
        if aid in REG.special:
            if a.square is not None and e not in (0, 1):
                q, r = divmod(e, 2)
                if r:
                    keep.append((aid, 1))
                f = a.square ** q
                res = f if res is None else res * f
                continue
            if a.invof is not None and e < 0:
                f = a.invof ** (-e)
                res = f if res is None else res * f
                continue
        keep.append((aid, e))
    k = Sym._mk({tuple(keep): Fraction(1)})
    return k if res is None else k * res


MAXTERMS = 20000


TOKENS = []


def token(v):
    """A number written to a text file: the text refers to the value."""
    TOKENS.append(v)
    return "@%d@" % (len(TOKENS) - 1)


class Sym:
    __slots__ = ("p", "_fp")

    @staticmethod
    def _mk(p):
        s = object.__new__(Sym)
        s.p = p
        s._fp = None
        return s

    @staticmethod
    def const(c):
        c = frac(c)
        return Sym._mk({(): c} if c else {})

    @staticmethod
    def of(x):
        if isinstance(x, Sym):
            return x
        if isinstance(x, SymBool):
            return Sym.const(1 if bool(x) else 0)
        if isinstance(x, _np.ndarray) and x.size == 1:
            return Sym.of(x.reshape(-1)[0])
        return Sym.const(x)

    @staticmethod
    def atom(a):
        return Sym._mk({((a.id, 1),): Fraction(1)})

    # -- inspection
    def is_const(self):
        return not self.p or (len(self.p) == 1 and () in self.p)

    def const_value(self):
        return self.p.get((), Fraction(0))

    def fp(self):
        if self._fp is None:
            tot = 0
            for m, c in self.p.items():
                t = c.numerator * pow(c.denominator, -1, P) % P
                for aid, e in m:
                    t = t * pow(REG.atoms[aid].fp, e, P) % P
                tot = (tot + t) % P
            self._fp = tot
        return self._fp

    def atom_ids(self):
        s = set()
        for m in self.p:
            for aid, _ in m:
                s.add(aid)
        return s

    # -- arithmetic
    def __add__(self, o):
        if isinstance(o, _np.ndarray) and o.ndim:
            return NotImplemented
        try:
            o = Sym.of(o)
        except Unsupported:
            if isinstance(o, (float, _np.floating)):
                return _inf_arith("add", self, o)
            return NotImplemented
        if not o.p:
            return self
        if not self.p:
            return o
        a, b = (self.p, o.p) if len(self.p) >= len(o.p) else (o.p, self.p)
        r = dict(a)
        for m, c in b.items():
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = v + c
                if v:
                    r[m] = v
                else:
                    del r[m]
        return Sym._mk(r)

    __radd__ = __add__

    def __neg__(self):
        return Sym._mk({m: -c for m, c in self.p.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, _np.ndarray) and o.ndim:
            return NotImplemented
        try:
            o = Sym.of(o)
        except Unsupported:
            if isinstance(o, (float, _np.floating)):
                return _inf_arith("add", self, -o)
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        try:
            o = Sym.of(o)
        except Unsupported:
            if isinstance(o, (float, _np.floating)):
                return _inf_arith("add", self, o)
            return NotImplemented
        return o + (-self)

    def __mul__(self, o):
        if isinstance(o, _np.ndarray) and o.ndim:
            return NotImplemented
        try:
            o = Sym.of(o)
        except Unsupported:
            return NotImplemented
        a, b = self.p, o.p
        if not a or not b:
            return ZERO
        if len(a) > len(b):
            a, b = b, a
        if len(a) == 1:
            ((m1, c1),) = a.items()
            if not m1:
                if c1 == 1:
                    return Sym._mk(b)
                return Sym._mk({m: c * c1 for m, c in b.items()})
        if len(a) * len(b) > MAXTERMS * 8:
            raise Unsupported("polynomial too large")
        r = {}
        extra = None
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m, flag = mono_mul(m1, m2)
                c = c1 * c2
                if flag and _needs_reduction(m):
                    t = _reduce(m) * Sym._mk({(): c})
                    extra = t if extra is None else extra + t
                    continue
                v = r.get(m)
                if v is None:
                    r[m] = c
                else:
                    v = v + c
                    if v:
                        r[m] = v
                    else:
                        del r[m]
        s = Sym._mk(r)
        if extra is not None:
            s = s + extra
        if len(s.p) > MAXTERMS:
            raise Unsupported("polynomial too large")
        return s

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, _np.ndarray) and o.ndim:
            return NotImplemented
        try:
            o = Sym.of(o)
        except Unsupported:
            if isinstance(o, (float, _np.floating)) and math.isinf(o):
                return ZERO
            return NotImplemented
        if o.is_const():
            c = o.const_value()
            if not c:
                raise ZeroDivisionError("symbolic division by constant zero")
            return Sym._mk({m: v / c for m, v in self.p.items()})
        if len(self.p) == len(o.p) and len(o.p) > 1:
            ma, ca, pa = content(self)
            mb, cb, pb = content(o)
            if pa.p == pb.p:
                return _mono_pow_sym(ma, 1) * _mono_pow_sym(mb, -1) * (ca / cb)
        return self * o.inverse()

    def __rtruediv__(self, o):
        try:
            o = Sym.of(o)
        except Unsupported:
            return NotImplemented
        return o / self

    def inverse(self):
        if self.is_const():
            c = self.const_value()
            if not c:
                raise ZeroDivisionError("symbolic division by constant zero")
            return Sym.const(1 / c)
        if len(self.p) == 1:
            ((m, c),) = self.p.items()
            return _mono_pow_sym(m, -1) * (1 / c)
        m, c, prim = content(self)
        inv = inv_atom(prim)
        return _mono_pow_sym(m, -1) * Sym.atom(inv) * (1 / c)

    def __floordiv__(self, o):
        q = self / o
        if isinstance(q, Sym) and q.is_const():
            v = q.const_value()
            return Sym.const(v.numerator // v.denominator)
        raise Unsupported("symbolic floor division")

    def __rfloordiv__(self, o):
        return Sym.of(o) // self

    def __mod__(self, o):
        o = Sym.of(o)
        if self.is_const() and o.is_const():
            return Sym.const(self.const_value() % o.const_value())
        raise Unsupported("symbolic modulo")

    def __pow__(self, e):
        if isinstance(e, _np.ndarray) and e.ndim:
            return NotImplemented
        if isinstance(e, Sym):
            if not e.is_const():
                return uf("pow", (self, e))
            e = e.const_value()
        e = frac(e)
        if e.denominator == 1:
            n = int(e)
            if n == 0:
                return ONE
            if n < 0:
                return self.inverse() ** (-n)
            if len(self.p) == 1:
                ((m, c),) = self.p.items()
                return _mono_pow_sym(m, n) * (c ** n)
            r = None
            b = self
            while n:
                if n & 1:
                    r = b if r is None else r * b
                n >>= 1
                if n:
                    b = b * b
            return r
        if e.denominator == 2:
            return sym_sqrt(self) ** int(2 * e)
        if self.is_const() and self.const_value() in (0, 1):
            return self
        return uf("pow", (self, Sym.const(e)))

    def __rpow__(self, o):
        o = Sym.of(o)
        return o ** self

    def __abs__(self):
        return sym_abs(self)

    # -- comparisons
    def _cmp(self, o, op, swap=False):
        if isinstance(o, _np.ndarray) and o.ndim:
            return NotImplemented
        if o is None or isinstance(o, str):
            if op == "==":
                return False
            if op == "!=":
                return True
            raise TypeError("cannot compare a number with %r" % (o,))
        if isinstance(o, (float, _np.floating)) and not math.isfinite(o):
            v = 0.0
            return {"<": v < o, "<=": v <= o, "==": False, "!=": True,
                    ">": v > o, ">=": v >= o}[op]
        try:
            o = Sym.of(o)
        except Unsupported:
            return NotImplemented
        if op in ("<", "<=", "==", "!="):
            return cmp0(op, self - o)
        if op == ">":
            return cmp0("<", o - self)
        return cmp0("<=", o - self)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        return self._cmp(o, "!=")

    def __hash__(self):
        return hash(self.fp())

    def __bool__(self):
        return bool(cmp0("!=", self))

    def __float__(self):
        if self.is_const():
            return float(self.const_value())
        v = const_eval(self)
        if v is not None:
            return v
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        if self.is_const():
            return int(self.const_value())
        raise Unsupported("int() of a symbolic value")

    def __index__(self):
        if self.is_const() and self.const_value().denominator == 1:
            return int(self.const_value())
        raise TypeError("symbolic value used as an index")

    def __round__(self, n=None):
        if self.is_const():
            r = round(self.const_value(), n) if n is not None else round(self.const_value())
            return r if n is None else Sym.const(r)
        raise Unsupported("round() of a symbolic value")

    def __trunc__(self):
        return int(self)

    def __floor__(self):
        return math.floor(self._cv())

    def __ceil__(self):
        return math.ceil(self._cv())

    def _cv(self):
        if self.is_const():
            return self.const_value()
        raise Unsupported("rounding of a symbolic value")

    def __repr__(self):
        return "<%s>" % poly_str(self, 6)

    __str__ = __repr__

    def __format__(self, spec):
        if self.is_const():
            try:
                return format(float(self.const_value()), spec)
            except ValueError:
                return format(self.const_value(), "")
        if spec:
            return token(self)
        return "<sym>"

    # numpy calls these on object arrays
    def sqrt(self):
        return sym_sqrt(self)

    def exp(self):
        return sym_exp(self)

    def log(self):
        return sym_log(self)

    def sin(self):
        return sym_sin(self)

    def cos(self):
        return sym_cos(self)

    def item(self):
        return self

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return ZERO

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def is_integer(self):
        return self.is_const() and self.const_value().denominator == 1


numbers.Real.register(Sym)

ZERO = Sym._mk({})
ONE = Sym._mk({(): Fraction(1)})


def _inf_arith(op, s, o):
    # finite symbolic value plus an infinity is that infinity
    return float(o)


def _mono_pow_sym(m, n):
    m = tuple((a, e * n) for a, e in m)
    if _needs_reduction(m):
        return _reduce(m)
    return Sym._mk({m: Fraction(1)})


def content(s):
    """s == mono * coeff * primitive; returns (mono, coeff, primitive)."""
    it = iter(s.p)
    first = dict(next(it))
    common = first
    for m in it:
        d = dict(m)
        new = {}
        for a in set(common) | set(d):
            e = min(common.get(a, 0), d.get(a, 0))
            if e:
                new[a] = e
        common = new
    mono = tuple(sorted(common.items()))
    # do not strip special atoms with exponent that cannot be divided freely
    mono = tuple((a, e) for a, e in mono)
    if mono:
        neg = tuple((a, -e) for a, e in mono)
        r = {}
        for m, c in s.p.items():
            mm, _ = mono_mul(m, neg)
            r[mm] = c
    else:
        r = s.p
    lead = max(r)
    c = r[lead]
    if c != 1:
        r = {m: v / c for m, v in r.items()}
    return mono, c, Sym._mk(r)


def inv_atom(prim):
    key = prim.fp()
    for a in REG.invs.get(key, ()):
        if a.invof.p == prim.p or identically_zero(a.invof - prim):
            return a
    a = Atom(REG, "inv%d" % len(REG.atoms), "inv", (prim,))
    a.invof = prim
    a.fp = pow(prim.fp(), -1, P) if prim.fp() else 0
    a.pos = sign_of(prim) > 0
    a.nonneg = a.pos
    a.evalf = lambda env, x=prim: 1.0 / numeval(x, env)
    REG.special.add(a.id)
    REG.invs.setdefault(key, []).append(a)
    return a


def sign_of(s):
    """+1 if provably > 0 by signs of terms, -1 if < 0, 0 unknown, 2: >=0, -2: <=0."""
    if not s.p:
        return 0
    seen = None
    strict = False
    for m, c in s.p.items():
        sg = 1 if c > 0 else -1
        st = True
        for aid, e in m:
            a = REG.atoms[aid]
            if a.pos:
                continue
            if a.nonneg and e > 0 or e % 2 == 0:
                st = False
                continue
            return 0
        if seen is None:
            seen = sg
        elif seen != sg:
            return _root_sign(s)
        strict = strict or st
    return seen if strict else 2 * seen


def _root_sign(s):
    """Sign of (positive monomial) x (rational combination of roots of rationals), 0 if it is not of that form."""
    if len(s.p) > 8:
        return 0
    roots = set()
    for m in s.p:
        for aid, e in m:
            a = REG.atoms[aid]
            if a.kind == "sqrt" and a.args[0].is_const():
                roots.add(aid)
            elif not a.pos:
                return 0
    if not roots and len(s.p) > 1:
        return 0
    mono = None
    tot = _decimal.Decimal(0)
    with _decimal.localcontext() as lc:
        lc.prec = 90
        for m, c in s.p.items():
            v = _decimal.Decimal(c.numerator) / _decimal.Decimal(c.denominator)
            rest = []
            for aid, e in m:
                if aid in roots:
                    k = REG.atoms[aid].args[0].const_value()
                    v *= (_decimal.Decimal(k.numerator) / _decimal.Decimal(k.denominator)).sqrt() ** e
                else:
                    rest.append((aid, e))
            if mono is None:
                mono = rest
            elif mono != rest:
                return 0
            tot += v
        if abs(tot) < _decimal.Decimal(10) ** -60:
            return 0
    return 1 if tot > 0 else -1


def clear_denominators(s):
    """Return (num, factors) with s * prod(p**k) == num, num free of inv atoms and
    of negative exponents.  factors: list of (Sym p, k)."""
    factors = []
    guard = 0
    while True:
        guard += 1
        if guard > 200:
            raise Unsupported("denominator clearing does not terminate")
        mx = {}
        for m in s.p:
            for aid, e in m:
                a = REG.atoms[aid]
                if a.invof is not None:
                    if e > mx.get(aid, 0):
                        mx[aid] = e
        if not mx:
            break
        aid = max(mx)
        k = mx[aid]
        a = REG.atoms[aid]
        p = a.invof
        pk = [ONE]
        for _ in range(k):
            pk.append(pk[-1] * p)
        res = ZERO
        groups = {}
        for m, c in s.p.items():
            e = 0
            rest = []
            for t in m:
                if t[0] == aid:
                    e = t[1]
                else:
                    rest.append(t)
            groups.setdefault(e, {})[tuple(rest)] = c
        for e, g in groups.items():
            res = res + Sym._mk(g) * pk[k - e]
        factors.append((p, k))
        s = res
    mn = {}
    for m in s.p:
        for aid, e in m:
            if e < 0 and e < mn.get(aid, 0):
                mn[aid] = e
    if mn:
        mono = tuple(sorted((a, -e) for a, e in mn.items()))
        s = s * Sym._mk({mono: Fraction(1)})
        for a, e in mn.items():
            factors.append((Sym.atom(REG.atoms[a]), -e))
        # multiplication may reintroduce inv atoms through reductions
        if any(REG.atoms[aid].invof is not None for aid in s.atom_ids()):
            s, f2 = clear_denominators(s)
            factors.extend(f2)
    return s, factors


def identically_zero(s):
    if not s.p:
        return True
    if s.fp() != 0:
        return False
    n, _ = clear_denominators(s)
    return not n.p


# ------------------------------------------------------- special functions


def _intern(kind, args, build):
    key = (kind,) + tuple(a.fp() if isinstance(a, Sym) else a for a in args)
    for at in REG.intern.get(key, ()):
        if all(
            (not isinstance(x, Sym)) or x.p == y.p or identically_zero(x - y)
            for x, y in zip(at.args, args)
        ):
            return at
    at = build()
    REG.intern.setdefault(key, []).append(at)
    return at


def _isqrt_parts(n):
    """n = a*a*b with b square-free (for moderate n)."""
    a = 1
    b = n
    r = math.isqrt(n)
    if r * r == n:
        return r, 1
    d = 2
    while d * d <= b and d < 2000:
        while b % (d * d) == 0:
            b //= d * d
            a *= d
        d += 1
    return a, b


def sym_sqrt(x):
    x = Sym.of(x)
    if x.is_const():
        c = x.const_value()
        if c < 0:
            raise Unsupported("sqrt of a negative constant")
        if c == 0:
            return ZERO
        n, d = c.numerator * c.denominator, c.denominator
        a, b = _isqrt_parts(n)
        r = Sym.const(Fraction(a, d))
        if b == 1:
            return r
        return r * _sqrt_atom(Sym.const(b))
    mono, c, prim = content(x)
    out = ONE
    rest = []
    # keep the sign with the primitive part
    for aid, e in mono:
        a = REG.atoms[aid]
        if a.pos or a.nonneg:
            q, r = divmod(e, 2)
            if q:
                out = out * _mono_pow_sym(((aid, 1),), 2 * q // 2)
            if r:
                if a.invof is not None:
                    out = out * Sym.atom(a) * _sqrt_atom(a.invof)
                else:
                    out = out * _sqrt_atom(Sym.atom(a))
        else:
            rest.append((aid, e))
    core = prim
    if rest:
        core = core * _mono_pow_sym(tuple(rest), 1)
    if c < 0:
        core = -core
        c = -c
    if core.is_const():
        return out * sym_sqrt(Sym.const(c * core.const_value()))
    sq = _perfect_square(core)
    if sq is not None:
        return out * sym_sqrt(Sym.const(c)) * sym_abs(sq)
    return out * sym_sqrt(Sym.const(c)) * _sqrt_atom(core)


def _perfect_square(s):
    """Single-term even monomials, or a**2 + 2ab + b**2 of two/three terms."""
    if len(s.p) == 1:
        ((m, c),) = s.p.items()
        if c > 0 and all(e % 2 == 0 for _, e in m):
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return Sym._mk({tuple((a, e // 2) for a, e in m): Fraction(n, d)})
        return None
    if len(s.p) == 3:
        sqs = []
        for m, c in s.p.items():
            if c > 0 and all(e % 2 == 0 for _, e in m):
                n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
                if n * n == c.numerator and d * d == c.denominator:
                    sqs.append(Sym._mk({tuple((a, e // 2) for a, e in m): Fraction(n, d)}))
        for i in range(len(sqs)):
            for j in range(i):
                for sg in (1, -1):
                    t = sqs[i] + sqs[j] * sg
                    if (t * t).p == s.p:
                        return t
    return None


def _sqrt_atom(x):
    def build():
        a = Atom(REG, "sqrt%d" % len(REG.atoms), "sqrt", (x,))
        a.square = x
        a.nonneg = True
        a.pos = sign_of(x) == 1
        REG.special.add(a.id)
        a.evalf = lambda env: math.sqrt(max(numeval(x, env), 0.0))
        a.cons = lambda: [cmp0("<=", -Sym.atom(a)), ("sq", a, x)]
        return a

    return Sym.atom(_intern("sqrt", (x,), build))


def sym_abs(x):
    x = Sym.of(x)
    if x.is_const():
        return Sym.const(abs(x.const_value()))
    sg = sign_of(x)
    if sg in (1, 2):
        return x
    if sg in (-1, -2):
        return -x
    mono, c, prim = content(x)
    out = Sym.const(abs(c))
    rest = []
    for aid, e in mono:
        a = REG.atoms[aid]
        if a.pos or a.nonneg or e % 2 == 0:
            out = out * _mono_pow_sym(((aid, e),), 1)
        else:
            rest.append((aid, e))
    core = prim * _mono_pow_sym(tuple(rest), 1) if rest else prim
    if core.is_const():
        return out * abs(core.const_value())

    def build():
        a = Atom(REG, "abs%d" % len(REG.atoms), "abs", (core,))
        a.square = core * core
        a.nonneg = True
        REG.special.add(a.id)
        a.evalf = lambda env: abs(numeval(core, env))
        A = Sym.atom(a)
        a.cons = lambda: [
            b_or(b_and(cmp0("<=", -core), cmp0("==", A - core)),
                 b_and(cmp0("<", core), cmp0("==", A + core)))
        ]
        return a

    return out * Sym.atom(_intern("abs", (core,), build))


UF_EVAL = {}
UF_INFO = {}  # name -> dict(pos=, lo=, hi=)


def uf(name, args, evalf=None, **info):
    args = tuple(Sym.of(a) if not isinstance(a, (str, int, tuple)) else a for a in args)

    def build():
        a = Atom(REG, "%s#%d" % (name, len(REG.atoms)), "uf", args)
        inf = dict(UF_INFO.get(name, {}))
        inf.update(info)
        a.pos = inf.get("pos", False)
        a.nonneg = a.pos or inf.get("nonneg", False)
        a.lo = inf.get("lo")
        a.hi = inf.get("hi")
        cons = inf.get("cons")
        if cons:
            a.cons = lambda: cons(Sym.atom(a), *args)
        f = evalf or UF_EVAL.get(name)
        if f is not None:
            a.evalf = lambda env: float(
                f(*[numeval(x, env) if isinstance(x, Sym) else x for x in args])
            )
        return a

    return Sym.atom(_intern("uf:" + name, args, build))


def fresh(name, lo=None, hi=None, pos=False, evalf=None):
    a = REG.var(name)
    if a.kind == "var" and a.evalf is None:
        a.kind = "fresh"
        a.evalf = evalf
    a.pos = pos
    a.nonneg = pos
    a.lo, a.hi = lo, hi
    return Sym.atom(a)


def sym_clip(x, lo, hi):
    x = Sym.of(x)
    los = None if lo is None else Sym.of(lo)
    his = None if hi is None else Sym.of(hi)
    if x.is_const() and (los is None or los.is_const()) and (his is None or his.is_const()):
        v = x.const_value()
        if los is not None:
            v = max(v, los.const_value())
        if his is not None:
            v = min(v, his.const_value())
        return Sym.const(v)

    def build():
        a = Atom(REG, "clip%d" % len(REG.atoms), "clip", (x, los or "None", his or "None"))
        A = Sym.atom(a)
        if los is not None and sign_of(los) == 1:
            a.pos = a.nonneg = True
        elif los is not None and (sign_of(los) == 2 or los.is_const() and los.const_value() >= 0):
            a.nonneg = True
        if los is not None and los.is_const():
            a.lo = los.const_value()
        if his is not None and his.is_const():
            a.hi = his.const_value()

        def cons():
            parts = []
            mid = [cmp0("==", A - x)]
            if los is not None:
                parts.append(b_and(cmp0("<", x - los), cmp0("==", A - los)))
                mid.append(cmp0("<=", los - x))
            if his is not None:
                parts.append(b_and(cmp0("<", his - x), cmp0("==", A - his)))
                mid.append(cmp0("<=", x - his))
            parts.append(b_and(*mid))
            return [b_or(*parts)]

        a.cons = cons

        def ev(env):
            v = numeval(x, env)
            if los is not None:
                v = max(v, numeval(los, env))
            if his is not None:
                v = min(v, numeval(his, env))
            return v

        a.evalf = ev
        return a

    args = (x, los if los is not None else "None", his if his is not None else "None")
    return Sym.atom(_intern("clip", args, build))


def sym_extremum(vals, which):
    vals = [Sym.of(v) for v in vals]
    uniq = []
    for v in vals:
        if not any(v.p == u.p for u in uniq):
            uniq.append(v)
    if all(v.is_const() for v in uniq):
        f = max if which == "max" else min
        return Sym.const(f(v.const_value() for v in uniq))
    w = 1 if which == "max" else -1
    keep = []
    for i, v in enumerate(uniq):
        # leave out what another one is known to exceed
        if len(uniq) > 16 or not any(sign_of(u - v) == w for j, u in enumerate(uniq) if j != i):
            keep.append(v)
    uniq = keep
    if len(uniq) == 1:
        return uniq[0]
    uniq.sort(key=lambda s: s.fp())
    args = tuple(uniq)

    def build():
        a = Atom(REG, "%s%d" % (which, len(REG.atoms)), which, args)
        A = Sym.atom(a)
        if all(sign_of(v) == 1 for v in args):
            a.pos = a.nonneg = True

        def cons():
            if which == "max":
                r = [cmp0("<=", v - A) for v in args]
            else:
                r = [cmp0("<=", A - v) for v in args]
            r.append(b_or(*[cmp0("==", A - v) for v in args]))
            return r

        a.cons = cons
        f = max if which == "max" else min
        a.evalf = lambda env: f(numeval(v, env) for v in args)
        return a

    return Sym.atom(_intern(which, args, build))


def _factor_small(n):
    out = {}
    d = 2
    while d * d <= n and d < 100000:
        while n % d == 0:
            out[d] = out.get(d, 0) + 1
            n //= d
        d += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def _log_atom(x):
    def build():
        a = Atom(REG, "log%d" % len(REG.atoms), "log", (x,))
        a.evalf = lambda env: math.log(numeval(x, env))
        A = Sym.atom(a)
        a.cons = lambda: [
            b_or(b_and(cmp0("<", 1 - x), cmp0("<", -A)),
                 b_and(cmp0("<", x - 1), cmp0("<", A)),
                 b_and(cmp0("==", x - 1), cmp0("==", A)))
        ]
        return a

    return Sym.atom(_intern("log", (x,), build))


def sym_log(x):
    x = Sym.of(x)
    if not x.p:
        raise Unsupported("log(0)")
    mono, c, prim = content(x)
    if c < 0:
        c = -c
        prim = -prim
    out = ZERO
    rest = []
    for aid, e in mono:
        a = REG.atoms[aid]
        if a.pos:
            if a.invof is not None:
                out = out - e * sym_log(a.invof)
            elif a.kind == "sqrt":
                out = out + Fraction(e, 2) * sym_log(a.square)
            else:
                out = out + e * _log_atom(Sym.atom(a))
        else:
            rest.append((aid, e))
    for p, k in _factor_small(c.numerator).items():
        out = out + k * _log_atom(Sym.const(p))
    for p, k in _factor_small(c.denominator).items():
        out = out - k * _log_atom(Sym.const(p))
    core = prim * _mono_pow_sym(tuple(rest), 1) if rest else prim
    if core.is_const() and core.const_value() == 1:
        return out
    return out + _log_atom(core)


def sym_exp(x):
    x = Sym.of(x)
    if not x.p:
        return ONE
    return uf("exp", (x,), pos=True)


def _odd_even(x):
    """(sign, x') with x' having a positive leading coefficient."""
    lead = max(x.p)
    if x.p[lead] < 0:
        return -1, -x
    return 1, x


def sym_sin(x):
    x = Sym.of(x)
    if not x.p:
        return ZERO
    sg, y = _odd_even(x)
    q = _pi_multiple(y)
    if q is not None and (2 * q).denominator == 1:
        return Sym.const([0, 1, 0, -1][int(2 * q) % 4] * sg)
    return sg * uf("sin", (y,), lo=Fraction(-1), hi=Fraction(1), cons=_trig_cons("sin"))


def sym_cos(x):
    x = Sym.of(x)
    if not x.p:
        return ONE
    _, y = _odd_even(x)
    q = _pi_multiple(y)
    if q is not None and (2 * q).denominator == 1:
        return Sym.const([1, 0, -1, 0][int(2 * q) % 4])
    return uf("cos", (y,), lo=Fraction(-1), hi=Fraction(1))


def _trig_cons(which):
    def cons(A, y):
        c = uf("cos", (y,), lo=Fraction(-1), hi=Fraction(1))
        return [cmp0("==", A * A + c * c - 1)]
    return cons


def _pi_multiple(y):
    if len(y.p) == 1 and REG._pi is not None:
        ((m, c),) = y.p.items()
        if m == ((REG._pi.id, 1),):
            return c
    return None


# ------------------------------------------------------- booleans


class SymBool:
    __slots__ = ("kind", "op", "d", "parts")

    def __init__(self, kind, op=None, d=None, parts=()):
        self.kind = kind
        self.op = op
        self.d = d
        self.parts = parts

    def __bool__(self):
        from . import ctx as _ctx
        return _ctx.CUR.decide(self)

    def __and__(self, o):
        return b_and(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return b_or(self, o)

    __ror__ = __or__

    def __invert__(self):
        return b_not(self)

    def __xor__(self, o):
        o = as_bool(o)
        return b_or(b_and(self, b_not(o)), b_and(b_not(self), o))

    __rxor__ = __xor__

    def __eq__(self, o):
        return b_not(self ^ o)

    def __ne__(self, o):
        return self ^ o

    def __hash__(self):
        return id(self)

    def __mul__(self, o):
        return Sym.of(self) * o

    __rmul__ = __mul__

    def __add__(self, o):
        return Sym.of(self) + o

    __radd__ = __add__

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __repr__(self):
        if self.kind == "cmp":
            return "(%s %s 0)" % (poly_str(self.d, 5), self.op)
        return "(%s %s)" % (self.kind, " ".join(map(repr, self.parts)))

    def key(self):
        if self.kind == "cmp":
            return (self.op, self.d.fp())
        return (self.kind,) + tuple(as_bool(p).key() if isinstance(p, SymBool) else p for p in self.parts)

    def atom_ids(self):
        if self.kind == "cmp":
            return self.d.atom_ids()
        r = set()
        for p in self.parts:
            if isinstance(p, SymBool):
                r |= p.atom_ids()
        return r


def as_bool(x):
    return x if isinstance(x, SymBool) else bool(x)


def cmp0(op, d):
    if d.is_const():
        v = d.const_value()
        return {"<": v < 0, "<=": v <= 0, "==": v == 0, "!=": v != 0}[op]
    sg = sign_of(d)
    if sg == 1:
        return {"<": False, "<=": False, "==": False, "!=": True}[op]
    if sg == -1:
        return {"<": True, "<=": True, "==": False, "!=": True}[op]
    if sg == 2 and op == "<":
        return False
    if sg == -2 and op == "<=":
        return True
    if op in ("==", "!=") and identically_zero(d):
        return op == "=="
    if d.fp() == 0 and identically_zero(d):
        return op in ("<=", "==")
    return SymBool("cmp", op, d)


def b_not(b):
    if not isinstance(b, SymBool):
        return not b
    if b.kind == "cmp":
        d = b.d
        if b.op == "<":
            return SymBool("cmp", "<=", -d)
        if b.op == "<=":
            return SymBool("cmp", "<", -d)
        return SymBool("cmp", "!=" if b.op == "==" else "==", d)
    if b.kind == "and":
        return b_or(*[b_not(p) for p in b.parts])
    return b_and(*[b_not(p) for p in b.parts])


def b_and(*ps):
    out = []
    for p in ps:
        if isinstance(p, SymBool):
            out.append(p)
        elif not p:
            return False
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return SymBool("and", parts=tuple(out))


def b_or(*ps):
    out = []
    for p in ps:
        if isinstance(p, SymBool):
            out.append(p)
        elif p:
            return True
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return SymBool("or", parts=tuple(out))


# ------------------------------------------------------- numeric evaluation


class NotEvaluable(Exception):
    pass


def numeval(x, env):
    if not isinstance(x, Sym):
        return float(x)
    tot = 0.0
    for m, c in x.p.items():
        t = float(c)
        for aid, e in m:
            t *= atomeval(REG.atoms[aid], env) ** e
        tot += t
    return tot


def numeval2(x, env):
    """(value, sum of the absolute values of the terms)"""
    tot = mag = 0.0
    for m, c in x.p.items():
        t = float(c)
        for aid, e in m:
            t *= atomeval(REG.atoms[aid], env) ** e
        tot += t
        mag += abs(t)
    return tot, mag


def atomeval(a, env):
    v = env.get(a.id)
    if v is not None:
        return v
    if a.name in env:
        v = float(env[a.name])
    elif a.evalf is not None:
        v = a.evalf(env)
    else:
        raise NotEvaluable(a.name)
    env[a.id] = v
    return v


def booleval(b, env, tol=0.0):
    if not isinstance(b, SymBool):
        return bool(b)
    if b.kind == "cmp":
        v = numeval(b.d, env)
        if b.op == "<":
            return v < 0
        if b.op == "<=":
            return v <= tol
        if b.op == "==":
            return abs(v) <= tol
        return v != 0
    if b.kind == "and":
        return all(booleval(p, env, tol) for p in b.parts)
    return any(booleval(p, env, tol) for p in b.parts)


def const_eval(s):
    """Float value if s depends on no input (only pi, sqrt of constants...)."""
    try:
        return numeval(s, {})
    except (NotEvaluable, ZeroDivisionError, ValueError, OverflowError):
        return None


def poly_str(s, maxterms=10):
    out = []
    for m, c in list(s.p.items())[:maxterms]:
        t = str(c)
        for aid, e in m:
            t += "*%s" % REG.atoms[aid].name
            if e != 1:
                t += "^%d" % e
        out.append(t)
    if len(s.p) > maxterms:
        out.append("...(%d terms)" % len(s.p))
    return " + ".join(out) if out else "0"


try:
    import scipy.special as _sp

    UF_EVAL["ellipk"] = _sp.ellipk
    UF_EVAL["ellipe"] = _sp.ellipe
except Exception:  # pragma: no cover
    pass
UF_EVAL["exp"] = math.exp
UF_EVAL["sin"] = math.sin
UF_EVAL["cos"] = math.cos
UF_EVAL["pow"] = lambda a, b: a ** b
UF_EVAL["arctan2"] = math.atan2
UF_INFO["ellipk"] = dict(pos=True, lo=Fraction(157, 100))
UF_INFO["ellipe"] = dict(pos=True, lo=Fraction(99, 100), hi=Fraction(158, 100))
