"""Stand-ins for the third-party modules freegs imports, used in symbolic mode.

Every function behaves exactly as the original when no symbolic value is
involved; with symbolic values it performs the same operation on `Sym`s, or
raises Unsupported.
"""
import builtins
import math
import types
from fractions import Fraction

import numpy as np

from . import ctx as C
from . import sym as S
from .sym import Sym, SymBool, Unsupported, b_and, b_or

_builtin_max, _builtin_min, _builtin_abs, _builtin_sum = max, min, abs, sum


class ModProxy(types.ModuleType):
    def __init__(self, real, overrides, name=None):
        super().__init__(name or real.__name__)
        self.__dict__["_real"] = real
        self.__dict__["_over"] = overrides

    def __getattr__(self, name):
        over = self.__dict__["_over"]
        if name in over:
            return over[name]
        real = self.__dict__["_real"]
        if real is None:
            raise AttributeError(name)
        v = getattr(real, name)
        if isinstance(v, types.ModuleType):
            return ModProxy(v, {})
        if isinstance(v, (types.FunctionType, types.BuiltinFunctionType, np.ufunc)) or (
                callable(v) and not isinstance(v, type)):
            return forward(v)
        return v


# ---------------------------------------------------------------- helpers


def has_sym(x, depth=0):
    if isinstance(x, (Sym, SymBool)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(isinstance(v, (Sym, SymBool)) for v in x.ravel())
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(has_sym(v, depth + 1) for v in x)
    if isinstance(x, dict) and depth < 4:
        return any(has_sym(v, depth + 1) for v in x.values())
    return False


def to_float(x):
    """Replace constant symbolic values by floats; Unsupported when not constant."""
    if isinstance(x, Sym):
        return float(x)
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, np.ndarray):
        if x.dtype != object:
            return x
        if any(isinstance(v, Sym) for v in x.ravel()):
            return np.array([float(v) for v in x.ravel()], dtype=float).reshape(x.shape)
        return x
    if isinstance(x, list):
        return [to_float(v) for v in x]
    if isinstance(x, tuple):
        return tuple(to_float(v) for v in x)
    if isinstance(x, dict):
        return {k: to_float(v) for k, v in x.items()}
    return x


def forward(fn):
    def f(*a, **k):
        if has_sym(a) or has_sym(k):
            try:
                a2, k2 = to_float(a), to_float(k)
            except Unsupported:
                raise Unsupported("call of %s with symbolic arguments" % getattr(fn, "__name__", fn))
            return fn(*a2, **k2)
        return fn(*a, **k)

    f.__name__ = getattr(fn, "__name__", "fn")
    f.__wrapped__ = fn
    return f


def obj(x):
    """Object array of Syms from anything array-like (floats become constants)."""
    if isinstance(x, (Sym, SymBool)):
        r = np.empty((), dtype=object)
        r[()] = x
        return r
    a = np.asarray(x) if not isinstance(x, np.ndarray) else x
    if a.dtype == object:
        return a
    if a.dtype.kind in "fiub":
        out = np.empty(a.shape, dtype=object)
        fl = out.ravel() if out.ndim else out.reshape(-1)
        src = a.ravel()
        for i in range(src.size):
            v = src[i]
            if a.dtype.kind == "f" and not math.isfinite(v):
                fl[i] = float(v)
            else:
                fl[i] = Sym.const(v)
        return fl.reshape(a.shape)
    return a.astype(object)


def unbox(a):
    """0-d object arrays become scalars, like numpy ufuncs do."""
    if isinstance(a, np.ndarray) and a.ndim == 0:
        return a[()]
    return a


def is_floaty(x):
    a = x if isinstance(x, np.ndarray) else None
    if a is None:
        try:
            a = np.asarray(x)
        except Exception:
            return False
    return a.dtype.kind == "f"


def elementwise(symfn, npfn):
    def f(x, *rest, **kw):
        if not has_sym(x):
            if isinstance(x, np.ndarray) and x.dtype == object:
                x = x.astype(float)
            return npfn(x, *rest, **kw)
        if isinstance(x, Sym):
            return symfn(x)
        a = obj(x)
        out = np.empty(a.shape, dtype=object)
        fo = out.reshape(-1)
        fa = a.reshape(-1)
        for i in range(fa.size):
            fo[i] = symfn(fa[i])
        r = fo.reshape(a.shape)
        if kw.get("out") is not None:
            kw["out"][...] = r
            return kw["out"]
        return unbox(r)

    f.__name__ = getattr(npfn, "__name__", "f")
    return f


def _wrap_creator(fn):
    def f(*a, **k):
        dt = k.get("dtype")
        a = to_float_shape(a)
        r = fn(*a, **k)
        if isinstance(r, np.ndarray) and r.dtype.kind == "f":
            return obj(r)
        return r

    f.__name__ = fn.__name__
    return f


def to_float_shape(a):
    return tuple(int(v) if isinstance(v, Sym) else v for v in a)


def s_full(shape, fill_value, dtype=None, **k):
    if isinstance(fill_value, Sym):
        r = np.empty(shape, dtype=object)
        r[...] = fill_value
        return r
    r = np.full(shape, fill_value, dtype=dtype, **k)
    return obj(r) if r.dtype.kind == "f" else r


def s_empty(shape, dtype=float, **k):
    r = np.zeros(shape, dtype=dtype)
    return obj(r) if r.dtype.kind == "f" else r


def s_array(x, dtype=None, copy=True, **k):
    if isinstance(x, SymRecord):
        return x
    if dtype is not None:
        dt = np.dtype(dtype)
        if dt.names:
            return make_record(x, dt)
        if dt.kind in "f":
            if isinstance(x, np.ndarray):
                r = obj(x)
            else:
                r = np.array(x, dtype=object) if has_sym(x) else np.array(x, dtype=float)
                r = obj(r)
            return r.copy() if copy and r is x else r
        if has_sym(x):
            if dt == object:
                return np.array(x, dtype=object)
            return np.array(to_float(x), dtype=dt)
        return np.array(x, dtype=dt, **k)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return x.copy() if copy else x
    if isinstance(x, Sym):
        return obj(x)
    r = np.array(x, **k) if not isinstance(x, np.ndarray) else x.copy()
    if r.dtype == object:
        # unify entries: every number becomes a Sym
        fl = r.reshape(-1)
        for i in range(fl.size):
            if isinstance(fl[i], np.ndarray) and fl[i].ndim == 0:
                fl[i] = fl[i][()]
            if isinstance(fl[i], (int, float, np.floating, np.integer, Fraction)) and not isinstance(fl[i], bool):
                if not (isinstance(fl[i], (float, np.floating)) and not math.isfinite(fl[i])):
                    fl[i] = Sym.const(fl[i])
        return fl.reshape(r.shape)
    return obj(r) if r.dtype.kind == "f" else r


def s_asarray(x, dtype=None, **k):
    if isinstance(x, np.ndarray) and x.dtype == object and (
            dtype is None or np.dtype(dtype).kind in "fO"):
        return x
    if isinstance(x, np.ndarray) and dtype is None:
        return x
    return s_array(x, dtype=dtype)


def s_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if not (has_sym(start) or has_sym(stop)):
        start = _as_exact(start)
        stop = _as_exact(stop)
    if isinstance(start, np.ndarray) and start.ndim or isinstance(stop, np.ndarray) and stop.ndim:
        raise Unsupported("linspace with array bounds")
    start, stop = Sym.of(unbox(start)), Sym.of(unbox(stop))
    num = int(num)
    div = (num - 1) if endpoint else num
    out = np.empty(num, dtype=object)
    for i in range(num):
        out[i] = start + (stop - start) * Fraction(i, div) if div else start
    if retstep:
        return out, (stop - start) * Fraction(1, div)
    return out


def _as_exact(v):
    if isinstance(v, np.ndarray) and v.ndim:
        return v
    return v


def s_arange(*a, **k):
    if any(isinstance(v, Sym) and not v.is_const() for v in a):
        start, stop, step = (a[0], a[1], a[2] if len(a) > 2 else 1) if len(a) > 1 else (0, a[0], 1)
        start, step = Sym.of(start), Sym.of(step)
        if not bool(step > 0):
            raise Unsupported("arange downwards")
        out = []
        while bool(start + len(out) * step < stop):
            out.append(start + len(out) * step)
            if len(out) > 200:
                raise Unsupported("arange with more than 200 symbolic values")
        return obj(out) if out else np.zeros(0)
    r = np.arange(*to_float(a), **k)
    return obj(r) if r.dtype.kind == "f" else r


def s_clip(x, lo=None, hi=None, a_min=None, a_max=None, out=None, **k):
    lo = a_min if lo is None else lo
    hi = a_max if hi is None else hi
    lo = k.get("min", lo)
    hi = k.get("max", hi)
    if not has_sym(x) and not has_sym(lo) and not has_sym(hi):
        if isinstance(x, np.ndarray) and x.dtype == object:
            x = x.astype(float)
        return np.clip(x, lo, hi, out=out)
    a = obj(x)
    los = np.broadcast_to(obj(lo), a.shape) if lo is not None else None
    his = np.broadcast_to(obj(hi), a.shape) if hi is not None else None
    r = np.empty(a.shape, dtype=object)
    for idx in np.ndindex(*a.shape):
        r[idx] = clip1(a[idx], None if los is None else los[idx], None if his is None else his[idx])
    if out is not None:
        out[...] = r
        return out
    return unbox(r)


def clip1(x, lo, hi):
    cur = C.CUR
    mode = cur.opts.get("clip", "atom") if cur is not None and cur.symbolic else "atom"
    if mode == "atom" or (isinstance(x, Sym) and x.is_const()):
        return S.sym_clip(x, lo, hi)
    # 'fork': decide the branch
    if lo is not None and bool(x < lo):
        return Sym.of(lo)
    if hi is not None and bool(x > hi):
        return Sym.of(hi)
    return x


def s_extremum(which):
    npf = np.max if which == "max" else np.min

    def f(x, axis=None, **k):
        if not has_sym(x):
            if isinstance(x, np.ndarray) and x.dtype == object:
                x = x.astype(float)
            return npf(x, axis=axis, **k)
        a = obj(x)
        if axis is None:
            return S.sym_extremum(list(a.ravel()), which)
        return np.apply_along_axis(lambda v: S.sym_extremum(list(v), which), axis, a)

    return f


s_max = s_extremum("max")
s_min = s_extremum("min")


def s_maximum(which):
    def f(x, y, **k):
        if not has_sym(x) and not has_sym(y):
            return (np.maximum if which == "max" else np.minimum)(x, y, **k)
        a, b = np.broadcast_arrays(obj(x), obj(y))
        r = np.empty(a.shape, dtype=object)
        for idx in np.ndindex(*a.shape):
            r[idx] = S.sym_extremum([a[idx], b[idx]], which)
        return unbox(r)
    return f


def s_argext(which):
    npf = np.argmax if which == "max" else np.argmin

    def f(x, axis=None, **k):
        if not has_sym(x):
            return npf(x, axis=axis, **k)
        if axis is not None:
            raise Unsupported("argmax with axis")
        v = obj(x).ravel()
        best = 0
        for i in range(1, v.size):
            if which == "max":
                if bool(v[i] > v[best]):
                    best = i
            elif bool(v[i] < v[best]):
                best = i
        return best

    return f


def s_ptp(x, axis=None):
    if not has_sym(x):
        return np.ptp(x, axis=axis)
    return s_max(x, axis=axis) - s_min(x, axis=axis)


def s_sum(x, axis=None, **k):
    if isinstance(x, types.GeneratorType):
        return _builtin_sum(x)
    if not has_sym(x):
        return np.sum(x, axis=axis, **k)
    return np.sum(obj(x), axis=axis, **k)


def s_mean(x, axis=None, **k):
    if not has_sym(x):
        return np.mean(x, axis=axis, **k)
    a = obj(x)
    s = np.sum(a, axis=axis)
    n = a.size if axis is None else a.shape[axis]
    return s * Fraction(1, n) if isinstance(s, Sym) else s / Sym.const(n)


def s_average(x, axis=None, weights=None, **k):
    if not has_sym(x) and not has_sym(weights):
        return np.average(x, axis=axis, weights=weights, **k)
    if axis is not None:
        raise Unsupported("average with axis")
    if weights is None:
        return s_mean(x)
    a = obj(x)
    w = obj(weights)
    if w.shape != a.shape:
        # same exceptions as numpy
        np.average(np.ones(a.shape), weights=np.ones(w.shape))
    return np.sum(a * w) / np.sum(w)


def s_dot(a, b, **k):
    if not has_sym(a) and not has_sym(b):
        return np.dot(a, b)
    return unbox(np.dot(obj(a), obj(b)))


def s_allclose(a, b, rtol=1e-05, atol=1e-08, **k):
    if not has_sym(a) and not has_sym(b):
        return np.allclose(a, b, rtol=rtol, atol=atol, **k)
    aa, bb = np.broadcast_arrays(obj(a), obj(b))
    conds = []
    for x, y in zip(aa.ravel(), bb.ravel()):
        conds.append(isclose1(x, y, rtol, atol))
    return bool(b_and(*conds))


def isclose1(x, y, rtol, atol):
    x, y = Sym.of(x), Sym.of(y)
    if S.identically_zero(x - y):
        return True
    return S.sym_abs(x - y) <= Sym.of(atol) + Sym.of(rtol) * S.sym_abs(y)


def s_isclose(a, b, rtol=1e-05, atol=1e-08, **k):
    if not has_sym(a) and not has_sym(b):
        return np.isclose(a, b, rtol=rtol, atol=atol, **k)
    aa, bb = np.broadcast_arrays(obj(a), obj(b))
    out = np.empty(aa.shape, dtype=bool)
    for idx in np.ndindex(*aa.shape):
        out[idx] = bool(isclose1(aa[idx], bb[idx], rtol, atol))
    return unbox(out)


def s_array_equal(a, b, **k):
    if not has_sym(a) and not has_sym(b):
        return np.array_equal(a, b, **k)
    aa, bb = obj(a), obj(b)
    if aa.shape != bb.shape:
        return False
    return bool(b_and(*[x == y for x, y in zip(aa.ravel(), bb.ravel())]))


def s_any(x, **k):
    if not has_sym(x):
        return np.any(x, **k)
    return bool(b_or(*[v if isinstance(v, SymBool) else bool(v) for v in obj(x).ravel()]))


def s_all(x, **k):
    if not has_sym(x):
        return np.all(x, **k)
    return bool(b_and(*[v if isinstance(v, SymBool) else bool(v) for v in obj(x).ravel()]))


def s_where(c, *xy):
    if not xy:
        return np.where(boolify(c))
    c = boolify(c)
    x, y = xy
    if not has_sym(x) and not has_sym(y):
        return np.where(c, x, y)
    c, x, y = np.broadcast_arrays(np.asarray(c), obj(x), obj(y))
    r = np.empty(c.shape, dtype=object)
    for idx in np.ndindex(*c.shape):
        r[idx] = x[idx] if c[idx] else y[idx]
    return unbox(r)


def boolify(c):
    if isinstance(c, SymBool):
        return bool(c)
    if isinstance(c, np.ndarray) and c.dtype == object:
        return np.array([bool(v) for v in c.ravel()]).reshape(c.shape)
    return c


def s_arctan2(y, x):
    if not has_sym(y) and not has_sym(x):
        return np.arctan2(y, x)
    a, b = np.broadcast_arrays(obj(y), obj(x))
    r = np.empty(a.shape, dtype=object)
    for idx in np.ndindex(*a.shape):
        if a[idx].is_const() and b[idx].is_const():
            r[idx] = Sym.const(math.atan2(float(a[idx]), float(b[idx])))
        elif b[idx].is_const() and float(b[idx]) == 0 and (bool(a[idx] > 0) or bool(a[idx] < 0)):
            r[idx] = Sym.atom(S.REG.pi()) * (Fraction(1, 2) if bool(a[idx] > 0) else Fraction(-1, 2))
        elif a[idx].is_const() and float(a[idx]) == 0 and (bool(b[idx] > 0) or bool(b[idx] < 0)):
            r[idx] = Sym.atom(S.REG.pi()) if bool(b[idx] < 0) else Sym.const(0)
        else:
            r[idx] = S.uf("arctan2", (a[idx], b[idx]), lo=Fraction(-315, 100), hi=Fraction(315, 100))
    return unbox(r)


def s_nan_to_num(x, **k):
    if not has_sym(x):
        return np.nan_to_num(x, **k)
    return x


def s_isnan(x):
    if not has_sym(x):
        if isinstance(x, np.ndarray) and x.dtype == object:
            x = x.astype(float)
        return np.isnan(x)
    a = obj(x)
    r = np.zeros(a.shape, dtype=bool)
    return unbox(r)


def s_isfinite(x):
    if not has_sym(x):
        return np.isfinite(x)
    a = obj(x)
    return unbox(np.ones(a.shape, dtype=bool))


def s_interp(x, xp, fp, left=None, right=None, **k):
    if not has_sym(x) and not has_sym(xp) and not has_sym(fp):
        return np.interp(x, xp, fp, left=left, right=right, **k)
    if not has_sym(x) and not has_sym(xp):
        # numpy's own search (also where xp is not increasing); exact interpolation
        pos = np.interp(x, xp, np.arange(len(xp), dtype=float))
        xs, xe, fe = obj(x), obj(np.asarray(xp, dtype=float)), obj(fp)
        r = np.empty(xs.shape, dtype=object)
        for idx in np.ndindex(*xs.shape):
            i = int(np.floor(np.asarray(pos)[idx]))
            v = xs[idx]
            if i >= len(xe) - 1:
                r[idx] = right if right is not None and bool(v > xe[-1]) else fe[-1]
            elif i == 0 and bool(v < xe[0]):
                r[idx] = left if left is not None else fe[0]
            else:
                r[idx] = fe[i] + (fe[i + 1] - fe[i]) * (v - xe[i]) / (xe[i + 1] - xe[i])
        return unbox(r)
    xs = obj(x)
    xp = list(obj(xp))
    fp = list(obj(fp))
    r = np.empty(xs.shape, dtype=object)
    for idx in np.ndindex(*xs.shape):
        v = xs[idx]
        if bool(v <= xp[0]):
            r[idx] = fp[0] if left is None or bool(v == xp[0]) else left
            continue
        if bool(v >= xp[-1]):
            r[idx] = fp[-1] if right is None or bool(v == xp[-1]) else right
            continue
        for i in range(1, len(xp)):
            if i == len(xp) - 1 or bool(v <= xp[i]):
                r[idx] = fp[i - 1] + (fp[i] - fp[i - 1]) * (v - xp[i - 1]) / (xp[i] - xp[i - 1])
                break
    return unbox(r)


def s_argwhere(x, *a, **k):
    return np.argwhere(boolify(x), *a, **k)


def s_cumsum(x, axis=None, **k):
    if not has_sym(x):
        return np.cumsum(x, axis=axis, **k)
    return np.cumsum(obj(x), axis=axis)


def s_searchsorted(a, v, side="left", **k):
    if not has_sym(a) and not has_sym(v):
        return np.searchsorted(a, v, side=side, **k)
    if isinstance(v, (np.ndarray, list)) and np.ndim(v):
        return np.array([s_searchsorted(a, w, side) for w in v])
    n = 0
    for x in obj(a):
        if bool(x < v) if side == "left" else bool(x <= v):
            n += 1
        else:
            break
    return n


def s_trapz(y, x=None, dx=1.0, axis=-1):
    y = obj(y)
    y = np.moveaxis(y, axis, -1)
    if x is None:
        d = Sym.of(dx)
        return np.sum((y[..., 1:] + y[..., :-1]) * Sym.const(Fraction(1, 2)) * d, axis=-1)
    x = obj(x)
    if x.ndim > 1:
        x = np.moveaxis(x, axis, -1)
    return np.sum((y[..., 1:] + y[..., :-1]) * Sym.const(Fraction(1, 2)) * (x[..., 1:] - x[..., :-1]), axis=-1)


def cumulative_trapezoid(y, x=None, dx=1.0, axis=-1, initial=None):
    if not has_sym(y) and not has_sym(x):
        import scipy.integrate as si
        return si.cumulative_trapezoid(y, x, dx=dx, axis=axis, initial=initial)
    y = np.moveaxis(obj(y), axis, -1)
    half = Sym.const(Fraction(1, 2))
    if x is None:
        d = Sym.of(dx)
    else:
        x = obj(x)
        if x.ndim > 1:
            x = np.moveaxis(x, axis, -1)
        d = x[..., 1:] - x[..., :-1]
    r = np.cumsum((y[..., 1:] + y[..., :-1]) * half * d, axis=-1)
    if initial is not None:
        pad = np.full(r.shape[:-1] + (1,), Sym.of(initial), dtype=object)
        r = np.concatenate([pad, r], axis=-1)
    return np.moveaxis(r, -1, axis)


def s_logical(op):
    npf = {"or": np.logical_or, "and": np.logical_and, "not": np.logical_not}[op]

    def f(*a, **k):
        return npf(*[boolify(v) for v in a], **k)

    return f


def s_gradient(f, *args, **k):
    if not has_sym(f) and not has_sym(args):
        return np.gradient(f, *args, **k)
    raise Unsupported("gradient")


# ---------------------------------------------------------------- linalg


def _is_const_matrix(a):
    return all((not isinstance(v, Sym)) or v.is_const() for v in a.ravel())


def exact_inverse(rows):
    """Inverse of a square matrix of Fractions (list of dicts per row)."""
    n = len(rows)
    A = [dict(r) for r in rows]
    B = [{i: Fraction(1)} for i in range(n)]
    for c in range(n):
        piv = None
        for r in range(c, n):
            if A[r].get(c):
                piv = r
                break
        if piv is None:
            raise np.linalg.LinAlgError("Singular matrix")
        A[c], A[piv] = A[piv], A[c]
        B[c], B[piv] = B[piv], B[c]
        d = A[c][c]
        if d != 1:
            A[c] = {k: v / d for k, v in A[c].items()}
            B[c] = {k: v / d for k, v in B[c].items()}
        for r in range(n):
            if r != c:
                f = A[r].get(c)
                if f:
                    for M in (A, B):
                        row = M[r]
                        for k, v in M[c].items():
                            nv = row.get(k, 0) - f * v
                            if nv:
                                row[k] = nv
                            else:
                                row.pop(k, None)
    return B


def s_inv(a):
    if not has_sym(a):
        return np.linalg.inv(a)
    a = obj(a)
    n = a.shape[0]
    if a.ndim != 2 or a.shape[1] != n:
        raise np.linalg.LinAlgError("not square")
    if n == 0:
        return a.copy()
    if _is_const_matrix(a):
        rows = [{j: Sym.of(a[i, j]).const_value() for j in range(n) if Sym.of(a[i, j]).p} for i in range(n)]
        inv = exact_inverse(rows)
        r = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                r[i, j] = Sym.const(inv[i].get(j, Fraction(0)))
        return r
    if n == 1:
        return np.array([[1 / Sym.of(a[0, 0])]], dtype=object)
    if n > 3:
        raise Unsupported("inverse of a symbolic %dx%d matrix" % (n, n))
    det = _det(a)
    r = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            minor = np.delete(np.delete(a, j, 0), i, 1)
            r[i, j] = (-1) ** (i + j) * _det(minor) / det
    return r


def _det(a):
    n = a.shape[0]
    if n == 1:
        return Sym.of(a[0, 0])
    if n == 2:
        return Sym.of(a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0])
    tot = S.ZERO
    for j in range(n):
        tot = tot + (-1) ** j * a[0, j] * _det(np.delete(np.delete(a, 0, 0), j, 1))
    return tot


def s_solve(a, b):
    if not has_sym(a) and not has_sym(b):
        return np.linalg.solve(a, b)
    return np.dot(s_inv(obj(a)), obj(b))


def s_norm(x, ord=None, axis=None, **k):
    if not has_sym(x):
        return np.linalg.norm(x, ord=ord, axis=axis, **k)
    if ord not in (None, 2) or axis is not None and obj(x).ndim > 2:
        raise Unsupported("norm")
    a = obj(x)
    if axis is None:
        return S.sym_sqrt(np.sum(a.ravel() ** 2))
    return elementwise(S.sym_sqrt, np.sqrt)(np.sum(a ** 2, axis=axis))


# ---------------------------------------------------------------- records


class SymRecord:
    """Stand-in for a 0-d structured numpy array holding symbolic fields."""

    def __init__(self, fields, dtype):
        self.fields = fields
        self.dtype = dtype

    def __getitem__(self, k):
        if k == ():
            return tuple(self.fields[n] for n in self.dtype.names)
        if isinstance(k, str):
            return self.fields[k]
        if isinstance(k, int):
            return self.fields[self.dtype.names[k]]
        raise Unsupported("record index %r" % (k,))

    def item(self):
        return self[()]

    def __iter__(self):
        return iter(self[()])

    def __len__(self):
        return len(self.dtype.names)

    shape = ()


def cast_field(v, dt):
    if isinstance(v, SymRecord):
        return v
    if dt.names:
        return make_record(v, dt)
    if dt.kind == "O" or dt.kind in "US":
        return v
    if dt.subdtype is not None:
        base, shp = dt.subdtype
        a = obj(np.array(v, dtype=object)) if has_sym(v) else np.asarray(v)
        if a.shape != shp:
            a = np.broadcast_to(a, shp)
        out = np.empty(shp, dtype=object)
        for idx in np.ndindex(*shp):
            out[idx] = cast_field(a[idx], base)
        return out
    if dt.kind == "f":
        return Sym.of(v)
    if dt.kind == "b":
        if isinstance(v, Sym):
            return bool(v != 0)
        return np.bool_(bool(v))
    if dt.kind in "iu":
        if isinstance(v, Sym):
            if v.is_const():
                return int(v.const_value())
            return trunc_int(v)
        return int(v)
    raise Unsupported("field kind %r" % dt)


def trunc_int(v):
    """int() of a symbolic value stored in an integer field: fresh integer t with
    t <= v < t+1 (v >= 0) – v itself when v was declared integral."""
    ids = v.atom_ids()
    if all(S.REG.atoms[a].isint for a in ids) and all(
            c.denominator == 1 and all(e >= 0 for _, e in m) for m, c in v.p.items()):
        return v
    raise Unsupported("symbolic value stored in an integer field")


def make_record(x, dt):
    if isinstance(x, SymRecord):
        return x
    if not has_sym(x):
        return np.array(x, dtype=dt)
    if isinstance(x, list):
        out = np.empty(len(x), dtype=object)
        for i, v in enumerate(x):
            out[i] = make_record(v, dt)
        return out
    if len(x) != len(dt.names):
        raise ValueError("could not assign tuple of length %d to structure with %d fields." % (len(x), len(dt.names)))
    return SymRecord({n: cast_field(v, dt[n]) for n, v in zip(dt.names, x)}, dt)


# ---------------------------------------------------------------- numpy module


def build_numpy(environment):
    ov = {}
    for name in ("zeros", "ones", "zeros_like", "ones_like", "eye", "identity"):
        ov[name] = _wrap_creator(getattr(np, name))

    def like(fn):
        def f(a, dtype=None, **k):
            if isinstance(a, np.ndarray) and a.dtype == object and dtype is None:
                return obj(fn(np.zeros(a.shape)))
            if isinstance(a, Sym):
                return obj(fn(0.0))
            r = fn(a, dtype=dtype, **k)
            return obj(r) if r.dtype.kind == "f" else r
        return f

    ov["zeros_like"] = like(np.zeros_like)
    ov["ones_like"] = like(np.ones_like)
    ov["empty_like"] = like(np.zeros_like)

    def full_like(a, v, dtype=None, **k):
        return s_full(np.shape(a), v, dtype)

    ov["full_like"] = full_like
    ov["empty"] = s_empty
    ov["full"] = s_full
    ov["array"] = s_array
    ov["asarray"] = s_asarray
    ov["ascontiguousarray"] = s_asarray
    ov["atleast_1d"] = lambda x: np.atleast_1d(obj(x)) if has_sym(x) else np.atleast_1d(x)
    ov["linspace"] = s_linspace
    ov["arange"] = s_arange
    ov["clip"] = s_clip
    for n, sf in (("sqrt", S.sym_sqrt), ("abs", S.sym_abs), ("absolute", S.sym_abs),
                  ("fabs", S.sym_abs), ("sin", S.sym_sin), ("cos", S.sym_cos),
                  ("log", S.sym_log), ("exp", S.sym_exp)):
        ov[n] = elementwise(lambda v, sf=sf: sf(v), getattr(np, n))
    ov["square"] = elementwise(lambda v: Sym.of(v) * Sym.of(v), np.square)
    ov["sign"] = elementwise(lambda v: Sym.const(1 if bool(v > 0) else (-1 if bool(v < 0) else 0)), np.sign)

    def s_hypot(a, b):
        if not has_sym(a) and not has_sym(b):
            return np.hypot(a, b)
        return ov["sqrt"](obj(a) ** 2 + obj(b) ** 2)

    ov["hypot"] = s_hypot
    ov["max"] = ov["amax"] = s_max
    ov["min"] = ov["amin"] = s_min
    ov["maximum"] = s_maximum("max")
    ov["minimum"] = s_maximum("min")
    ov["argmax"] = s_argext("max")
    ov["argmin"] = s_argext("min")
    ov["ptp"] = s_ptp
    ov["sum"] = s_sum
    ov["mean"] = s_mean
    ov["average"] = s_average
    ov["dot"] = s_dot
    ov["matmul"] = s_dot
    ov["allclose"] = s_allclose
    ov["isclose"] = s_isclose
    ov["array_equal"] = s_array_equal
    ov["any"] = s_any
    ov["all"] = s_all
    ov["where"] = s_where
    ov["arctan2"] = s_arctan2
    ov["nan_to_num"] = s_nan_to_num
    ov["isnan"] = s_isnan
    ov["isfinite"] = s_isfinite
    ov["interp"] = s_interp
    ov["argwhere"] = s_argwhere
    ov["nonzero"] = lambda x: np.nonzero(boolify(x))
    ov["flatnonzero"] = lambda x: np.flatnonzero(boolify(x))
    ov["cumsum"] = s_cumsum
    ov["searchsorted"] = s_searchsorted
    ov["trapz"] = ov["trapezoid"] = s_trapz
    ov["gradient"] = s_gradient
    ov["logical_or"] = s_logical("or")
    ov["logical_and"] = s_logical("and")
    ov["logical_not"] = s_logical("not")
    ov["power"] = lambda a, b: obj(a) ** b if has_sym(a) or has_sym(b) else np.power(a, b)
    ov["multiply"] = lambda a, b: a * b if has_sym(a) or has_sym(b) else np.multiply(a, b)
    ov["add"] = lambda a, b: obj(a) + obj(b) if has_sym(a) or has_sym(b) else np.add(a, b)
    ov["subtract"] = lambda a, b: obj(a) - obj(b) if has_sym(a) or has_sym(b) else np.subtract(a, b)
    ov["divide"] = ov["true_divide"] = lambda a, b: obj(a) / obj(b) if has_sym(a) or has_sym(b) else np.divide(a, b)
    # structural functions work on object arrays as they are
    for n in ("meshgrid", "concatenate", "append", "insert", "diff", "roll", "ravel", "reshape",
              "column_stack", "vstack", "hstack", "stack", "transpose", "outer", "ndim", "shape",
              "size", "squeeze", "moveaxis", "delete", "flip", "tile", "repeat", "copy", "isscalar",
              "broadcast_to", "broadcast_arrays", "expand_dims", "swapaxes", "prod", "cross",
              "array_split", "split", "indices", "ndindex", "ndenumerate", "atleast_2d", "ix_",
              "triu", "tril", "diag", "trace", "take", "may_share_memory", "copyto", "fill_diagonal",
              "unravel_index", "iterable", "errstate", "printoptions", "set_printoptions", "cumprod",
              "einsum", "inner", "tensordot", "vdot", "rot90", "fliplr", "flipud", "union1d",
              "dtype", "iscomplexobj", "result_type"):
        if hasattr(np, n):
            ov[n] = getattr(np, n)
    pi = Sym.atom(S.REG.pi())
    ov["pi"] = pi
    lin = ModProxy(np.linalg, {"inv": s_inv, "norm": s_norm, "solve": s_solve,
                               "det": lambda a: _det(obj(a)) if has_sym(a) else np.linalg.det(a)})
    ov["linalg"] = lin
    ov["random"] = environment.random
    return ModProxy(np, ov), lin


# ---------------------------------------------------------------- scipy


def romb_weights(n):
    """Exact Romberg weights (dx=1) for n = 2**k + 1 samples, as scipy's romb."""
    nint = n - 1
    k = nint.bit_length() - 1
    if nint <= 0 or (1 << k) != nint:
        raise ValueError("Number of samples must be one plus a non-negative power of 2.")

    def trap(step):
        w = {}
        for i in range(0, nint, step):
            for j in (i, i + step):
                w[j] = w.get(j, Fraction(0)) + Fraction(step, 2)
        return w

    row = [trap(nint >> i) for i in range(k + 1)]
    m = 1
    while len(row) > 1:
        f = 4 ** m
        new = []
        for a, b in zip(row, row[1:]):
            w = {}
            for j in set(a) | set(b):
                w[j] = (f * b.get(j, 0) - a.get(j, 0)) / Fraction(f - 1)
            new.append(w)
        row = new
        m += 1
    return [row[0].get(i, Fraction(0)) for i in range(n)]


_romb_cache = {}


def s_romb(y, dx=1.0, axis=-1, show=False):
    if not has_sym(y) and not has_sym(dx):
        import scipy.integrate as si
        return si.romb(y, dx=dx, axis=axis, show=show)
    a = np.moveaxis(obj(y), axis, -1)
    n = a.shape[-1]
    w = _romb_cache.get(n)
    if w is None:
        w = romb_weights(n)
        _romb_cache[n] = w
    r = np.empty(a.shape[:-1], dtype=object)
    for idx in np.ndindex(*r.shape):
        t = S.ZERO
        for i in range(n):
            t = t + Sym.of(a[idx + (i,)]) * w[i]
        r[idx] = t
    r = r * Sym.of(dx) if not (isinstance(dx, (int, float)) and dx == 1.0) else r
    return unbox(r)


def newton_cotes(n):
    """Weights of the closed n-panel Newton-Cotes rule on [0,1] (exact for degree n)."""
    # integrate Lagrange basis polynomials exactly
    ws = []
    pts = [Fraction(i, n) for i in range(n + 1)]
    for i in range(n + 1):
        poly = [Fraction(1)]
        den = Fraction(1)
        for j in range(n + 1):
            if j != i:
                new = [Fraction(0)] * (len(poly) + 1)
                for k, c in enumerate(poly):
                    new[k + 1] += c
                    new[k] -= c * pts[j]
                poly = new
                den *= pts[i] - pts[j]
        ws.append(sum(c / (k + 1) for k, c in enumerate(poly)) / den)
    return pts, ws


_NC = None


def s_quad(func, a, b, args=(), **k):
    """Exact for polynomial integrands of degree <= 12 (assumption of the encoding)."""
    global _NC
    if _NC is None:
        _NC = newton_cotes(12)
    if not isinstance(args, tuple):
        args = (args,)
    a, b = unbox(a), unbox(b)
    a, b = Sym.of(a), Sym.of(b)
    tot = S.ZERO
    for t, w in zip(*_NC):
        x = a + (b - a) * t
        v = func(x, *args)
        v = unbox(v) if isinstance(v, np.ndarray) else v
        if isinstance(v, np.ndarray):
            v = v.ravel()[0]
        tot = tot + Sym.of(v) * w
    return tot * (b - a), 0.0


# ---- splines

_card_cache = {}


def _cubic_cardinals(n, k):
    """Exact cardinal interpolating splines of degree k on the unit grid 0..n-1
    (not-a-knot, as FITPACK): list over i of list over panels of coefficient lists
    in the local variable (t - panel)."""
    key = (n, k)
    if key in _card_cache:
        return _card_cache[key]
    if n <= k:
        raise Unsupported("spline with too few points")
    if k == 1:
        out = []
        for i in range(n):
            panels = []
            for p in range(n - 1):
                c0 = Fraction(1 if p == i else 0)
                c1 = Fraction(1 if p + 1 == i else 0)
                panels.append([c0, c1 - c0])
            out.append(panels)
        _card_cache[key] = out
        return out
    if k != 3:
        raise Unsupported("spline degree %d" % k)
    # unknown second derivatives M_0..M_{n-1}; not-a-knot: third derivative continuous at 1, n-2
    rows = []
    if n == 4:
        pass
    for j in range(1, n - 1):
        rows.append({j - 1: Fraction(1, 6), j: Fraction(2, 3), j + 1: Fraction(1, 6)})
    rows.insert(0, {0: Fraction(1), 1: Fraction(-2), 2: Fraction(1)})
    if n == 4:
        rows.append({1: Fraction(1), 2: Fraction(-2), 3: Fraction(1)})
    else:
        rows.append({n - 3: Fraction(1), n - 2: Fraction(-2), n - 1: Fraction(1)})
    inv = exact_inverse(rows)
    out = []
    for i in range(n):
        y = [Fraction(1 if q == i else 0) for q in range(n)]
        rhs = [Fraction(0)] + [y[j + 1] - 2 * y[j] + y[j - 1] for j in range(1, n - 1)] + [Fraction(0)]
        M = [sum(inv[r].get(c, 0) * rhs[c] for c in range(n) if rhs[c]) for r in range(n)]
        panels = []
        for p in range(n - 1):
            a = y[p]
            c2 = Fraction(M[p]) / 2
            c3 = (Fraction(M[p + 1]) - M[p]) / 6
            c1 = y[p + 1] - y[p] - c2 - c3
            panels.append([a, c1, c2, c3])
        out.append(panels)
    _card_cache[key] = out
    return out


def _poly_eval(c, t, d):
    for _ in range(d):
        c = [c[i] * i for i in range(1, len(c))]
    tot = t * 0 + (c[0] if c else 0) if not isinstance(t, Fraction) else (c[0] if c else Fraction(0))
    p = t
    for q in c[1:]:
        tot = tot + q * p
        p = p * t
    return tot


class SymRectBivariateSpline:
    """RectBivariateSpline(s=0) on uniform grids: the tensor product of cardinal
    splines.  At constant positions (in grid units) the cardinal values are exact
    rationals; at symbolic positions they are uninterpreted functions of the
    position constrained to reproduce constants and linear functions."""

    def __init__(self, x, y, z, bbox=None, kx=3, ky=3, s=0, **kw):
        x, y = obj(x), obj(y)
        z = obj(z)
        if x.ndim != 1 or y.ndim != 1 or z.shape != (x.size, y.size):
            raise ValueError("x dimension of z must have same number of elements as x")
        self.x, self.y, self.z = x, y, z.copy()
        self.kx, self.ky = kx, ky
        self.x0, self.hx = self._uniform(x)
        self.y0, self.hy = self._uniform(y)

    @staticmethod
    def _uniform(g):
        h = Sym.of(g[1] - g[0])
        for i in range(1, g.size):
            if not S.identically_zero(Sym.of(g[i] - g[0]) - h * i):
                raise Unsupported("spline on a non-uniform grid")
        sg = S.sign_of(h)
        if h.is_const() and not h.const_value() > 0:
            raise ValueError("x must be strictly increasing")
        return Sym.of(g[0]), h

    def _basis(self, which, pos, d):
        n = self.x.size if which == "x" else self.y.size
        k = self.kx if which == "x" else self.ky
        o, h = (self.x0, self.hx) if which == "x" else (self.y0, self.hy)
        t = (Sym.of(pos) - o) / h
        if not t.is_const():
            # try to see a constant ratio
            for c in range(n):
                if S.identically_zero(t - c):
                    t = Sym.const(c)
                    break
        cards = None
        if t.is_const():
            tv = t.const_value()
            cards = _cubic_cardinals(n, k)
            # FITPACK clamps positions outside the grid
            tv = _builtin_max(Fraction(0), _builtin_min(Fraction(n - 1), tv))
            p = _builtin_min(int(tv), n - 2)
            loc = tv - p
            vals = [Sym.const(_poly_eval(cards[i][p], loc, d)) for i in range(n)]
        else:
            if C.CUR is not None and C.CUR.opts.get("spline_fork"):
                return self._basis_fork(n, k, t, d, h)
            vals = []
            for i in range(2, n):
                vals.append(S.uf("card", (n, k, i, d, t), evalf=_card_eval))
            # reproduce constants and linear functions: sum L=1, sum i L = t
            one = S.ONE if d == 0 else S.ZERO
            lin = t if d == 0 else (S.ONE if d == 1 else S.ZERO)
            sL = sum(vals, S.ZERO)
            siL = sum((v * i for i, v in zip(range(2, n), vals)), S.ZERO)
            L1 = lin - siL
            L0 = one - sL - L1
            vals = [L0, L1] + vals
        if d:
            hinv = h.inverse() ** d
            vals = [v * hinv for v in vals]
        return vals

    def _basis_fork(self, n, k, t, d, h):
        p = n - 2
        for q in range(n - 2):
            if bool(t <= q + 1):
                p = q
                break
        cards = _cubic_cardinals(n, k)
        loc = t - p
        vals = [_poly_eval([Sym.const(c) for c in cards[i][p]], loc, d) for i in range(n)]
        if d:
            hinv = h.inverse() ** d
            vals = [v * hinv for v in vals]
        return vals

    def _one(self, r, z, dx, dy):
        bx = self._basis("x", r, dx)
        by = self._basis("y", z, dy)
        tot = S.ZERO
        for i, a in enumerate(bx):
            if not a.p:
                continue
            for j, b in enumerate(by):
                if b.p:
                    tot = tot + a * b * self.z[i, j]
        return tot

    def __call__(self, x, y, dx=0, dy=0, grid=True):
        if grid:
            xs = np.atleast_1d(obj(x))
            ys = np.atleast_1d(obj(y))
            if xs.ndim != 1 or ys.ndim != 1:
                raise ValueError("x and y should both be 1-D arrays")
            out = np.empty((xs.size, ys.size), dtype=object)
            for i in range(xs.size):
                for j in range(ys.size):
                    out[i, j] = self._one(xs[i], ys[j], dx, dy)
            return out
        xs, ys = np.broadcast_arrays(obj(x), obj(y))
        out = np.empty(xs.shape, dtype=object)
        for idx in np.ndindex(*xs.shape):
            out[idx] = self._one(xs[idx], ys[idx], dx, dy)
        # scipy returns a 0-d array here, which behaves like a scalar
        return unbox(out)

    def ev(self, x, y, dx=0, dy=0):
        return self(x, y, dx=dx, dy=dy, grid=False)

    def get_knots(self):
        raise Unsupported("spline knots")


def _card_eval(n, k, i, d, t):
    c = _cubic_cardinals(int(n), int(k))[int(i)]
    t = _builtin_max(0.0, _builtin_min(n - 1.0, t))
    p = _builtin_min(int(t), n - 2)
    return float(_poly_eval([float(v) for v in c[p]], float(t - p), int(d)))


def make_spline(*a, **k):
    import scipy.interpolate as si
    if not has_sym(a) and not has_sym(k):
        return si.RectBivariateSpline(*a, **k)
    return SymRectBivariateSpline(*a, **k)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float)


class symfloat(float, metaclass=_FloatMeta):
    """What freegs sees as `float` while it is encoded."""
    dtype = np.dtype(float)

    def __new__(cls, x=0.0):
        if isinstance(x, np.ndarray) and x.size == 1:
            x = x.reshape(-1)[0]
        return x if isinstance(x, Sym) and not x.is_const() else float(x)


def _quadratic_basis(xs):
    """Exact cardinal functions of scipy's quadratic interpolation (knots at the midpoints,
    first and last left out): interior knots and inverse of the collocation matrix in the
    basis 1, x, x^2, (x-t_i)_+^2."""
    n = len(xs)
    mid = [(xs[i] + xs[i + 1]) / 2 for i in range(n - 1)]
    t = mid[1:-1]
    A = [[Fraction(1), x, x * x] + [(x - k) ** 2 if x > k else Fraction(0) for k in t] for x in xs]
    return t, _invert(A)


class SymUnivariateSpline:
    """scipy's InterpolatedUnivariateSpline with k=3 (knots at the data points, second and last but one
    left out) on constant abscissae: exact in the basis 1, x, x^2, x^3, (x-t_i)_+^3; extrapolates."""

    def __init__(self, x, y, w=None, bbox=(None, None), k=3, ext=0, check_finite=False, _data=None):
        if _data is not None:
            self.knots, self.coef, self.order = _data
            return
        if w is not None or tuple(bbox) != (None, None) or k != 3 or ext not in (0, "extrapolate"):
            raise Unsupported("InterpolatedUnivariateSpline options")
        xs = [Sym.of(v) for v in obj(x).ravel()]
        if not all(v.is_const() for v in xs):
            raise Unsupported("spline on symbolic abscissae")
        xs = [v.const_value() for v in xs]
        n = len(xs)
        self.knots = xs[2:-2]
        A = [[Fraction(1), v, v ** 2, v ** 3] + [(v - t) ** 3 if v > t else Fraction(0) for t in self.knots] for v in xs]
        inv = _invert(A)
        self.coef = [sum((Sym.of(b) * c for b, c in zip(obj(y).ravel(), row) if c), S.ZERO) for row in inv]
        self.order = 0

    def derivative(self, n=1):
        return SymUnivariateSpline(None, None, _data=(self.knots, self.coef, self.order + n))

    def __call__(self, v, nu=0, ext=None):
        vs = obj(v)
        d = self.order + nu
        out = np.empty(vs.shape, dtype=object)

        def term(t, p):
            if d > p:
                return S.ZERO
            r = Sym.const(math.perm(p, d))
            for _ in range(p - d):
                r = r * t
            return r
        for i in np.ndindex(*vs.shape):
            t = Sym.of(vs[i])
            tot = S.ZERO
            for p in range(4):
                tot = tot + self.coef[p] * term(t, p)
            for k, c in zip(self.knots, self.coef[4:]):
                if not bool(t > k):
                    break
                tot = tot + c * term(t - k, 3)
            out[i] = tot
        return out if vs.shape else out[()]


def make_univariate(x, y, *a, **k):
    import scipy.interpolate as si
    if not has_sym(x) and not has_sym(y):
        return si.InterpolatedUnivariateSpline(x, y, *a, **k)
    return SymUnivariateSpline(x, y, *a, **k)


def _invert(A):
    n = len(A)
    A = [list(r) for r in A]
    inv = [[Fraction(int(i == j)) for j in range(n)] for i in range(n)]
    for c in range(n):
        p = next(r for r in range(c, n) if A[r][c])
        A[c], A[p], inv[c], inv[p] = A[p], A[c], inv[p], inv[c]
        d = A[c][c]
        A[c] = [v / d for v in A[c]]
        inv[c] = [v / d for v in inv[c]]
        for r in range(n):
            if r != c and A[r][c]:
                f = A[r][c]
                A[r] = [u - f * v for u, v in zip(A[r], A[c])]
                inv[r] = [u - f * v for u, v in zip(inv[r], inv[c])]
    return inv


class SymInterp1d:
    def __init__(self, x, y, kind="linear", axis=-1, fill_value=None, bounds_error=None, **k):
        self.x = obj(x)
        y = obj(y)
        self.y = np.moveaxis(y, axis, 0)
        self.kind = kind
        self.axis = axis
        self.extrap = fill_value == "extrapolate"
        if kind == "quadratic":
            xs = [Sym.of(v) for v in self.x]
            if not all(v.is_const() for v in xs) or self.x.size > 12:
                raise Unsupported("interp1d kind %r on symbolic data" % (kind,))
            self.knots, inv = _quadratic_basis([v.const_value() for v in xs])
            self.coef = [sum((Sym.of(y) * w for y, w in zip(self.y, row) if w), S.ZERO) for row in inv]
        elif kind not in ("linear",):
            raise Unsupported("interp1d kind %r on symbolic data" % (kind,))

    def __call__(self, v):
        vs = obj(v)
        out = []
        for t in vs.ravel():
            if self.kind == "quadratic":
                tot = self.coef[0] + self.coef[1] * t + self.coef[2] * t * t
                for k, c in zip(self.knots, self.coef[3:]):
                    if bool(t > k):
                        tot = tot + c * (t - k) * (t - k)
                    else:
                        break
                out.append(tot)
                continue
            i = 1
            while i < self.x.size - 1 and not bool(t <= self.x[i]):
                i += 1
            x0, x1 = self.x[i - 1], self.x[i]
            out.append(self.y[i - 1] + (self.y[i] - self.y[i - 1]) * ((t - x0) / (x1 - x0)))
        r = np.array(out, dtype=object)
        r = r.reshape(vs.shape + self.y.shape[1:])
        return r


def make_interp1d(x, y, *a, **k):
    import scipy.interpolate as si
    if not has_sym(x) and not has_sym(y):
        return forward(si.interp1d(x, y, *a, **k))
    return SymInterp1d(x, y, *a, **k)


# ---- sparse


class SymSparse:
    def __init__(self, shape, d=None):
        self.shape = shape
        self.d = d if d is not None else {}

    def __getitem__(self, k):
        i, j = k
        n, m = self.shape
        if isinstance(i, slice) or isinstance(j, slice):
            return self.toarray()[k]
        i, j = self._ix(i, n), self._ix(j, m)
        return self.d.get((i, j), S.ZERO)

    @staticmethod
    def _ix(i, n):
        i = int(i)
        if not -n <= i < n:
            raise IndexError("index (%d) out of range" % i)
        return i + n if i < 0 else i

    def __setitem__(self, k, v):
        i, j = k
        n, m = self.shape
        i, j = self._ix(i, n), self._ix(j, m)
        v = Sym.of(v)
        if v.p:
            self.d[(i, j)] = v
        else:
            self.d.pop((i, j), None)

    def tocsr(self, *a, **k):
        return SymSparse(self.shape, dict(self.d))

    tocsc = tolil = tocoo = todok = copy = tocsr

    def asformat(self, fmt, **k):
        return self.tocsr()

    def toarray(self):
        a = np.empty(self.shape, dtype=object)
        a[...] = S.ZERO
        for (i, j), v in self.d.items():
            a[i, j] = v
        return a

    todense = toarray

    def diagonal(self):
        return np.array([self.d.get((i, i), S.ZERO) for i in range(self.shape[0])] or [], dtype=object)

    def dot(self, x):
        x = obj(x)
        flat = x.reshape(-1)
        if x.ndim > 1 and not (x.ndim == 2 and x.shape[1] == 1):
            raise Unsupported("sparse times matrix")
        if flat.size != self.shape[1]:
            raise ValueError("dimension mismatch")
        r = np.empty(self.shape[0], dtype=object)
        r[...] = S.ZERO
        for (i, j), v in self.d.items():
            r[i] = r[i] + v * flat[j]
        return r.reshape((self.shape[0],) + x.shape[1:])

    __matmul__ = dot

    def __mul__(self, o):
        if isinstance(o, np.ndarray):
            return self.dot(o)
        return SymSparse(self.shape, {k: v * o for k, v in self.d.items()})

    def __rmul__(self, o):
        return SymSparse(self.shape, {k: v * o for k, v in self.d.items()})

    def __add__(self, o):
        d = dict(self.d)
        for k, v in o.d.items():
            d[k] = d.get(k, S.ZERO) + v
        return SymSparse(self.shape, d)

    def __neg__(self):
        return SymSparse(self.shape, {k: -v for k, v in self.d.items()})

    def __sub__(self, o):
        return self + (-o)

    @property
    def nnz(self):
        return len(self.d)


def s_lil_matrix(arg, **k):
    if isinstance(arg, SymSparse):
        return arg.tocsr()
    if isinstance(arg, tuple) and len(arg) == 2 and all(isinstance(v, (int, np.integer)) for v in arg):
        return SymSparse(arg)
    a = obj(arg)
    return SymSparse(a.shape, {(i, j): Sym.of(a[i, j]) for i, j in np.ndindex(*a.shape) if Sym.of(a[i, j]).p})


def s_speye(n, m=None, format=None, **k):
    return SymSparse((n, m or n), {(i, i): S.ONE for i in range(_builtin_min(n, m or n))})


_inv_cache = {}


def s_factorized(A):
    if not isinstance(A, SymSparse):
        import scipy.sparse.linalg as sl
        return sl.factorized(A)
    n = A.shape[0]
    if all(v.is_const() for v in A.d.values()):
        def inverse():
            key = (n, tuple(sorted((k, v.const_value()) for k, v in A.d.items())))
            inv = _inv_cache.get(key)
            if inv is None:
                rows = [{} for _ in range(n)]
                for (i, j), v in A.d.items():
                    rows[i][j] = v.const_value()
                inv = exact_inverse(rows)
                _inv_cache[key] = inv
            return inv

        def solve(b):
            inv = inverse()
            b = obj(b).reshape(-1)
            out = np.empty(n, dtype=object)
            for i in range(n):
                t = S.ZERO
                for j, w in inv[i].items():
                    bj = b[j]
                    if isinstance(bj, Sym):
                        if bj.p:
                            t = t + bj * w
                    elif bj:
                        t = t + Sym.of(bj) * w
                out[i] = t
            return out

        return solve

    # symbolic matrix: fresh unknowns constrained by A x = b
    def solve(b):
        b = obj(b).reshape(-1)
        cur = C.CUR
        x = np.empty(n, dtype=object)
        for i in range(n):
            row = {j: v for (r, j), v in A.d.items() if r == i}
            if set(row) == {i}:
                x[i] = Sym.of(b[i]) / row[i]
            else:
                x[i] = None
        unk = [i for i in range(n) if x[i] is None]
        if len(unk) == 1:
            i = unk[0]
            rhs = Sym.of(b[i])
            for (r, j), v in A.d.items():
                if r == i and j != i:
                    rhs = rhs - v * x[j]
            x[i] = rhs / A.d[(i, i)]
            return x
        for i in unk:
            x[i] = cur.fresh("linsolve")
        for i in unk:
            t = S.ZERO
            for (r, j), v in A.d.items():
                if r == i:
                    t = t + v * x[j]
            cur.add_pc(S.cmp0("==", t - Sym.of(b[i])))
        return x

    return solve


def s_spsolve(A, b):
    return s_factorized(A)(b)


# ---- elliptic integrals


def s_ellip(name, npf):
    def one(v):
        v = Sym.of(v)
        return S.uf(name, (v,))

    return elementwise(one, npf)


# ---------------------------------------------------------------- environment


class SymRandom:
    """numpy.random: every draw is an arbitrary value of its range."""

    def __init__(self):
        pass

    def _ctx(self):
        return C.CUR

    def rand(self, *shape):
        c = self._ctx()
        if not shape:
            return c.fresh("rand", 0, 1, evalf=None)
        out = np.empty(shape, dtype=object)
        for idx in np.ndindex(*shape):
            out[idx] = c.fresh("rand", 0, 1)
        return out

    random = random_sample = rand

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is not None:
            raise Unsupported("random.uniform size")
        u = self._ctx().fresh("rand", 0, 1)
        return Sym.of(low) + (Sym.of(high) - Sym.of(low)) * u

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is not None:
            raise Unsupported("random.normal size")
        return Sym.of(loc) + Sym.of(scale) * self._ctx().fresh("randn")

    def randint(self, low, high=None, size=None):
        if high is None:
            low, high = 0, low
        low, high = int(low), int(high)
        if high <= low:
            raise ValueError("low >= high")
        if size is not None:
            raise Unsupported("random.randint size")
        c = self._ctx()
        name = c.fresh_name("randint")
        return low + c.choose(name, high - low)

    def choice(self, a, size=None, replace=True, p=None):
        if size is not None or p is not None:
            raise Unsupported("random.choice")
        n = a if isinstance(a, int) else len(a)
        i = self.randint(0, n)
        return i if isinstance(a, int) else a[i]

    def seed(self, *a):
        pass


class OptResult:
    def __init__(self, **k):
        self.__dict__.update(k)

    def __getitem__(self, k):
        return self.__dict__[k]


class Environment:
    """Nondeterministic stand-ins whose calls are recorded for the harness."""

    def __init__(self):
        self.random = SymRandom()
        self.calls = []
        self.hooks = {}

    def reset(self):
        S.TOKENS.clear()
        self.calls = []
        self.hooks = {}

    def minimize(self, fun, x0, args=(), method=None, bounds=None, constraints=(), **k):
        if "minimize" in self.hooks:
            return self.hooks["minimize"](fun, x0, args=args, method=method, bounds=bounds, constraints=constraints, **k)
        c = C.CUR
        x0 = obj(x0)
        n = x0.size
        if not isinstance(args, tuple):
            args = (args,)
        rec = dict(fun=fun, x0=x0.copy(), bounds=bounds, constraints=constraints, args=args, method=method)
        self.calls.append(("minimize", rec))
        # the optimiser may evaluate the objective anywhere inside the bounds
        trial = self._point(c, n, bounds, "trial")
        rec["trial"] = trial
        rec["trial_value"] = fun(trial, *args)
        x = self._point(c, n, bounds, "xopt")
        cons = constraints if isinstance(constraints, (list, tuple)) else [constraints]
        for con in cons:
            v = con["fun"](x)
            c.add_pc(0 <= v if con["type"] == "ineq" else v == 0)
        rec["x"] = x
        return OptResult(x=x, fun=None, success=True, status=0, message="nondeterministic")

    def _point(self, c, n, bounds, base):
        x = np.empty(n, dtype=object)
        for i in range(n):
            x[i] = c.fresh(base)
            if bounds is not None:
                lo, hi = bounds[i][0], bounds[i][1]
                for side, v in (("lo", lo), ("hi", hi)):
                    if v is None or isinstance(v, (float, np.floating)) and math.isinf(v):
                        continue
                    c.add_pc(v <= x[i] if side == "lo" else x[i] <= v)
        return x

    def leastsq(self, func, x0, args=(), full_output=False, **k):
        if "leastsq" in self.hooks:
            return self.hooks["leastsq"](func, x0, args=args, **k)
        c = C.CUR
        x0 = obj(x0)
        if not isinstance(args, tuple):
            args = (args,)
        rec = dict(fun=func, x0=x0.copy(), args=args)
        self.calls.append(("leastsq", rec))
        trial = self._point(c, x0.size, None, "trial")
        rec["trial"] = trial
        rec["trial_value"] = func(trial, *args)
        x = self._point(c, x0.size, None, "xopt")
        rec["x"] = x
        return x, 1

    def odeint(self, func, y0, t, args=(), **k):
        if "odeint" in self.hooks:
            return self.hooks["odeint"](func, y0, t, args=args, **k)
        c = C.CUR
        y0 = obj(y0)
        t = obj(t)
        if not isinstance(args, tuple):
            args = (args,)
        rec = dict(fun=func, y0=y0.copy(), t=t.copy(), args=args, kw=k)
        self.calls.append(("odeint", rec))
        out = np.empty((t.size, y0.size), dtype=object)
        out[0] = y0
        for i in range(1, t.size):
            for j in range(y0.size):
                out[i, j] = c.fresh("ode")
        rec["result"] = out
        return out


class DummyPlt(types.ModuleType):
    def __init__(self):
        super().__init__("matplotlib.pyplot")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return DummyCall()


class DummyCall:
    def __call__(self, *a, **k):
        return DummyCall()

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return DummyCall()

    def __getitem__(self, k):
        return DummyCall()


# ---------------------------------------------------------------- geometry

def _const(v):
    return not isinstance(v, Sym) or v.is_const()


def _zero(v):
    return isinstance(v, Sym) and v.is_const() and v.const_value() == 0


class GPoint:
    """shapely point whose coordinates may be symbolic"""

    def __init__(self, real, x, y):
        self._cls, self.x, self.y = real, x, y

    @property
    def concrete(self):
        return _const(self.x) and _const(self.y)

    @property
    def real(self):
        return self._cls(to_float(self.x), to_float(self.y))

    @property
    def coords(self):
        return [(self.x, self.y)]

    def within(self, poly):
        return poly.contains(self)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        v = getattr(self.real, name)
        return _unwrap_call(v)


class GArea:
    """result of an intersection: only its size can be used"""

    def __init__(self, area):
        self.area = area

    @property
    def is_empty(self):
        return not bool(self.area > 0)


def _shoelace(pts):
    a = 0
    for (x0, y0), (x1, y1) in zip(pts, pts[1:] + pts[:1]):
        a = a + (x0 * y1 - x1 * y0)
    return a / 2


class GPolygon:
    """shapely polygon (no holes) whose vertices may be symbolic.

    Exact arithmetic on the vertices; contains(point) is strict; intersections with a convex polygon
    by clipping, which gives the right signed area for any simple polygon."""

    def __init__(self, real, pts):
        pts = [(p[0], p[1]) for p in pts]
        if len(pts) > 1 and all(_const(a) and _const(b) and a == b for a, b in zip(pts[0], pts[-1])):
            pts = pts[:-1]
        self._cls, self.pts = real, pts

    @property
    def concrete(self):
        return all(_const(x) and _const(y) for x, y in self.pts)

    @property
    def real(self):
        return self._cls([(to_float(x), to_float(y)) for x, y in self.pts])

    @property
    def area(self):
        if self.concrete:
            return self.real.area
        v = Sym.of(_shoelace(self.pts))
        return v if bool(v >= 0) else -v

    def contains(self, p):
        if not isinstance(p, GPoint):
            raise Unsupported("polygon contains a non-point")
        if self.concrete and p.concrete:
            return bool(self.real.contains(p.real))
        x, y = Sym.of(p.x), Sym.of(p.y)
        inside = False
        n = len(self.pts)
        for k in range(n):
            (x0, y0), (x1, y1) = self.pts[k], self.pts[(k + 1) % n]
            x0, y0, x1, y1 = (Sym.of(v) for v in (x0, y0, x1, y1))
            up0, up1 = bool(y0 > y), bool(y1 > y)
            cr = (x1 - x0) * (y - y0) - (x - x0) * (y1 - y0)
            if up0 != up1:
                if bool(cr == 0):
                    return False                # on the boundary
                right = bool(cr > 0) if up1 else bool(cr < 0)
                if right:
                    inside = not inside
            elif bool(y0 == y) or bool(y1 == y):
                # horizontal edges and vertices at this height
                if bool(cr == 0) and bool((x - x0) * (x - x1) <= 0) and bool((y - y0) * (y - y1) <= 0):
                    return False
        return inside

    covers = contains

    def _convex(self):
        """vertices in counter-clockwise order if convex, else None"""
        p = [(Sym.of(x), Sym.of(y)) for x, y in self.pts]
        n = len(p)
        s = []
        for k in range(n):
            a, b, c = p[k], p[(k + 1) % n], p[(k + 2) % n]
            cr = (b[0] - a[0]) * (c[1] - b[1]) - (b[1] - a[1]) * (c[0] - b[0])
            s.append(1 if bool(cr > 0) else (-1 if bool(cr < 0) else 0))
        if 1 in s and -1 in s:
            return None
        return p[::-1] if -1 in s else p

    def intersection(self, other):
        if not isinstance(other, GPolygon):
            raise Unsupported("intersection with a non-polygon")
        if self.concrete and other.concrete:
            return self.real.intersection(other.real)
        subj, clip = self.pts, other._convex()
        if clip is None:
            subj, clip = other.pts, self._convex()
            if clip is None:
                raise Unsupported("intersection of two non-convex symbolic polygons")
        out = [(Sym.of(x), Sym.of(y)) for x, y in subj]
        n = len(clip)
        for k in range(n):
            a, b = clip[k], clip[(k + 1) % n]
            ex, ey = b[0] - a[0], b[1] - a[1]
            if _zero(ex):
                up = bool(ey > 0)
                d = [(a[0] - x) if up else (x - a[0]) for x, y in out]
            elif _zero(ey):
                right = bool(ex > 0)
                d = [(y - a[1]) if right else (a[1] - y) for x, y in out]
            else:
                d = [ex * (y - a[1]) - ey * (x - a[0]) for x, y in out]
            ins = [bool(v >= 0) for v in d]
            new = []
            for i in range(len(out)):
                j = (i + 1) % len(out)
                if ins[i]:
                    new.append(out[i])
                if ins[i] != ins[j]:
                    fx, fy = out[j][0] - out[i][0], out[j][1] - out[i][1]
                    t = None if (_zero(ex) and _zero(fy)) or (_zero(ey) and _zero(fx)) else d[i] / (d[i] - d[j])
                    new.append((a[0] if _zero(ex) else out[i][0] if _zero(fx) else out[i][0] + t * fx,
                                a[1] if _zero(ey) else out[i][1] if _zero(fy) else out[i][1] + t * fy))
            out = new
            if not out:
                return GArea(Sym.const(0))
        v = Sym.of(_shoelace(out))
        return GArea(v if bool(v >= 0) else -v)

    def intersects(self, other):
        if isinstance(other, GPoint):
            return self.contains(other)
        if self.concrete and other.concrete:
            return bool(self.real.intersects(other.real))
        return bool(self.intersection(other).area > 0)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return _unwrap_call(getattr(self.real, name))


def _unwrap(v):
    return v.real if isinstance(v, (GPoint, GPolygon)) else to_float(v)


def _unwrap_call(v):
    if not callable(v):
        return v
    return lambda *a, **k: v(*[_unwrap(x) for x in a], **{kk: _unwrap(x) for kk, x in k.items()})


def geom_point(cls):
    def f(*a):
        if len(a) == 1:
            if isinstance(a[0], GPoint):
                return a[0]
            a = tuple(a[0])
        return GPoint(cls, a[0], a[1])
    f.__wrapped__ = cls
    return f


def geom_polygon(cls):
    def f(shell=None, holes=None):
        if shell is None or holes:
            raise Unsupported("polygon with holes")
        if isinstance(shell, GPolygon):
            return shell
        return GPolygon(cls, shell)
    f.__wrapped__ = cls
    return f


def geom_box(cls):
    def f(minx, miny, maxx, maxy, ccw=True):
        return GPolygon(cls, [(maxx, miny), (maxx, maxy), (minx, maxy), (minx, miny)])
    f.__wrapped__ = cls
    return f


def geom_forward(cls):
    def f(*a, **k):
        return cls(*[to_float(x) for x in a], **{kk: to_float(v) for kk, v in k.items()})

    f.__wrapped__ = cls
    return f


# ----------------------------------------------------------------- freeqdsk's text output (values as tokens)


class ChunkOutput:
    def __init__(self, filehandle, chunksize=5, extraspaces=0):
        self.fh, self.counter, self.chunk, self.extraspaces = filehandle, 0, chunksize, extraspaces

    def write(self, value):
        if isinstance(value, list):
            for v in value:
                self.write(v)
            return
        self.fh.write(" " * self.extraspaces)
        self.fh.write("   %d" % value if isinstance(value, int) else " " + S.token(value))
        self.counter += 1
        if self.counter == self.chunk:
            self.endblock()

    def newline(self):
        if self.counter:
            self.endblock()

    def endblock(self):
        self.fh.write("\n")
        self.counter = 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.newline()


def write_1d(values, out):
    for v in values:
        out.write(v)
    out.newline()


def write_2d(values, out):
    nx, ny = np.shape(values)
    for y in range(ny):
        for x in range(nx):
            out.write(values[x, y])
    out.newline()
