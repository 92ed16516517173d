"""Import freegs from /repo: as it is, or with the symbolic stand-ins."""
import builtins
import importlib
import os
import sys
import types

REPO = os.environ.get("VERIF_REPO", "/repo")


def _check_origin(mod):
    f = os.path.realpath(mod.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError("freegs imported from %s, not from %s" % (f, REPO))


SUBMODULES = ["gradshafranov", "coil", "shaped_coil", "filament_coil", "multi_coil", "pre_calc_coil",
              "machine", "boundary", "multigrid", "critical", "jtor", "control", "picard", "equilibrium",
              "polygons", "quadrature", "optimise", "optimiser", "fieldtracer", "dump", "geqdsk",
              "plotting", "divgeo", "_divgeo"]


def _load():
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    import freegs
    _check_origin(freegs)
    missing = []
    for m in SUBMODULES:
        try:
            importlib.import_module("freegs." + m)
        except ModuleNotFoundError as e:
            if e.name and e.name.startswith("freegs"):
                missing.append(m)
            else:
                raise
    return freegs


def load_real():
    return _load()


def load_symbolic():
    import matplotlib  # noqa: F401  (real package must be importable first for others)
    import numpy
    import scipy
    import scipy.constants
    import scipy.integrate
    import scipy.interpolate
    import scipy.linalg
    import scipy.optimize
    import scipy.sparse
    import scipy.sparse.linalg
    import scipy.special
    import shapely
    import shapely.geometry
    import shapely.geometry.polygon

    from . import h5
    from . import shims as H
    from . import sym as S

    env = H.Environment()
    np_shim, lin_shim = H.build_numpy(env)
    sp_special = H.ModProxy(scipy.special, {"ellipk": H.s_ellip("ellipk", scipy.special.ellipk),
                                            "ellipe": H.s_ellip("ellipe", scipy.special.ellipe)})
    sp_integrate = H.ModProxy(scipy.integrate, {
        "romb": H.s_romb, "quad": H.s_quad, "cumulative_trapezoid": H.cumulative_trapezoid,
        "trapezoid": H.s_trapz, "odeint": env.odeint})
    sp_interp = H.ModProxy(scipy.interpolate, {
        "RectBivariateSpline": H.make_spline, "interp1d": H.make_interp1d,
        "InterpolatedUnivariateSpline": H.make_univariate})
    sp_sl = H.ModProxy(scipy.sparse.linalg, {"factorized": H.s_factorized, "spsolve": H.s_spsolve})
    sp_sparse = H.ModProxy(scipy.sparse, {"lil_matrix": H.s_lil_matrix, "eye": H.s_speye,
                                          "identity": H.s_speye, "csr_matrix": H.s_lil_matrix,
                                          "csc_matrix": H.s_lil_matrix, "dok_matrix": H.s_lil_matrix,
                                          "lil_array": H.s_lil_matrix, "eye_array": H.s_speye,
                                          "linalg": sp_sl})
    sp_opt = H.ModProxy(scipy.optimize, {"minimize": env.minimize, "leastsq": env.leastsq})
    pi = S.Sym.atom(S.REG.pi())
    sp_const = H.ModProxy(scipy.constants, {"pi": pi, "mu_0": S.Sym.const(4) * S.Sym.const(S.Fraction(1, 10 ** 7)) * pi})
    sp_linalg = H.ModProxy(scipy.linalg, {"inv": H.s_inv, "norm": H.s_norm})
    sp = H.ModProxy(scipy, {"special": sp_special, "integrate": sp_integrate, "interpolate": sp_interp,
                            "sparse": sp_sparse, "optimize": sp_opt, "constants": sp_const,
                            "linalg": sp_linalg})
    import math
    mshim = types.ModuleType("math")
    for k in dir(math):
        setattr(mshim, k, getattr(math, k))
    for k, sf in (("sqrt", S.sym_sqrt), ("sin", S.sym_sin), ("cos", S.sym_cos), ("log", None),
                  ("exp", S.sym_exp), ("fabs", S.sym_abs)):
        if sf is not None:
            setattr(mshim, k, lambda v, sf=sf, r=getattr(math, k): sf(v) if isinstance(v, S.Sym) else r(v))
    mshim.log = lambda v, *b: S.sym_log(v) if isinstance(v, S.Sym) and not b else math.log(v, *b)
    mshim.pi = pi
    mshim.hypot = lambda *a: S.sym_sqrt(sum(S.Sym.of(v) ** 2 for v in a)) if any(isinstance(v, S.Sym) for v in a) else math.hypot(*a)
    mshim.isclose = lambda a, b, rel_tol=1e-9, abs_tol=0.0: (
        bool(S.sym_abs(S.Sym.of(a) - b) <= S.sym_extremum([S.Sym.of(rel_tol) * S.sym_extremum([S.sym_abs(a), S.sym_abs(b)], "max"), S.Sym.of(abs_tol)], "max"))
        if isinstance(a, S.Sym) or isinstance(b, S.Sym) else math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol))
    mshim.isnan = lambda v: False if isinstance(v, S.Sym) else math.isnan(v)
    mshim.isfinite = lambda v: True if isinstance(v, S.Sym) else math.isfinite(v)
    mshim.fsum = lambda it: (lambda l: sum(l) if any(isinstance(v, S.Sym) for v in l) else math.fsum(l))(list(it))
    geo_over = {n: H.geom_forward(getattr(shapely.geometry, n))
                for n in ("LinearRing", "LineString", "MultiPoint")}
    geo_over["Point"] = H.geom_point(shapely.geometry.Point)
    geo_over["Polygon"] = H.geom_polygon(shapely.geometry.Polygon)
    geo_over["box"] = H.geom_box(shapely.geometry.Polygon)
    geo_poly = H.ModProxy(shapely.geometry.polygon, {k: v for k, v in geo_over.items() if k in ("Polygon", "LinearRing")})
    geo = H.ModProxy(shapely.geometry, dict(geo_over, polygon=geo_poly))
    shp = H.ModProxy(shapely, dict({k: v for k, v in geo_over.items()}, geometry=geo))
    import freeqdsk
    import freeqdsk._fileutils
    fileutils = H.ModProxy(freeqdsk._fileutils, {"ChunkOutput": H.ChunkOutput, "write_1d": H.write_1d, "write_2d": H.write_2d,
                                                 "f2s": S.token})
    plt = H.DummyPlt()
    mpl = H.ModProxy(matplotlib, {"pyplot": plt})
    mods = {
        "numpy": np_shim, "numpy.linalg": lin_shim, "numpy.random": env.random,
        "scipy": sp, "scipy.special": sp_special, "scipy.integrate": sp_integrate,
        "scipy.interpolate": sp_interp, "scipy.sparse": sp_sparse, "scipy.sparse.linalg": sp_sl,
        "scipy.optimize": sp_opt, "scipy.constants": sp_const, "scipy.linalg": sp_linalg,
        "shapely": shp, "shapely.geometry": geo, "shapely.geometry.polygon": geo_poly,
        "freeqdsk": H.ModProxy(freeqdsk, {"_fileutils": fileutils}), "freeqdsk._fileutils": fileutils,
        "matplotlib": mpl, "matplotlib.pyplot": plt, "math": mshim, "h5py": h5.module(),
    }
    orig = builtins.__import__

    def hook(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0 and globals is not None:
            who = globals.get("__name__", "")
            if who == "freegs" or who.startswith("freegs."):
                top = name.split(".")[0]
                if top in mods:
                    if fromlist:
                        m = mods.get(name)
                        if m is None:
                            real = importlib.import_module(name)
                            m = H.ModProxy(real, {})
                        return m
                    if name not in mods:
                        importlib.import_module(name)
                    return mods[top]
        return orig(name, globals, locals, fromlist, level)

    builtins.__import__ = hook
    for k in [k for k in sys.modules if k == "freegs" or k.startswith("freegs.")]:
        del sys.modules[k]
    fg = _load()
    for k, m in list(sys.modules.items()):
        # float(x) of a symbolic value is that value
        if (k == "freegs" or k.startswith("freegs.")) and m is not None and "float" not in vars(m):
            m.float = H.symfloat
    fg.__dict__["_verif_env"] = env
    fg.__dict__["_verif_np"] = np_shim
    return fg, env
