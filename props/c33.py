"""C33  DivGeo files."""
import io
import re

from .common import *
from .c09 import ref_grid
from .c22 import CubicProf, axis, fixed_critical
from .c27 import solved

HARNESSES = H = Harnesses()
ENCODES = ["freegs.divgeo.write", "freegs._divgeo.write", "freegs.geqdsk.write"]
BOUNDS = "5x5, 5x9 and 9x5 grids with arbitrary flux, domain, axis and boundary flux; data with the coordinates given as arrays of 2 to 4 arbitrary values or as domain"
ASSUMPTIONS = ["the text is parsed by its documented layout; a symbolic number is written as a reference to it, in real runs with 10 digits",
               "searches for axis, X-points and the boundary curve, and the safety factor return arbitrary values (C15, C16, C32)"]


def num(s):
    m = re.fullmatch(r"@(\d+)@", s)
    return S.TOKENS[int(m.group(1))] if m else float(s)


def parse(text):
    """Reads a DivGeo file by its documented layout."""
    d = {}
    head, rest = text.split("r(1:jm);", 1)
    for k in ("jm", "km", "psib", "btf", "rtf"):
        d[k] = num(re.search(r"\b%s\s+=\s*(\S+?)\s*(?:;|Wb|t;|m;|\s)" % k, head).group(1))
    r, rest = rest.split("z(1:km);", 1)
    z, psi = rest.split("((psi(j,k)-psib,j=1,jm),k=1,km)", 1)
    d["r"], d["z"], d["psi"] = ([num(w) for w in t.split()] for t in (r, z, psi))
    return d


def compare(ctx, d, nx, ny, Rs, Zs, psi, want):
    ctx.check("size", d["jm"] == nx and d["km"] == ny)
    for k, v in want.items():
        ctx.near(k, d[k], v, 1e-8)
    ctx.check("lengths", len(d["r"]) == nx and len(d["z"]) == ny and len(d["psi"]) == nx * ny)
    for i in range(nx):
        ctx.near("r", d["r"][i], Rs[i], 1e-8)
    for j in range(ny):
        ctx.near("z", d["z"][j], Zs[j], 1e-8)
    for j in range(ny):
        for i in range(nx):
            ctx.near("psi", d["psi"][j * nx + i], psi(i, j), 1e-7)


@H("equilibrium", bounds="5x5, 5x9 and 9x5 grids, arbitrary flux at every node")
def equilibrium(ctx):
    """the file holds the grid, the flux relative to the plasma boundary with R fastest, and the vacuum field at the reference radius"""
    nx, ny = ((5, 5), (5, 9), (9, 5))[ctx.choose("grid", 3)]
    P = ctx.array("P", (nx, ny), -2, 2)
    dom = ctx.real("Rmin", 0.25, 1), ctx.real("Rmax", 1.5, 3), ctx.real("Zmin", -2, -0.5), ctx.real("Zmax", 0.5, 2)
    prof = CubicProf(ctx)
    I, R0 = ctx.real("I", -2, 2), ctx.real("R0", 0.5, 3)
    c = LinCoil(ctx, "c", I)
    tok = ctx.fg.machine.Machine([("C", c)], R0=R0)
    o, x = axis(ctx)
    eq = solved(ctx, P, prof, tok, dom, o, x, mask=ctx.arr([[1.0] * ny] * nx), J=ctx.arr([[ctx.real("J", -2, 2)] * ny] * nx))
    given = ctx.choose("oxpoints_given", 2)
    fh = io.StringIO()
    with stubs(ctx, critical__find_critical=fixed_critical(o, x),
               critical__find_separatrix=lambda eq, **k: [(1.0, 0.0), (1.5, -0.5), (2.0, 0.0), (1.5, 0.5)],
               critical__find_safety=lambda eq, npsi=1, psinorm=None, **k: psinorm * 0 + 1):
        ctx.fg.divgeo.write(eq, fh, oxpoints=(o, x) if given else None)
    d = parse(fh.getvalue())
    Rs, Zs = ref_grid(ctx, dom, nx, ny)
    g = c.g["psi"]
    compare(ctx, d, nx, ny, Rs, Zs, lambda i, j: P[i, j] + I * (g[0] + g[1] * Rs[i] + g[2] * Zs[j]) - x[0][2],
            dict(rtf=R0, btf=prof.fv / R0, psib=x[0][2] - o[0][2]))
    for i in range(nx):
        for j in range(ny):
            ctx.equal("equilibrium_untouched", eq.plasma_psi[i, j], P[i, j])


@H("data", bounds="sizes 2 to 4 in each direction, coordinates as arrays (equally spaced or not) or as domain, each direction by itself")
def data(ctx):
    """the low-level writer uses given coordinates as they are and otherwise the domain"""
    nx, ny = ((2, 3), (3, 2), (4, 3))[ctx.choose("grid", 3)]
    psi = ctx.array("psi", (nx, ny), -2, 2)
    sib, b, r0 = ctx.real("sib", -2, 2), ctx.real("b", -3, 3), ctx.real("Rref", 0.5, 3)
    data = dict(nx=nx, ny=ny, psi=psi, sibdry=sib, bcentr=b, rcentr=r0)
    if ctx.choose("r_given", 2):
        Rs = data["r"] = ctx.arr([ctx.real("r%d" % i, 0.25 + 0.5 * i, 0.625 + 0.5 * i) for i in range(nx)])
    else:
        data["rleft"], data["rdim"] = ctx.real("rleft", 0.25, 1), ctx.real("rdim", 0.5, 3)
        Rs = [data["rleft"] + data["rdim"] * q(ctx, i, nx - 1) for i in range(nx)]
    if ctx.choose("z_given", 2):
        Zs = data["z"] = ctx.arr([ctx.real("z%d" % i, -1 + 0.5 * i, -0.625 + 0.5 * i) for i in range(ny)])
    else:
        data["zmid"], data["zdim"] = ctx.real("zmid", -1, 1), ctx.real("zdim", 0.5, 3)
        Zs = [data["zmid"] + data["zdim"] * (q(ctx, j, ny - 1) - q(ctx, 1, 2)) for j in range(ny)]
    keys = set(data)
    fh = io.StringIO()
    ctx.fg._divgeo.write(data, fh, label="x")
    compare(ctx, parse(fh.getvalue()), nx, ny, Rs, Zs, lambda i, j: psi[i, j] - sib, dict(psib=sib, btf=b, rtf=r0))
    ctx.check("data_untouched", set(data) == keys)
