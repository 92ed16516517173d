"""C14  core_mask marks exactly the core."""
from .common import *

HARNESSES = H = Harnesses()
ENCODES = ["freegs.critical.core_mask"]
BOUNDS = "grids up to 3x4 with arbitrary flux at every point (thorough 4x4); up to 6x5 with arbitrary flux at up to 9 points; axis anywhere in the cells listed; 0..2 X-points, including at the edge; either flux orientation; boundary flux given or from the first X-point"
ASSUMPTIONS = []


def grid(ctx, nx, ny):
    R = ctx.arr([[exact(ctx, 1 + i / 4)] * ny for i in range(nx)])
    Z = ctx.arr([[exact(ctx, -1 + j / 2) for j in range(ny)] for i in range(nx)])
    return R, Z


def at(ctx, tag, i, j):
    """a position whose nearest grid point is (i, j)"""
    return (exact(ctx, 1 + i / 4) + ctx.real("dR_" + tag, -0.12, 0.12), exact(ctx, -1 + j / 2) + ctx.real("dZ_" + tag, -0.24, 0.24))


def fluxes(ctx):
    a = ctx.real("psi_axis", -2, 2)
    d = ctx.real("dpsi", 0.1, 2)
    b = a - d if ctx.flag("axis_is_max") else a + d
    return a, b, d


def inside(psi, a, b, axis_max):
    """normalised flux below one, written without dividing"""
    return bool(psi > b) if axis_max else bool(psi < b)


def near(c, n):
    return [k for k in (c - 1, c, c + 1) if 0 <= k < n]


def reference(ctx, psi, a, b, start, xcells):
    """flood fill from the start through inside points, not through X-point neighbourhoods"""
    nx, ny = psi.shape
    amax = bool(a > b)
    blocked = {(i, j) for (ix, jx) in xcells for i in near(ix, nx) for j in near(jx, ny)}
    core, todo = {start}, [start]
    while todo:
        i, j = todo.pop()
        for k, l in ((i + 1, j), (i - 1, j), (i, j + 1), (i, j - 1)):
            if 0 <= k < nx and 0 <= l < ny and (k, l) not in core and (k, l) not in blocked and inside(psi[k, l], a, b, amax):
                core.add((k, l))
                todo.append((k, l))
    for c in blocked:
        core.discard(c)
        if inside(psi[c], a, b, amax):
            core.add(c)
    return core


def compare(ctx, mask, core, shape):
    ctx.check("shape", np.shape(mask) == shape)
    cells = [(i, j) for i in range(shape[0]) for j in range(shape[1])]
    ctx.check("core", all(mask[c] == 1 for c in cells if c in core))
    ctx.check("not_core", all(mask[c] == 0 for c in cells if c not in core))


def run(ctx, psi, start, xcells, use_bndry):
    nx, ny = psi.shape
    R, Z = grid(ctx, nx, ny)
    a, b, d = fluxes(ctx)
    keep = psi.copy()
    ro, zo = at(ctx, "o", *start)
    opt = [(ro, zo, a), (exact(ctx, 1), exact(ctx, -1), a + 5)]
    xpt = []
    for n, c in enumerate(xcells):
        x, y = at(ctx, "x%d" % n, *c)
        xpt.append((x, y, b if n == 0 else b + n))
    if use_bndry:
        # X-points block the fill but the boundary flux is the given one
        xpt = [(x, y, b + 7) for x, y, _ in xpt]
        mask = ctx.fg.critical.core_mask(R, Z, psi, opt, xpt, b) if xpt else ctx.fg.critical.core_mask(R, Z, psi, opt, psi_bndry=b)
    else:
        mask = ctx.fg.critical.core_mask(R, Z, psi, opt, xpt)
    compare(ctx, mask, reference(ctx, psi, a, b, start, xcells), psi.shape)
    ctx.equal("psi_unchanged", psi, keep)
    ctx.check("lists_unchanged", len(opt) == 2 and len(xpt) == len(xcells))


@H("flood", bounds="3x3, every flux value arbitrary, axis at any cell kind, boundary flux given", max_paths=6000)
def flood(ctx):
    """without X-points the core is the connected set of points inside the boundary flux that contains the axis"""
    start = ((1, 1), (0, 0), (2, 1))[ctx.choose("start", 3)]
    psi = ctx.array("psi", (3, 3), -3, 3)
    run(ctx, psi, start, [], True)


@H("flood_wide", bounds="3x4, every flux value arbitrary", max_paths=20000, thorough_only=True)
def flood_wide(ctx):
    """as flood, larger grid"""
    psi = ctx.array("psi", (3, 4), -3, 3)
    run(ctx, psi, (1, 2), [], True)


def pattern(ctx, rows, syms, a, b):
    """'#' inside, '.' outside, '?' arbitrary"""
    nx, ny = len(rows), len(rows[0])
    psi = np.empty((nx, ny), dtype=object)
    k = 0
    for i in range(nx):
        for j in range(ny):
            c = rows[i][j]
            if c == "?":
                psi[i, j] = ctx.real("psi_%d_%d" % (i, j), -6, 6)
                k += 1
            elif c == "#":
                psi[i, j] = a + (b - a) * q(ctx, 1 + (i + j) % 3, 5)
            else:
                psi[i, j] = b + (b - a) * q(ctx, 1 + (i * j) % 3, 5)
    return ctx.arr(psi.tolist())


SNAKE = ["###?#",
         "..#.#",
         "#.?.#",
         "#?..?",
         "##?##",
         "....?"]
RING = ["?###?",
        "#...#",
        "#.?.#",
        "#.?.#",
        "?###?"]


@H("winding", bounds="6x5 winding and 5x5 ring-shaped regions with 6 arbitrary points", max_paths=6000)
def winding(ctx):
    """the fill follows winding corridors in every direction and stops at gaps"""
    a, b, d = fluxes(ctx)
    rows, start = ((SNAKE, (0, 0)), (SNAKE, (4, 0)), (RING, (0, 2)), (RING, (2, 2)))[ctx.choose("map", 4)]
    psi = pattern(ctx, rows, None, a, b)
    run(ctx, psi, start, [], True)


XMAP = ["######",
        "######",
        "#####?",
        "####?.",
        "###??.",
        "##???."]


@H("xpoint", bounds="6x6, X-point in the middle or at the edge, 7 arbitrary points around it", max_paths=8000, budget=200)
def xpoint(ctx):
    """the fill does not leak through an X-point; next to it a point is core exactly when inside the boundary flux"""
    a, b, d = fluxes(ctx)
    which = ctx.choose("cell", 3)
    cells = ([(4, 4)], [(5, 5)], [(3, 5)])[which]
    psi = pattern(ctx, XMAP, None, a, b)
    run(ctx, psi, (1, 1), cells, ctx.flag("given"))


LEAK = ["..###..",
        "..###..",
        "..?#?..",
        "..?#?..",
        "..###..",
        ".#####."]


@H("two_xpoints", bounds="6x7, two X-points, private region beyond a saddle", max_paths=6000)
def two_xpoints(ctx):
    """two X-points: the region beyond the saddle is not core although it is inside the boundary flux"""
    a, b, d = fluxes(ctx)
    psi = pattern(ctx, LEAK, None, a, b)
    cells = ([(3, 3), (0, 3)], [(3, 3)], [(2, 3), (5, 3)])[ctx.choose("cells", 3)]
    run(ctx, psi, (1, 3) if len(cells) == 1 or cells[1] != (0, 3) else (2, 3), cells, ctx.flag("given"))


EDGE = ["###....",
        "##?....",
        "######?",
        "#######",
        "?######"]


@H("edge", bounds="5x7 and 7x5, X-point next to each of the four edges, 3 arbitrary points", max_paths=6000)
def edge(ctx):
    """an X-point next to the edge of the grid blocks the fill up to that edge"""
    a, b, d = fluxes(ctx)
    rows, start, cell = EDGE, (0, 1), (3, 3)
    t = ctx.choose("turn", 4)
    if t & 1:
        rows, start, cell = rows[::-1], (4 - start[0], start[1]), (4 - cell[0], cell[1])
    if t & 2:
        rows, start, cell = ["".join(c) for c in zip(*rows)], start[::-1], cell[::-1]
    run(ctx, pattern(ctx, rows, None, a, b), start, [cell], ctx.flag("given"))
