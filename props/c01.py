"""C01  Filament Green's function."""
from .common import *

HARNESSES = H = Harnesses()
ENCODES = ["freegs.gradshafranov.Greens"]
BOUNDS = "all real R,Rc in [0.01,20], Z,Zc in [-20,20]; array arguments of shape (2,2), (2,1)x(1,2) and (3,)"
ASSUMPTIONS = ["ellipk and ellipe are uninterpreted functions of their argument (>= 1.57 resp. in [0.99,1.58])"]


def two(ctx):
    return (ctx.real("Rc", 0.01, 20), ctx.real("Zc", -20, 20), ctx.real("R", 0.01, 20), ctx.real("Z", -20, 20))


@H("closed_form", bounds="all real arguments in the ranges")
def closed_form(ctx):
    """Greens is mu0/2pi sqrt(R Rc) ((2-k2)K(k2)-2E(k2))/k with k2 clipped to [1e-10, 1-1e-10]"""
    G = ctx.fg.gradshafranov.Greens
    a = two(ctx)
    ctx.equal("closed_form", G(*a), ref_greens(ctx, *a))


@H("closed_form_inside", clip="fork")
def closed_form_inside(ctx):
    """the same with the clipping decided by path: no clipping happens strictly inside the range"""
    G = ctx.fg.gradshafranov.Greens
    Rc, Zc, R, Z = two(ctx)
    k2 = 4 * R * Rc / ((R + Rc) ** 2 + (Z - Zc) ** 2)
    ctx.assume(k2 >= exact(ctx, 1e-9))
    ctx.assume(k2 <= 1 - exact(ctx, 1e-9))
    ref = (mu0(ctx) / (2 * ctx.pi)) * sqrt(ctx, R * Rc) * ((2 - k2) * ellipk(ctx, k2) - 2 * ellipe(ctx, k2)) / sqrt(ctx, k2)
    ctx.equal("unclipped", G(Rc, Zc, R, Z), ref)


@H("on_the_filament")
def on_the_filament(ctx):
    """at the filament itself the value is finite and equals the clipped closed form"""
    G = ctx.fg.gradshafranov.Greens
    R, Z = ctx.real("R", 0.01, 20), ctx.real("Z", -20, 20)
    ctx.equal("coincident", G(R, Z, R, Z), ref_greens(ctx, R, Z, R, Z))


@H("reciprocity")
def reciprocity(ctx):
    """exchanging source and observer leaves the flux unchanged"""
    G = ctx.fg.gradshafranov.Greens
    Rc, Zc, R, Z = two(ctx)
    ctx.equal("reciprocity", G(Rc, Zc, R, Z), G(R, Z, Rc, Zc))


@H("vertical_symmetry")
def vertical_symmetry(ctx):
    """translation and reflection in Z"""
    G = ctx.fg.gradshafranov.Greens
    Rc, Zc, R, Z = two(ctx)
    d = ctx.real("d", -20, 20)
    ctx.equal("translation", G(Rc, Zc + d, R, Z + d), G(Rc, Zc, R, Z))
    ctx.equal("reflection", G(Rc, -Zc, R, -Z), G(Rc, Zc, R, Z))


@H("scaling")
def scaling(ctx):
    """flux is homogeneous of degree one in all lengths"""
    G = ctx.fg.gradshafranov.Greens
    Rc, Zc, R, Z = two(ctx)
    s = ctx.real("s", 0.1, 10)
    ctx.equal("scaling", G(s * Rc, s * Zc, s * R, s * Z), s * G(Rc, Zc, R, Z))


@H("arrays", bounds="shapes (2,2), (3,), (2,1)x(1,2), scalar observer with array source; entries arbitrary reals")
def arrays(ctx):
    """array arguments are evaluated elementwise with broadcasting and are not modified"""
    G = ctx.fg.gradshafranov.Greens
    Rc, Zc = ctx.real("Rc", 0.01, 20), ctx.real("Zc", -20, 20)
    mode = ctx.choose("mode", 4)
    shape = [(2, 2), (3,), (2, 1), (2,)][mode]
    R = ctx.array("R", shape, 0.01, 20)
    Z = ctx.array("Z", (1, 2) if mode == 2 else shape, -20, 20)
    R0, Z0 = R.copy(), Z.copy()
    if mode == 3:
        v = G(R, Z, Rc, Zc)
    else:
        v = G(Rc, Zc, R, Z)
    bR, bZ = np.broadcast_arrays(R, Z)
    ref = np.empty(bR.shape, dtype=object)
    for i in np.ndindex(*bR.shape):
        ref[i] = ref_greens(ctx, bR[i], bZ[i], Rc, Zc) if mode == 3 else ref_greens(ctx, Rc, Zc, bR[i], bZ[i])
    ctx.equal("elementwise", v, ref if ctx.symbolic else ref.astype(float))
    ctx.equal("arguments_unchanged", R, R0)
    ctx.equal("arguments_unchanged", Z, Z0)
