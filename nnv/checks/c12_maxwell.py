"""C12: the returned fields obey Maxwell's equations; field maps are their Fourier sums."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..common import Lane, close, default_backends, import_nannos, require, tonp
from ..ref import effective_tensor

nn = import_nannos()
RULE = (
    "A case is a grating problem, a layer and depths.  Lane maxwell: the six curl equations, order by order, "
    "with derivatives along z from a sixth-order stencil on returned fields.  Lane maps: get_field_grid / "
    "get_Efield_grid / get_Hfield_grid for every field, component, shape and depth list against the explicit "
    "Fourier sum.  Non-trivial: several harmonics (maxwell: patterned layer queried)."
)
ASSUMPTIONS = ["wavevector of every order from the documented incidence convention; D = eps * E in the truncated Fourier space"]

STENCIL = [(-3, -1 / 60), (-2, 3 / 20), (-1, -3 / 4), (1, 3 / 4), (2, -3 / 20), (3, 1 / 60)]


def run_maxwell(case):
    sc = case["scene"]
    sim = gen.make_sim(nn, sc)
    harm = gen.harmonics_of(sim)
    ref = gen.guard(gen.make_ref(sc, harm), cond=1e5)
    n = len(sc["layers"])
    l = case["l"] % n
    L = sc["layers"][l]
    w = ref.w
    kx, ky = ref.kx, ref.ky
    qm = max(float(np.max(np.abs(ref.layers[l].q))), w)
    d = 0.02 / qm
    z0 = case["z"] * L["h"]
    zs = [z0] + [z0 + k * d for k, _ in STENCIL]
    F = tonp(sim.get_field_fourier(l, zs))
    (ex, ey, ez), (hx, hy, hz) = F[0]
    dF = sum(c * F[1 + i] for i, (_, c) in enumerate(STENCIL)) / d
    dE, dH = dF
    e = gen.eps_of(L["eps"], tuple(sc["disc"]))
    rule = "li_x" if sc["form"] == "tangent" and np.ndim(e) else "laurent"
    Exx, Exy, Eyx, Eyy, Ezi = effective_tensor(e, harm, rule)
    dx, dy = Exx @ ex + Exy @ ey, Eyx @ ex + Eyy @ ey
    dz = np.linalg.solve(Ezi, ez)
    res = [
        1j * ky * ez - dE[1] - 1j * w * hx,
        dE[0] - 1j * kx * ez - 1j * w * hy,
        1j * kx * ey - 1j * ky * ex - 1j * w * hz,
        1j * ky * hz - dH[1] + 1j * w * dx,
        dH[0] - 1j * kx * hz + 1j * w * dy,
        1j * kx * hy - 1j * ky * hx + 1j * w * dz,
        1j * kx * hx + 1j * ky * hy + dH[2],
    ]
    s = qm * max(1.0, np.abs(F).max()) * max(1.0, np.abs(e).max())
    stats = {}
    for i, r in enumerate(res):
        close(f"curl equations: number {i}, layer {l} of {n}", r, 0 * r, 1e-6, scale=s, stats=stats)
    return dict(nontrivial=isinstance(L["eps"], dict) and harm.shape[1] > 1, stats=stats, labels=gen.scene_labels(sc),
                sample={"layer": l, "z": z0})


def run_maps(case):
    sc = case["scene"]
    sim = gen.make_sim(nn, sc)
    harm = gen.harmonics_of(sim)
    gen.guard(gen.make_ref(sc, harm), cond=1e5)
    n = len(sc["layers"])
    l = case["l"] % n
    L = sc["layers"][l]
    one_d = sc["lat"]["kind"] == "1d"
    zz = [z * max(L["h"], 0.1) for z in case["zs"]]
    arg = zz if case["aslist"] or len(zz) > 1 else zz[0]
    F = tonp(sim.get_field_fourier(l, arg))
    m = np.abs(harm).max(1)
    if case["shape"] is None:
        shape = None
        want_shape = tuple(sc["disc"])
    else:
        shape = (int(m[0]) + 1 + case["shape"][0], 1 if one_d else int(m[1]) + 1 + case["shape"][1])
        want_shape = shape
    Nx, Ny = want_shape
    PX = np.exp(2j * np.pi * np.outer(np.arange(Nx) / Nx, harm[0]))
    PY = np.exp(2j * np.pi * np.outer(np.arange(Ny) / Ny, harm[1]))
    full = np.einsum("ih,jh,zfch->fcijz", PX, PY, F)
    sel, comp = case["field"], case["comp"]
    c = {"all": slice(None), "x": 0, "y": 1, "z": 2}[comp]
    key = {"int": l, "neg": l - n, "name": L["name"], "obj": sim.layers[l], "np": np.int64(l)}[case["how"]]
    kw = {} if shape is None else {"shape": shape}
    out = sim.get_field_grid(key, z=arg, field=sel, component=comp, **kw)
    stats = {}
    s = max(1.0, np.abs(full).max())
    if sel == "all":
        require(isinstance(out, (tuple, list)) and len(out) == 2, "E and H expected")
        got = [tonp(out[0]), tonp(out[1])]
        for k in range(2):
            w_ = full[k, c]
            require(got[k].shape == w_.shape, f"map has shape {got[k].shape}, expected {w_.shape}")
            close("field map", got[k], w_, 1e-9, scale=s, stats=stats)
    else:
        w_ = full["EH".index(sel), c]
        g = tonp(out)
        require(g.shape == w_.shape, f"map has shape {g.shape}, expected {w_.shape}")
        close("field map", g, w_, 1e-9, scale=s, stats=stats)
        f = sim.get_Efield_grid if sel == "E" else sim.get_Hfield_grid
        close("field map (shortcut)", tonp(f(key, z=arg, component=comp, **kw)), w_, 1e-9, scale=s)
    return dict(nontrivial=harm.shape[1] > 1, stats=stats,
                labels=gen.scene_labels(sc) + ["field=" + sel, "comp=" + comp, "default shape" if shape is None else "shape given"],
                sample={"shape": want_shape, "layer": l})


@st.composite
def maps(draw):
    return {
        "scene": draw(gen.scenes(inner=(0, 3), nh=(2, 16), nh1d=(3, 17), aniso=("diag", "herm", "symm", "gen"))), "l": draw(st.integers(0, 14)),
        "zs": draw(st.lists(gen.fl(0, 1), min_size=1, max_size=3)), "aslist": draw(st.booleans()),
        "shape": draw(st.one_of(st.none(), st.tuples(st.integers(0, 9), st.integers(0, 9)).map(list))),
        "field": draw(st.sampled_from(["all", "E", "H"])), "comp": draw(st.sampled_from(["all", "x", "y", "z"])),
        "how": draw(st.sampled_from(["int", "neg", "name", "obj", "np"])),
    }


@st.composite
def maxw(draw):
    sc = draw(gen.scenes(inner=(1, 3), need_pattern=True, forms=("original", "tangent"), thick=gen.fl(0.01, 0.9), aniso=("diag", "herm", "symm", "gen")))
    if sc["lat"]["kind"] == "2d":
        sc["form"] = "original"
    return {"scene": sc, "l": draw(st.one_of(st.just(1), st.integers(0, 14))), "z": draw(gen.fl(0, 1))}


def lanes():
    bk = default_backends()
    return [Lane("maxwell", maxw(), run_maxwell, 1000, backends=bk), Lane("maps", maps(), run_maps, 700, backends=bk)]
