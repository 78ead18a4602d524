"""C20: layers with a tensor permittivity."""
import copy

import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..common import Lane, Skip, close, default_backends, import_nannos, require, tonp
from ..ref import csqrt
from .c18_vector import FIELD, jones, make_t

nn = import_nannos()
RULE = (
    "A case is a grating problem with tensor permittivity layers (diagonal, Hermitian, general in-plane block plus a "
    "zz entry, random per pixel).  Oracles: reference solver (efficiencies and fields), equality with the scalar "
    "layer when the tensor is isotropic, energy conservation for Hermitian tensors, exchange of the axes, and the "
    "closed form of a birefringent slab; lane formulations: 'tangent', 'pol', 'jones' with given tangential fields.  Non-trivial: a tensor layer whose entries differ and several harmonics."
)
ASSUMPTIONS = ["nnv/ref.py is right; tensors with the z axis as a principal axis"]


def run_ref(sc):
    sim = gen.make_sim(nn, sc)
    harm = gen.harmonics_of(sim)
    ref = gen.guard(gen.make_ref(sc, harm), cond=1e5)
    R, T = sim.diffraction_efficiencies(orders=True)
    Rr, Tr = ref.efficiencies()
    stats = {}
    close("R per order", R, Rr, 1e-7, stats=stats)
    close("T per order", T, Tr, 1e-7, stats=stats)
    for l, L in enumerate(sc["layers"]):
        z = 0.3 * L["h"]
        want = ref.fields(l, z)
        close("fields", tonp(sim.get_field_fourier(l, z))[0], want, 1e-6, scale=max(1.0, np.abs(want).max()), stats=stats)
    an = [L["eps"]["sym"] for L in sc["layers"] if isinstance(L["eps"], dict) and L["eps"]["t"] == "aniso"]
    only_h = all(not isinstance(L["eps"], dict) or (L["eps"]["t"] == "aniso" and L["eps"]["sym"] == "herm") for L in sc["layers"])
    if only_h and all(isinstance(L["eps"], dict) or L["eps"][1] == 0 for L in sc["layers"]):
        if all(isinstance(L["eps"], dict) or L["eps"][0] > 0 for L in sc["layers"]):
            close("R+T of a lossless stack", np.array([float(tonp(R).sum() + tonp(T).sum())]), np.array([1.0]), 1e-7, stats=stats)
            an.append("lossless")
    return dict(nontrivial=bool(an) and harm.shape[1] > 1, labels=gen.scene_labels(sc) + ["tensor " + a for a in an],
                stats=stats, sample={"R": float(Rr.sum()), "T": float(Tr.sum())})


def run_iso(case):
    """isotropic tensor = scalar; exchange of the axes of a tensor layer."""
    sc = case["scene"]
    lattice = gen.make_lattice(nn, sc)
    shape = tuple(sc["disc"])

    def layers(tensor, off):
        out = []
        for L in sc["layers"]:
            e = gen.eps_of(L["eps"], shape)
            if not isinstance(e, np.ndarray) or not tensor:
                out.append(gen.make_layer(nn, lattice, sc, L))
                continue
            T = np.zeros((3, 3) + shape, complex)
            for i in range(3):
                T[i, i] = e
            lay = lattice.Layer(L["name"], thickness=L["h"])
            lay.epsilon = gen.to_backend(nn, T)
            out.append(lay)
        return out

    a = gen.make_sim(nn, sc, lattice, layers(False, 0))
    b = gen.make_sim(nn, sc, lattice, layers(True, 0))
    harm = gen.harmonics_of(a)
    gen.guard(gen.make_ref(sc, harm), cond=1e5)
    stats = {}
    for nm, x, y in zip("RT", a.diffraction_efficiencies(orders=True), b.diffraction_efficiencies(orders=True)):
        close(f"{nm}: tensor and scalar layers", y, tonp(x), 1e-7, stats=stats)
    for l, L in enumerate(sc["layers"]):
        F = tonp(a.get_field_fourier(l, 0.5 * L["h"]))
        close("fields: tensor and scalar layers", b.get_field_fourier(l, 0.5 * L["h"]), F, 1e-6, scale=max(1.0, np.abs(F).max()), stats=stats)
        if isinstance(L["eps"], dict):
            close("reconstructed permittivity", b.get_epsilon(l), tonp(a.get_epsilon(l)), 1e-9)
    return dict(nontrivial=gen.has_pattern(sc) and harm.shape[1] > 1, labels=gen.scene_labels(sc) + ["isotropic tensor"], stats=stats,
                sample={"R": float(tonp(a.diffraction_efficiencies()[0]))})


def run_forms(case):
    """tensor layers in the formulations with an inverse rule."""
    sc = case["scene"]
    shape = tuple(sc["disc"])
    one_d = sc["lat"]["kind"] == "1d"
    eps = [gen.eps_of(L["eps"], shape) for L in sc["layers"]]
    if case["iso"]:  # the same scalar in every direction: the result of the scalar layer
        for i, e in enumerate(eps):
            if np.ndim(e) == 4:
                eps[i] = np.einsum("ij,xy->ijxy", np.eye(3), e[2, 2])
    for e in eps:
        if np.ndim(e) == 4 and np.min(abs(e[0, 0] * e[1, 1] - e[0, 1] * e[1, 0])) < 0.05:
            raise Skip("singular in-plane block")
    ts = [make_t(p, shape) if np.ndim(e) and not one_d else None for e, p in zip(eps, case["t"])]

    def build(scalar):
        lattice = gen.make_lattice(nn, sc)
        layers = []
        for L, e, t in zip(sc["layers"], eps, ts):
            kw = {} if t is None else {"tangent_field": [gen.to_backend(nn, c) for c in t]}
            lay = lattice.Layer(L["name"], thickness=L["h"], epsilon=complex(e) if np.ndim(e) == 0 else 1, **kw)
            if np.ndim(e):
                lay.epsilon = gen.to_backend(nn, np.array(e[2, 2] if scalar and np.ndim(e) == 4 else e, complex))
            layers.append(lay)
        return gen.make_sim(nn, sc, lattice, layers)

    sim = build(False)
    harm = gen.harmonics_of(sim)
    want = [None if t is None else (jones(t) if sc["form"] == "jones" else t) for t in ts]
    rules = [("li_x" if one_d else "vector") if np.ndim(e) and sc["form"] != "original" else "laurent" for e in eps]
    ref = gen.guard(gen.make_ref(sc, harm, rules=rules, tangents=want, eps=eps), cond=1e5)
    stats = {}
    tol = 1e-7 if nn.get_backend() != "torch" else 1e-6
    R, T = sim.diffraction_efficiencies(orders=True)
    Rr, Tr = ref.efficiencies()
    close("R per order", R, Rr, tol, stats=stats)
    close("T per order", T, Tr, tol, stats=stats)
    for l, L in enumerate(sc["layers"]):
        z = 0.3 * L["h"]
        F = ref.fields(l, z)
        close("fields", tonp(sim.get_field_fourier(l, z))[0], F, 30 * tol, scale=max(1.0, np.abs(F).max()), stats=stats)
    if case["iso"]:
        for nm, x, y in zip("RT", build(True).diffraction_efficiencies(orders=True), (R, T)):
            close(f"{nm}: tensor and scalar layers", y, tonp(x), tol, stats=stats)
    an = any(np.ndim(e) == 4 for e in eps)
    return dict(nontrivial=an and harm.shape[1] > 1, labels=gen.scene_labels(sc) + ["iso" if case["iso"] else "tensor"], stats=stats,
                sample={"R": float(Rr.sum()), "T": float(Tr.sum())})


def run_slab(case):
    """constant diagonal tensor in a principal plane: two decoupled slabs."""
    sc = copy.deepcopy(case["scene"])
    ex, ey, ez = [complex(*e) for e in case["diag"]]
    phi = 90.0 * case["quarter"]
    sc["ang"] = [sc["ang"][0], phi, 90.0 if case["pol"] == "s" else 0.0]
    sc["layers"] = [sc["layers"][0], {"name": "crystal", "h": case["h"], "eps": {"t": "aniso"}}, sc["layers"][-1]]
    sc["nh"] = case["nh"]
    sc["disc"] = [27, 1 if sc["lat"]["kind"] == "1d" else 26]
    lattice = gen.make_lattice(nn, sc)
    shape = tuple(lattice.discretization)
    T = np.zeros((3, 3) + shape, complex)
    for i, e in enumerate((ex, ey, ez)):
        T[i, i] = e
    sc2 = dict(sc, layers=[sc["layers"][0], dict(sc["layers"][1], eps=[1.0, 0.0]), sc["layers"][2]])
    layers = [gen.make_layer(nn, lattice, sc2, L) for L in sc2["layers"]]
    layers[1].epsilon = gen.to_backend(nn, T)
    sim = gen.make_sim(nn, sc, lattice, layers)
    harm = gen.harmonics_of(sim)
    k0 = 2 * np.pi / sc["wl"]
    e1, e3 = complex(*sc["layers"][0]["eps"]), complex(*sc["layers"][2]["eps"])
    kt = k0 * np.sqrt(e1) * np.sin(np.deg2rad(sc["ang"][0]))
    epar, eper = (ex, ey) if case["quarter"] % 2 == 0 else (ey, ex)

    def kzY(epar, eper, ez, s):
        if s:
            q = csqrt(eper * k0**2 - kt**2)
            return q, q / k0
        q = csqrt(epar * (k0**2 - kt**2 / ez))
        return q, epar * k0 / q

    s = case["pol"] == "s"
    q = [kzY(e1, e1, e1, s), kzY(epar, eper, ez, s), kzY(e3, e3, e3, s)]
    gen_q = [csqrt(e * k0**2 - (kt + 0) ** 2) for e in (e1, e3, ex, ey)]
    if min(abs(x[0]) for x in q) < 5e-3 * k0 or min(abs(x) for x in gen_q) < 5e-3 * k0:
        raise Skip("grazing wave")
    Y = [x[1] for x in q]
    r01, r12 = (Y[0] - Y[1]) / (Y[0] + Y[1]), (Y[1] - Y[2]) / (Y[1] + Y[2])
    ph = np.exp(1j * q[1][0] * case["h"])
    r = (r01 + r12 * ph**2) / (1 + r01 * r12 * ph**2)
    t = (1 + r01) * (1 + r12) * ph / (1 + r01 * r12 * ph**2)
    # Rayleigh anomalies of the higher (unused) orders make their matrices singular
    K = gen.recip(sc["lat"]) @ harm
    kx = kt.real * np.cos(np.deg2rad(phi)) + K[0]
    ky = kt.real * np.sin(np.deg2rad(phi)) + K[1]
    for e in (e1, e3, ex, ey, ez):
        if np.min(np.abs(e * k0**2 - kx**2 - ky**2)) < 2e-3 * k0**2:
                raise Skip("Rayleigh anomaly")
    stats = {}
    i0 = [k for k in range(harm.shape[1]) if tuple(harm[:, k]) == (0, 0)][0]
    R, Tt = [tonp(x) for x in sim.diffraction_efficiencies(orders=True)]
    close("R of a birefringent slab", R[i0], abs(r) ** 2, 1e-7, stats=stats)
    close("T of a birefringent slab", Tt[i0], abs(t) ** 2 * Y[2].real / Y[0].real, 1e-7, stats=stats)
    close("R elsewhere", np.delete(R, i0), 0 * np.delete(R, i0), 1e-8)
    return dict(nontrivial=abs(ex - ey) > 1e-2, labels=["slab " + case["pol"], "quarter %d" % case["quarter"]], stats=stats,
                sample={"R": float(abs(r) ** 2)})


@st.composite
def herm(draw):
    sc = draw(gen.scenes(inner=(1, 3), need_pattern=True, lossless=True, aniso=True, nh=(3, 20), nh1d=(3, 25)))
    for L in sc["layers"]:
        if isinstance(L["eps"], dict):
            if L["eps"]["t"] != "aniso":
                L["eps"] = {"t": "aniso", "base": L["eps"], "s": draw(gen.seeds), "off": True}
            L["eps"]["sym"] = "herm"
    return sc


@st.composite
def slabs(draw):
    sc = draw(gen.scenes(inner=(0, 0), nh=(3, 10), user_harm=False))
    return {"scene": sc, "diag": [draw(gen.scalars(metal=False)) for _ in range(3)], "quarter": draw(st.integers(0, 3)),
            "pol": draw(st.sampled_from("sp")), "h": draw(gen.fl(0.02, 1.5)), "nh": draw(st.integers(1, 12))}


def lanes():
    bk = default_backends()
    tensor = gen.scenes(inner=(1, 3), need_pattern=True, aniso=True, nh=(3, 20), nh1d=(3, 25))
    iso = st.fixed_dictionaries({"scene": gen.scenes(inner=(1, 3), need_pattern=True, nh=(3, 20), nh1d=(3, 25))})
    forms = st.fixed_dictionaries({
        "scene": gen.scenes(inner=(1, 3), need_pattern=True, aniso=True, forms=("tangent", "pol", "jones"), nh=(3, 16), nh1d=(3, 21)),
        "t": st.lists(FIELD, min_size=14, max_size=14), "iso": st.integers(0, 3).map(lambda i: i == 0),
    })
    return [
        Lane("tensor", tensor, run_ref, 600, backends=bk),
        Lane("hermitian", herm(), run_ref, 500, backends=bk),
        Lane("isotropic", iso, run_iso, 300, backends=bk),
        Lane("formulations", forms, run_forms, 500, backends=bk),
        Lane("slab", slabs(), run_slab, 500, backends=bk),
    ]
