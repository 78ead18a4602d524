"""C21: every numerical backend computes the same thing."""
import atexit

import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..common import Lane, Skip, Violation, close, import_nannos, require, tonp

nn = import_nannos()
RULE = (
    "A case is a generated problem (lattice, shapes, stack, any formulation, field/map/stress queries, densities "
    "and filters) computed by the numpy backend in this process and by another backend in a second process; every "
    "returned quantity is compared, per diffraction order.  Non-trivial: a patterned layer and several harmonics."
)
ASSUMPTIONS = [
    "the order in which harmonics of equal length are listed may differ between backends: compared by label",
    "the automatic tangential field of torch has single-precision intermediates: tolerance 2e-5 there",
]
MOD = "nnv.checks.c21_backends"


def by_order(h, A):
    """reorder the last axis of A by the labels of the harmonics"""
    k = np.lexsort((h[1], h[0]))
    return np.asarray(A)[..., k]


def compute(case):
    sc = case["scene"]
    out = {}
    lattice = gen.make_lattice(nn, sc)
    one_d = sc["lat"]["kind"] == "1d"
    out["reciprocal"] = tonp(lattice.reciprocal)
    out["area"] = np.asarray(float(tonp(lattice.area)))
    out["grid"] = tonp(lattice.grid)
    out["unit grid"] = tonp(lattice.unit_grid)
    out["transform"] = tonp(lattice.transform(nn.backend.array(np.array(case["pts"]))))
    B = gen.basis(sc["lat"])
    if not one_d:
        c = tuple(float(v) for v in B.T @ np.array(case["c"]))
        s = gen.extent(sc["lat"])
        out["circle"] = tonp(lattice.circle(c, 0.3 * s))
        out["ellipse"] = tonp(lattice.ellipse(c, (0.35 * s, 0.2 * s), rotate=case["rot"]))
        out["rectangle"] = tonp(lattice.rectangle(c, (0.5 * s, 0.3 * s), rotate=case["rot"]))
        out["square"] = tonp(lattice.square(c, 0.4 * s, rotate=case["rot"]))
        out["polygon"] = tonp(lattice.polygon([(0.0131 * s, 0.0073 * s), (0.7137 * s, 0.1019 * s), (0.2171 * s, 0.6113 * s)]))
    else:
        out["stripe"] = tonp(lattice.stripe(case["c"][0] * B[0, 0], 0.37 * B[0, 0]))
    layers = [gen.make_layer(nn, lattice, sc, L, tangent_field_type=case["tft"]) for L in sc["layers"]]
    pw = gen.make_pw(nn, sc)
    out["plane wave"] = np.concatenate([tonp(pw.wavevector).ravel(), tonp(pw.amplitude).ravel(), tonp(pw.a0).ravel()])
    sim = gen.make_sim(nn, sc, lattice, layers, pw)
    h = gen.harmonics_of(sim)
    if sc["form"] not in ("original",) and not one_d:
        for L, lay in zip(sc["layers"], layers):
            if isinstance(L["eps"], dict):
                for nrm in (False, True):
                    t = np.array([tonp(c) for c in lay.get_tangent_field(sim.harmonics, normalize=nrm)])
                    if not nrm:
                        m = np.hypot(*t.real)
                        if m.min() < 1e-3:
                            raise Skip("vanishing tangential field")
                        if m.min() > 0.05:
                            J = lay.get_jones_field(lay.get_tangent_field(sim.harmonics, normalize=False))
                            out[f"Jones field: {L['name']}"] = np.array([tonp(c) for c in J])
                    out[f"tangential field: {nrm} {L['name']}"] = t
    out["harmonics"] = h[:, np.lexsort((h[1], h[0]))]
    R, T = [tonp(x) for x in sim.diffraction_efficiencies(orders=True)]
    out["R per order"], out["T per order"] = by_order(h, R), by_order(h, T)
    r, t = [tonp(x) for x in sim.diffraction_efficiencies(orders=True, complex=True)]
    out["complex r"], out["complex t"] = by_order(h, r), by_order(h, t)
    out["totals"] = np.array([float(tonp(x)) for x in sim.diffraction_efficiencies()])
    l = case["l"] % len(sc["layers"])
    z = case["z"] * sc["layers"][l]["h"]
    out["fields"] = by_order(h, tonp(sim.get_field_fourier(l, [z, 0.5 * z])))
    E, H = sim.get_field_grid(l, z, shape=tuple(sc["disc"]))
    out["E map"], out["H map"] = tonp(E), tonp(H)
    out["E map z"] = tonp(sim.get_Efield_grid(l, z, component="z"))
    out["permittivity"] = tonp(sim.get_epsilon(l))
    out["stress"] = np.array([float(tonp(x)) for x in sim.get_z_stress_tensor_integral(l, z)])
    # optimization helpers
    g = np.random.default_rng(case["s"])
    x = g.random((case["n"][0], case["n"][1]))
    xb = gen.to_backend(nn, x)
    out["filter"] = tonp(nn.utils.apply_filter(xb, case["rfilt"]))
    out["project"] = tonp(nn.optimize.project(xb, case["beta"], 0.4))
    out["multi_project"] = tonp(nn.optimize.multi_project(xb, case["beta"], 3))
    out["simp"] = tonp(nn.optimize.simp(xb, 1.0, 9.0, 2))
    out["multi_simp"] = tonp(nn.optimize.multi_simp(xb, [1.0, 2.5, 6.0], 1))
    from nannos.formulations import fft

    out["fft"] = tonp(fft.fourier_transform(gen.to_backend(nn, x + 0j)))
    out["ifft"] = tonp(fft.inverse_fourier_transform(gen.to_backend(nn, x + 0j)))
    pad = tuple(n + k for n, k in zip(case["n"], case["pad"]))
    out["padded fft"] = tonp(fft.fourier_transform(gen.to_backend(nn, x + 0j), s=pad))
    out["padded ifft"] = tonp(fft.inverse_fourier_transform(gen.to_backend(nn, x + 0j), s=pad))
    cube = np.stack([x + 0j, 2j * x], axis=case["axis"])
    ax = [a for a in range(3) if a != case["axis"]]
    out["fft axes"] = tonp(fft.fourier_transform(gen.to_backend(nn, cube), axes=ax))
    out["ifft axes"] = tonp(fft.inverse_fourier_transform(gen.to_backend(nn, cube), axes=ax))
    out["filter radii"] = tonp(nn.utils.apply_filter(xb, (case["rfilt"], 0.7 * case["rfilt"])))
    out["filter vectors"] = tonp(nn.utils.apply_filter(xb, 0.3 * case["rfilt"], vectors=((3.0, 0), (0, 2.0))))
    for f in ("ones", "zeros"):
        out[f] = tonp(getattr(lattice, f)())
    out["constant"] = tonp(lattice.constant(2.5 - 1j))
    S = sim.get_S_matrix()
    k = np.concatenate([np.lexsort((h[1], h[0])), h.shape[1] + np.lexsort((h[1], h[0]))])
    for i in range(2):
        for j in range(2):
            if all(not isinstance(L["eps"], dict) for L in (sc["layers"][0], sc["layers"][-1])):
                out[f"S{i}{j}"] = tonp(S[i][j])[k][:, k]
    F = [tonp(f) for f in sim.get_z_poynting_flux(sim.layers[0], sim.a0, S[1][0] @ sim.a0)]
    out["flux"] = np.array([by_order(h, f) for f in F])
    return out


SERVERS = {}


def server(b):
    from ..server import Server

    if b not in SERVERS:
        SERVERS[b] = Server(b)
        atexit.register(SERVERS[b].close)
    return SERVERS[b]


def run_with(b):
    def run(case):
        sc = case["scene"]
        gen.guard(gen.make_ref(dict(sc, form="original"), np.array(case_harm(case)).T), cond=1e5, qmin=5e-3)
        s = server(b)
        s.send(MOD, "compute", case)
        try:
            mine = ("ok", compute(case))
        except (Skip, Violation):
            s.recv()
            raise
        except Exception:
            s.recv()
            raise
        theirs = s.recv()
        if theirs is None:
            SERVERS.pop(b).close()
            raise Violation(f"the process with the {b} backend died")
        if theirs[0] == "skip":
            raise Skip(theirs[1])
        if theirs[0] == "harness":
            raise RuntimeError(theirs[1])
        if theirs[0] != "ok":
            raise Violation(f"{b} backend: {theirs[1]}")
        a, c = mine[1], theirs[1]
        require(set(a) == set(c), f"different outputs {set(a) ^ set(c)}")
        stats = {}
        form = sc["form"] != "original" and sc["lat"]["kind"] == "2d"
        for k in a:
            if k.startswith(("tangential", "Jones")):
                tol = 1e-7 if b != "torch" else 1e-3
            else:
                tol = (1e-6 if k.startswith("complex") else 1e-8) if not form else (1e-6 if b != "torch" else 3e-4)
            x, y = np.asarray(a[k]), np.asarray(c[k])
            require(x.shape == y.shape, f"{k}: shape {y.shape} with {b}, {x.shape} with numpy")
            if x.dtype == bool or y.dtype == bool:
                require(x.dtype == y.dtype and np.array_equal(x, y), f"{k}: mask differs with {b}")
                continue
            close(f"({b}) {k}", y, x, tol, scale=max(1.0, float(np.abs(x).max()) if x.size else 1.0), stats=stats)
        return dict(nontrivial=gen.has_pattern(sc) and a["harmonics"].shape[1] > 1, labels=gen.scene_labels(sc) + [b],
                    stats=stats, sample={"R, T": a["totals"].tolist()})

    return run


def case_harm(case):
    sc = case["scene"]
    if sc["harm"] is not None:
        return list(zip(*sc["harm"]))
    n = sc["nh"] if gen.has_pattern(sc) else 1
    return gen.ref_truncation(sc["lat"], max(n, 2), sc["trunc"])


@st.composite
def cases(draw, jax=False):
    kw = dict(nh=(1, 24), nh1d=(1, 31), inner=(1, 4), need_pattern=draw(st.integers(0, 4)) > 0)
    if jax:  # few shapes: each new one is compiled
        kw = dict(nh=(5, 6), nh1d=(5, 6), user_harm=False, inner=(1, 2), need_pattern=True)
    sc = draw(gen.scenes(forms=("original", "original", "tangent", "pol", "jones"), aniso=("diag", "herm", "symm", "gen"), **kw))
    if jax:
        sc["disc"] = [9, 1] if sc["lat"]["kind"] == "1d" else [9, 8]
    n = [8, 9] if jax else [draw(st.integers(4, 20)), draw(st.integers(4, 20))]
    return {"scene": sc, "tft": draw(st.sampled_from(["fft", "fft", "opt"])), "c": [draw(gen.fl(0, 1)), draw(gen.fl(0, 1))],
            "rot": draw(gen.fl(-180, 180)), "l": draw(st.integers(0, 9)), "z": draw(gen.fl(0, 1)), "s": draw(gen.seeds), "n": n,
            "rfilt": draw(gen.fl(0.5, 4)), "pad": [1, 2] if jax else [draw(st.integers(0, 4)), draw(st.integers(0, 4))],
            "axis": draw(st.integers(0, 2)), "beta": draw(gen.fl(0.5, 20)),
            "pts": [[draw(gen.fl(-2, 2)) for _ in range(3)] for _ in range(2)]}


def lanes():
    nb = [("numpy", 1.0)]
    out = [
        Lane("scipy", cases(), run_with("scipy"), 300, backends=nb, shards=1),
        Lane("autograd", cases(), run_with("autograd"), 300, backends=nb, shards=1),
        Lane("torch", cases(), run_with("torch"), 500, backends=nb, shards=2),
        Lane("jax", cases(jax=True), run_with("jax"), 48, backends=nb, shards=4),
    ]
    out[3].cost = 10
    return out
