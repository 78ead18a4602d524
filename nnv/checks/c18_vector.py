"""C18: vector-field formulations use the factorization rule of their field."""
import copy

import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..common import Lane, Skip, close, default_backends, import_nannos, require, tonp, want_shape

nn = import_nannos()
RULE = (
    "A case is a 2D grating problem solved with 'tangent', 'pol' or 'jones'.  Lane user: a given tangential field "
    "per layer (constant, rotating, random smooth; any magnitude); lane auto: the field the library builds; "
    "oracle: the reference solver with the projection rule written from the definition (direct product rule along "
    "the field, inverse rule across it).  Lane stripes: gratings invariant along one direction, whatever the "
    "formulation, against the one-dimensional inverse rule.  Non-trivial: a patterned layer, several harmonics."
)
ASSUMPTIONS = [
    "nnv/ref.py is right",
    "isotropic layers; fields larger than 0.1 everywhere in lane user (the orientation of a vanishing field is undefined)",
]


def jones(t):
    """Complex (elliptic) field of a real one, from the definition."""
    m = np.hypot(t[0], t[1])
    ph = np.pi / 8 * (1 + np.cos(np.pi * m))
    a = np.arctan2(t[1], t[0])
    n = (-t[1], t[0])
    return [np.exp(-1j * a) / m * (t[i] * np.cos(ph) - 1j * n[i] * np.sin(ph)) for i in range(2)]


FIELD = st.fixed_dictionaries({"k": st.sampled_from(["const", "smooth", "vortex"]), "s": gen.seeds, "m": gen.fl(0.7, 2.5)})


def make_t(p, shape):
    x = (np.arange(shape[0])[:, None] / shape[0]) * np.ones(shape)
    y = (np.arange(shape[1])[None, :] / shape[1]) * np.ones(shape)
    r = np.random.default_rng(p["s"])
    if p["k"] == "const":
        a = 2 * np.pi * r.random() * np.ones(shape)
        m = p["m"] * np.ones(shape)
    else:
        a, m = np.zeros(shape), np.zeros(shape)
        for i in range(3):
            for j in range(3):
                a += r.normal() * np.cos(2 * np.pi * (i * x + j * y) + 6.3 * r.random())
                m += r.normal() * np.cos(2 * np.pi * (i * x + j * y) + 6.3 * r.random())
        if p["k"] == "vortex":
            a = a * 0.2 + 2 * np.pi * (x + y)
        m = p["m"] * (0.15 + 0.85 * (m - m.min()) / (np.ptp(m) or 1))
    return [m * np.cos(a), m * np.sin(a)]


def vector_sim(sc, fields):
    """simulation with the given tangential fields, and its reference"""
    shape = tuple(sc["disc"])
    two_d = sc["lat"]["kind"] != "1d" and sc["form"] != "original"
    eps = [gen.eps_of(L["eps"], shape) for L in sc["layers"]]
    for e in eps:
        if sc["form"] != "original" and np.ndim(e) == 4 and np.min(abs(e[0, 0] * e[1, 1] - e[0, 1] * e[1, 0])) < 0.05:
            raise Skip("singular in-plane block")
    ts = [make_t(p, shape) if np.ndim(e) and two_d else None for e, p in zip(eps, fields)]
    lattice, layers = build(sc, ts)
    sim = gen.make_sim(nn, sc, lattice, layers)
    want = [None if t is None else (jones(t) if sc["form"] == "jones" else t) for t in ts]
    rules = ["laurent" if np.ndim(e) == 0 or sc["form"] == "original" else "vector" if two_d else "li_x" for e in eps]
    return sim, lambda harm: gen.make_ref(sc, harm, rules=rules, tangents=want)


def compare(sc, sim, ts, tol, stats):
    harm = gen.harmonics_of(sim)
    rules = ["vector" if isinstance(L["eps"], dict) else "laurent" for L in sc["layers"]]
    ref = gen.guard(gen.make_ref(sc, harm, rules=rules, tangents=ts), cond=1e5)
    R, T = sim.diffraction_efficiencies(orders=True)
    Rr, Tr = ref.efficiencies()
    close("R per order", R, Rr, tol, stats=stats)
    close("T per order", T, Tr, tol, stats=stats)
    for l in range(len(sc["layers"])):
        z = 0.4 * sc["layers"][l]["h"]
        F = tonp(sim.get_field_fourier(l, z))[0]
        close("fields", F, ref.fields(l, z), tol * 30, scale=max(1.0, np.abs(ref.fields(l, z)).max()))
    return harm, ref


def build(sc, ts, arrays=True):
    lattice = gen.make_lattice(nn, sc)
    layers = []
    for L, t in zip(sc["layers"], ts):
        kw = {}
        if t is not None:
            kw["tangent_field"] = [gen.to_backend(nn, c) for c in t]
        layers.append(gen.make_layer(nn, lattice, sc, L, **kw))
    return lattice, layers


def run_user(case):
    sc = case["scene"]
    shape = tuple(sc["disc"])
    ts = [make_t(p, shape) if isinstance(L["eps"], dict) else None for L, p in zip(sc["layers"], case["t"])]
    lattice, layers = build(sc, ts)
    twin = case["twin"]
    if twin and "copy of L1" not in [L["name"] for L in sc["layers"]]:  # a copy of a patterned layer, with a field of its own
        sc = dict(sc, layers=list(sc["layers"]))
        sc["layers"].insert(twin["at"], dict(sc["layers"][1], name="copy of L1"))
        cp = layers[1].copy("copy of L1")
        t2 = make_t(twin["t"], shape)
        cp.tangent_field = [gen.to_backend(nn, c) for c in t2]
        layers.insert(twin["at"], cp)
        ts = ts[: twin["at"]] + [t2] + ts[twin["at"] :]
    sim = gen.make_sim(nn, sc, lattice, layers)
    stats = {}
    tol = 1e-7 if nn.get_backend() != "torch" else 1e-6
    want = [None if t is None else (jones(t) if sc["form"] == "jones" else t) for t in ts]
    harm, ref = compare(sc, sim, want, tol, stats)
    if sc["form"] != "jones":  # neither the magnitude nor the sign of the field matters
        g = case["gain"]
        other = dict(sc, form="pol" if sc["form"] == "tangent" else "tangent")
        lattice, layers = build(sc, [None if t is None else [c * g for c in t] for t in ts])
        s2 = gen.make_sim(nn, other, lattice, layers)
        for nm, a, b in zip("RT", s2.diffraction_efficiencies(orders=True), sim.diffraction_efficiencies(orders=True)):
            close(f"{nm} for a rescaled field", a, tonp(b), tol)
    return dict(nontrivial=gen.has_pattern(sc) and harm.shape[1] > 1, labels=gen.scene_labels(sc) + (["copy"] if twin else []), stats=stats,
                sample={"R": float(np.sum(tonp(sim.diffraction_efficiencies(orders=True)[0])))})


def run_auto(case):
    sc, typ = case["scene"], case["type"]
    lattice = gen.make_lattice(nn, sc)
    layers = [gen.make_layer(nn, lattice, sc, L, tangent_field_type=typ) for L in sc["layers"]]
    sim = gen.make_sim(nn, sc, lattice, layers)
    ts, used = [], {}
    if typ == "opt":  # this field depends on a set of harmonics the library chooses: watch it
        for lay in layers:
            lay.get_tangent_field = (lambda f, n: lambda *a, **k: used.setdefault(n, f(*a, **k)))(lay.get_tangent_field, lay.name)
        sim.solve()
    for L, lay in zip(sc["layers"], layers):
        if not isinstance(L["eps"], dict):
            ts.append(None)
            continue
        if typ == "opt" and used.get(lay.name) is None:
            raise Skip("tangential field not observed")
        t = used[lay.name] if typ == "opt" else lay.get_tangent_field(sim.harmonics, normalize=sc["form"] == "tangent")
        t = [tonp(c).astype(complex) for c in t]
        for c in t:
            require(c.shape == tuple(sc["disc"]), f"tangential field of shape {c.shape}")
        m = np.sqrt(abs(t[0]) ** 2 + abs(t[1]) ** 2)
        if m.min() < 1e-4:
            raise Skip("vanishing tangential field")
        if sc["form"] == "jones":
            t = jones([c.real for c in t])
        ts.append(t)
    stats = {}
    tol = 1e-6 if nn.get_backend() != "torch" else 2e-5
    harm, ref = compare(sc, sim, ts, tol, stats)
    return dict(nontrivial=gen.has_pattern(sc) and harm.shape[1] > 1, labels=gen.scene_labels(sc) + ["type=" + typ], stats=stats,
                sample={"R": float(np.sum(ref.efficiencies()[0]))})


def run_stripes(case):
    """profile depending on one coordinate only (orthogonal lattices)."""
    sc = copy.deepcopy(case["scene"])
    axis = case["axis"]
    shape = tuple(sc["disc"])
    n = shape[axis]
    r = np.random.default_rng(case["s"])
    prof = np.where(np.arange(n) < max(1, min(n - 1, int(round(case["f"] * n)))), 1.0, 0.0)
    prof = np.roll(prof, case["shift"])
    e1, e2 = complex(*case["e1"]), complex(*case["e2"])
    if case["lossonly"]:
        e2 = e1 + 1j * abs(e2)
    p = e1 + (e2 - e1) * prof
    full = (p[:, None] if axis == 0 else p[None, :]) * np.ones(shape)
    rules, ts = [], []
    for L in sc["layers"]:
        if isinstance(L["eps"], dict):
            L["eps"] = {"t": "array", "re": full.real.ravel().tolist(), "im": full.imag.ravel().tolist()}
            rules.append("li_x" if axis == 0 else "li_y")
            ts.append([(1 - case["axis"]) * 0 + (1.0 if axis == 1 else 0.0) * np.ones(shape), (1.0 if axis == 0 else 0.0) * np.ones(shape)])
        else:
            rules.append("laurent")
            ts.append(None)
    if case["user"]:
        lattice, layers = build(sc, ts)
    else:
        lattice = gen.make_lattice(nn, sc)
        layers = [gen.make_layer(nn, lattice, sc, L, tangent_field_type="fft") for L in sc["layers"]]
    sim = gen.make_sim(nn, sc, lattice, layers)
    harm = gen.harmonics_of(sim)
    if not case["user"]:
        for L, lay in zip(sc["layers"], layers):
            if isinstance(L["eps"], dict):
                t = [tonp(c) for c in lay.get_tangent_field(sim.harmonics, normalize=False)]
                require(e1 == e2 or np.hypot(t[0].real, t[1].real).max() > 0.5, "a striped layer has no tangential field")
                if np.hypot(t[0].real, t[1].real).min() < 1e-4:
                    raise Skip("vanishing tangential field")
    if sc["form"] == "jones":
        if not case["user"]:
            raise Skip("jones field of a striped layer is elliptic between the interfaces")
        # |t| = 1: linear polarization, so that the one-dimensional rule holds
    ref = gen.guard(gen.make_ref(sc, harm, rules=rules), cond=1e5)
    stats = {}
    tol = 1e-6 if nn.get_backend() != "torch" else 2e-5
    R, T = sim.diffraction_efficiencies(orders=True)
    Rr, Tr = ref.efficiencies()
    close("R per order", R, Rr, tol, stats=stats)
    close("T per order", T, Tr, tol, stats=stats)
    # one-dimensional grating
    if axis == 0 and case["one_d"] and sc["lat"]["v"][1][0] == 0 and sc["harm"] is None:
        m = int(np.max(harm[0]))
        sel = [k for k in range(harm.shape[1]) if harm[1, k] == 0]
        keep = sorted(int(harm[0, k]) for k in sel)
        if keep == list(range(-m, m + 1)):
            s1 = copy.deepcopy(sc)
            s1.update(lat={"kind": "1d", "a": sc["lat"]["v"][0][0]}, form="tangent", nh=2 * m + 1, disc=[shape[0], 1])
            for L in s1["layers"]:
                if isinstance(L["eps"], dict):
                    L["eps"] = {"t": "array", "re": p.real.tolist(), "im": p.imag.tolist()}
            if m == 0:
                return dict(nontrivial=False)
            sim1 = gen.make_sim(nn, s1)
            h1 = gen.harmonics_of(sim1)
            for nm, a, b in zip("RT", sim1.diffraction_efficiencies(orders=True), (R, T)):
                a, b = tonp(a), tonp(b)
                for k in sel:
                    j = [i for i in range(h1.shape[1]) if h1[0, i] == harm[0, k]][0]
                    close(f"{nm} of the same grating in 1D", a[j], b[k], tol)
    return dict(nontrivial=harm.shape[1] > 1, labels=gen.scene_labels(sc) + ["axis=%d" % axis, "user" if case["user"] else "auto"],
                stats=stats, sample={"R": float(Rr.sum())})


@st.composite
def user_cases(draw):
    sc = draw(gen.scenes(lat=draw(gen.lattices_2d()), inner=(1, 3), need_pattern=True, nh=(3, 20),
                         forms=("tangent", "pol", "jones")))
    t = [draw(FIELD) for _ in sc["layers"]]
    twin = None
    if draw(st.integers(0, 4)) == 4:
        twin = {"at": draw(st.integers(1, 2)), "t": {"k": draw(st.sampled_from(["const", "smooth", "vortex"])), "s": draw(gen.seeds), "m": 1.0}}
    return {"scene": sc, "t": t, "twin": twin, "gain": draw(st.sampled_from([-1.0, 0.3, 7.0, -2.5]))}


@st.composite
def auto_cases(draw):
    typ = draw(st.sampled_from(["fft", "fft", "opt"]))
    sc = draw(gen.scenes(lat=draw(gen.lattices_2d()), inner=(1, 2), need_pattern=True, nh=(3, 16 if typ == "fft" else 10),
                         forms=("tangent", "pol", "jones"), metal=False))
    return {"scene": sc, "type": typ}


@st.composite
def stripe_cases(draw):
    sc = draw(gen.scenes(lat=draw(gen.lattices_2d(kinds=("square", "rect"))), inner=(1, 2), need_pattern=True, nh=(3, 25),
                         forms=("tangent", "pol", "jones"), user_harm=False))
    return {"scene": sc, "axis": draw(st.integers(0, 1)), "s": draw(gen.seeds), "f": draw(gen.fl(0.15, 0.85)), "shift": draw(st.integers(0, 12)),
            "e1": draw(gen.scalars()), "e2": draw(gen.scalars(metal=False)), "user": draw(st.booleans()), "one_d": draw(st.booleans()),
            "lossonly": draw(st.integers(0, 4)) == 4}


def lanes():
    bk = default_backends()
    return [
        Lane("user", user_cases(), run_user, 700, backends=bk),
        Lane("auto", auto_cases(), run_auto, 300, backends=bk),
        Lane("stripes", stripe_cases(), run_stripes, 500, backends=bk),
    ]
