"""C14: the set of retained harmonics."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..common import Lane, close, default_backends, import_nannos, require, tonp

nn = import_nannos()
RULE = (
    "A case is a lattice (any shape, handedness, scale), a truncation and a number of harmonics 1..700, asked "
    "directly and through a simulation.  Oracles: the documented set written independently in gen.py (complete "
    "shells by |G| / centred square block / centred 1D range), distinctness, (0,0), inversion symmetry, "
    "nesting in nh, covariance under rotation and scaling.  Non-trivial: more than one harmonic."
)
ASSUMPTIONS = ["circular truncation keeps complete shells only, with strictly fewer harmonics than requested (upstream behaviour)"]


@st.composite
def cases(draw):
    one_d = draw(st.integers(0, 4)) == 0
    lat = draw(gen.lattices_1d() if one_d else gen.lattices_2d(kinds=("square", "rect", "hex", "oblique", "general", "general")))
    s = 10 ** draw(gen.fl(-3, 3)) if draw(st.booleans()) else 1.0
    if one_d:
        lat["a"] *= s
    else:
        lat["v"] = [[float(c * s) for c in v] for v in lat["v"]]
        if draw(st.integers(0, 2)) == 0:  # stronger aspect ratios
            f = draw(gen.fl(0.15, 6))
            lat["v"][1] = [c * f for c in lat["v"][1]]
        if draw(st.integers(0, 3)) == 3:  # slightly off a symmetric lattice: shells that are close but distinct
            e = 10 ** draw(gen.fl(-6.5, -2))
            lat["v"][1] = [lat["v"][1][0] * (1 + e), lat["v"][1][1] * (1 + 2 * e)]
    return {
        "lat": lat, "trunc": draw(st.sampled_from(["circular", "circular", "parallelogrammic"])),
        "nh": draw(st.one_of(st.integers(2, 60), st.integers(2, 700))), "rot": draw(gen.fl(0, 6.3)),
        "sort": draw(st.booleans()), "nh2": draw(st.integers(2, 700)),
    }


def get(lat, trunc, nh, sort=False):
    bv = lat["a"] if lat["kind"] == "1d" else tuple(tuple(v) for v in lat["v"])
    G, n = nn.Lattice(bv, discretization=8, truncation=trunc).get_harmonics(nh, sort=sort)
    G = tonp(G)
    require(np.all(G == np.round(G)), "harmonics are not integers")
    require(G.ndim == 2 and G.shape[0] == 2, f"harmonics have shape {G.shape}")
    require(G.shape[1] == int(n), f"{int(n)} harmonics announced, {G.shape[1]} returned")
    return [tuple(int(v) for v in p) for p in G.T]


def ambiguous(lat, nh):
    """near ties that are not exact symmetry shells"""
    K = gen.recip(lat)
    m = 40
    ij = np.array([(i, j) for i in range(-m, m + 1) for j in range(-m, m + 1)])
    g2 = np.sort(np.sum((K @ ij.T) ** 2, axis=0))[: nh + 2]
    d = np.diff(g2) / max(np.sum(K**2, axis=0))
    return bool(np.any((d > 1e-13) & (d < 1e-7)))


def run(case):
    lat, trunc, nh = case["lat"], case["trunc"], case["nh"]
    one_d = lat["kind"] == "1d"
    G = get(lat, trunc, nh, case["sort"])
    require(len(set(G)) == len(G), "repeated harmonics")
    require((0, 0) in G, "(0, 0) is missing")
    require(len(G) <= max(nh, 1), f"{len(G)} harmonics for nh={nh}")
    require({(-a, -b) for a, b in G} == set(G), "not symmetric under inversion")
    tie = not one_d and trunc == "circular" and ambiguous(lat, nh)
    if not tie:
        want = set(gen.ref_truncation(lat, nh, trunc))
        require(set(G) == want, f"{len(G)} harmonics, the rule gives {len(want)}; only one side has {sorted(set(G) ^ want)[:6]}")
    if not one_d and trunc == "circular":
        K = gen.recip(lat)
        g = np.linalg.norm(K @ np.array(G).T, axis=0)
        m, gs = int(np.abs(np.array(G)).max()) + 2, set(G)
        rest = [(a, b) for a in range(-m, m + 1) for b in range(-m, m + 1) if (a, b) not in gs]
        gr = np.linalg.norm(K @ np.array(rest).T, axis=0)
        require(g.max() <= gr.min() * (1 + 1e-6), "a left-out harmonic is shorter than a retained one")
    if one_d:
        n = (len(G) - 1) // 2
        require(set(G) == {(i, 0) for i in range(-n, n + 1)} and n == (nh - 1) // 2, "1D harmonics")
    # larger nh never loses harmonics
    nh2 = case["nh2"]
    G2 = set(get(lat, trunc, nh2))
    if not (tie or (not one_d and trunc == "circular" and ambiguous(lat, nh2))):
        a, b = (set(G), G2) if nh <= nh2 else (G2, set(G))
        require(a <= b, f"nh={min(nh, nh2)} keeps harmonics that nh={max(nh, nh2)} drops")
    if not one_d and not tie:
        al = case["rot"]
        M = np.array([[np.cos(al), -np.sin(al)], [np.sin(al), np.cos(al)]])
        rl = {"kind": "2d", "v": (np.array(lat["v"]) @ M.T * 3.7).tolist()}
        require(set(get(rl, trunc, nh)) == set(G), "set changes under rotation and scaling")
    labs = [lat["kind"], trunc if not one_d else "1d", "near ties" if tie else "no near tie"]
    return dict(nontrivial=len(G) > 1, labels=labs, sample={"nh": nh, "kept": len(G)})


def run_sim(case):
    """through a simulation: same set, wavevectors of the orders, user harmonics respected"""
    sc = case["scene"]
    sim = gen.make_sim(nn, sc)
    H = [tuple(int(v) for v in p) for p in tonp(sim.harmonics).T]
    require(int(sim.nh) == len(H), "nh is not the number of harmonics")
    if sc["harm"] is not None:
        require(sorted(H) == sorted(zip(*sc["harm"])), "user harmonics not respected")
    elif gen.has_pattern(sc):
        require(set(H) == set(gen.ref_truncation(sc["lat"], sc["nh"], sc["trunc"])), "harmonics of the simulation")
    else:
        require(H == [(0, 0)], "uniform stacks keep the specular order only")
    K = gen.recip(sc["lat"])
    th, ph = np.deg2rad(sc["ang"][:2])
    k0 = 2 * np.pi / sc["wl"] * np.sqrt(sc["layers"][0]["eps"][0]) * np.sin(th)
    k = k0 * np.array([[np.cos(ph)], [np.sin(ph)]]) + K @ np.array(H, float).T
    s = 2 * np.pi / sc["wl"]
    stats = {}
    close("kx of the orders", tonp(sim.kx) / s, k[0] / s, 1e-10, stats=stats)
    close("ky of the orders", tonp(sim.ky) / s, k[1] / s, 1e-10, stats=stats)
    for q, p in enumerate(H):
        require(int(sim.get_order_index(p)) == q, f"index of order {p}")
    return dict(nontrivial=len(H) > 1, labels=gen.scene_labels(sc), stats=stats, sample={"harmonics": H[:6]})


def lanes():
    bk = default_backends()
    return [
        Lane("rule", cases(), run, 2500, backends=bk),
        Lane("simulation", st.fixed_dictionaries({"scene": gen.scenes(inner=(0, 2), nh=(1, 60), nh1d=(1, 61))}), run_sim, 700, backends=bk),
    ]
