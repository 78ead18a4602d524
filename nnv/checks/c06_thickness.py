"""C06: any layer thickness, from zero to huge, gives finite and right results."""
import copy

import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..common import Lane, Skip, close, default_backends, import_nannos, require, tonp

nn = import_nannos()
RULE = (
    "A case is a stack of 3-6 layers whose thicknesses are drawn log-uniformly from 1e-9 to 1e6 periods (and "
    "0); lanes: thick (finite, passive, R+T=1 when lossless, reference solver up to 300 periods, fields "
    "finite), opaque (what lies behind a thick absorbing layer cannot be seen; equals the semi-infinite "
    "layer), thin (a layer of thickness tending to zero is no layer).  Non-trivial: a patterned layer, or an "
    "evanescent harmonic whose attenuation across some layer is below 1e-12."
)
ASSUMPTIONS = ["tolerances grow with (largest wavenumber x thickness) x rounding error"]

logthick = st.integers(-90, 60).map(lambda k: round(10 ** (k / 10), 12))


def attenuation(ref):
    return max(float(np.max(L.q.imag * L.h)) for L in ref.layers)


def run_thick(sc):
    sim = gen.make_sim(nn, sc)
    harm = gen.harmonics_of(sim)
    ref = gen.guard(gen.make_ref(sc, harm), qmin=5e-3)
    phase = sum(float(np.max(np.abs(L.q))) * L.h for L in ref.layers[1:-1])
    tol = 1e-7 + 2e-14 * phase * 30
    R, T = [tonp(x) for x in sim.diffraction_efficiencies(orders=True)]
    require(np.all(np.isfinite(R)) and np.all(np.isfinite(T)), "non-finite efficiencies")
    stats = {}
    lossless = all(
        (L["eps"].get("im", 0) == 0 and L["eps"].get("e1", [1, 0])[1] == 0 and L["eps"].get("e2", [1, 0])[1] == 0)
        if isinstance(L["eps"], dict) else L["eps"][1] == 0
        for L in sc["layers"]
    )
    if lossless:
        close("R + T", R.sum() + T.sum(), 1.0, 1e-6 + 1e-13 * phase, stats=stats)
    else:
        require(R.sum() + T.sum() <= 1 + 1e-6 + 1e-13 * phase, f"R + T = {R.sum() + T.sum()}")
    if phase < 3e4:
        Rr, Tr = ref.efficiencies()
        close("R per order", R, Rr, tol, stats=stats)
        close("T per order", T, Tr, tol, stats=stats)
    for i, L in enumerate(sc["layers"]):
        if 0 < i < len(sc["layers"]) - 1:
            zs = [0.0, 0.5 * L["h"], L["h"]]
            F = tonp(sim.get_field_fourier(i, zs))
            require(np.all(np.isfinite(F)), f"non-finite fields in layer {i} of thickness {L['h']}")
            if phase < 3e4:
                for k, z in enumerate(zs):
                    want = ref.fields(i, z)
                    close("fields", F[k], want, 10 * tol, scale=max(1.0, np.abs(want).max()), stats=stats)
    att = attenuation(ref)
    return dict(nontrivial=gen.has_pattern(sc) or att > 27, stats=stats,
                labels=gen.scene_labels(sc) + ["attenuation>1e-12" if att < 27 else "attenuation>1e-300" if att < 690 else "underflow"],
                sample={"R": float(R.sum()), "T": float(T.sum()), "thickness": [L["h"] for L in sc["layers"]]})


def run_opaque(case):
    sc = case["scene"]
    sc1 = copy.deepcopy(sc)
    L = sc1["layers"][1]
    L["h"] = case["h"]
    sim1 = gen.make_sim(nn, sc1)
    harm = gen.harmonics_of(sim1)
    ref = gen.guard(gen.make_ref(sc1, harm))
    if np.min(ref.layers[1].q.imag) * L["h"] < 20:
        raise Skip("layer not opaque")
    R1, T1 = [tonp(x) for x in sim1.diffraction_efficiencies(orders=True)]
    stats = {}
    require(np.all(np.isfinite(R1)) and np.all(np.isfinite(T1)), "non-finite efficiencies")
    close("T behind an opaque layer", T1, 0 * T1, 1e-9, stats=stats)
    # anything may be behind
    sc2 = copy.deepcopy(sc1)
    sc2["layers"] = sc2["layers"][:2] + case["behind"] + [case["end"]]
    sim2 = gen.make_sim(nn, sc2)
    h2 = gen.harmonics_of(sim2)
    if h2.shape != harm.shape:
        return dict(nontrivial=False, labels=["harmonics differ"])
    gen.guard(gen.make_ref(sc2, h2))
    R2 = tonp(sim2.diffraction_efficiencies(orders=True)[0])
    close("R in front of an opaque layer", R2, R1, 1e-8, stats=stats)
    if not isinstance(L["eps"], dict):
        sc3 = copy.deepcopy(sc)
        sc3["layers"] = [sc1["layers"][0], dict(L, h=0.0)]
        sc3["harm"] = harm.tolist()
        sim3 = gen.make_sim(nn, sc3)
        R3 = tonp(sim3.diffraction_efficiencies()[0])
        close("R of the semi-infinite medium", R3, R1.sum(), 1e-8, stats=stats)
    return dict(nontrivial=True, labels=gen.scene_labels(sc1) + ["uniform" if not isinstance(L["eps"], dict) else "patterned"],
                stats=stats, sample={"R": float(R1.sum()), "h": L["h"]})


@st.composite
def opaque(draw):
    sc = draw(gen.scenes(inner=(1, 2), outer_thickness=False))
    L = sc["layers"][1]
    if isinstance(L["eps"], dict):
        L["eps"] = {"t": "two", "s": draw(gen.seeds), "e1": [draw(gen.fl(-9, 6)), draw(gen.fl(0.5, 3))],
                    "e2": [draw(gen.fl(1, 6)), draw(gen.fl(0.3, 2))]}
    else:
        L["eps"] = [draw(gen.fl(-12, 6)), draw(gen.fl(0.3, 3))]
    behind = []
    for i in range(draw(st.integers(0, 2))):
        behind.append({"name": f"behind {i}", "h": draw(gen.thicknesses), "eps": draw(gen.scalars())})
    end = {"name": "the end", "h": 0.0, "eps": draw(gen.scalars())}
    return {"scene": sc, "h": draw(st.integers(10, 60)).map(lambda k: k) if False else round(10 ** draw(gen.fl(1, 6)), 6),
            "behind": behind, "end": end}


def run_thin(case):
    sc = case["scene"]
    stats = {}
    res = []
    for h in (0.0, case["h"], None):
        s = copy.deepcopy(sc)
        if h is None:
            s["layers"] = [L for k, L in enumerate(s["layers"]) if k != 1]
        else:
            s["layers"][1]["h"] = h
        sim = gen.make_sim(nn, s)
        harm = gen.harmonics_of(sim)
        if h == 0.0:
            h0 = harm
        if harm.shape == h0.shape or not gen.has_pattern(s):
            gen.guard(gen.make_ref(s, harm), cond=1e5, qmin=1e-2)
        R, T = [tonp(x) for x in sim.diffraction_efficiencies(orders=True)]
        i0 = [k for k in range(harm.shape[1]) if tuple(harm[:, k]) == (0, 0)][0]
        res.append((R[i0], T[i0], R.sum(), T.sum()))
    close("thin layer against zero thickness", res[1], res[0], 1e-6 + 3e3 * case["h"], stats=stats)
    close("zero thickness against no layer", res[2], res[0], 1e-7, stats=stats)
    return dict(nontrivial=gen.has_pattern(sc), labels=gen.scene_labels(sc), stats=stats,
                sample={"h": case["h"], "RT": [float(x) for x in res[1]]})


def lanes():
    bk = default_backends()
    thin = st.fixed_dictionaries({
        "scene": gen.scenes(inner=(1, 3), outer_thickness=False),
        "h": st.sampled_from([1e-13, 1e-12, 1e-11, 1e-10]),
    })
    return [
        Lane("thick", gen.scenes(inner=(1, 4), thick=logthick), run_thick, 700, backends=bk),
        Lane("thick-lossless", gen.scenes(inner=(1, 4), thick=logthick, lossless=True), run_thick, 700, backends=bk),
        Lane("opaque", opaque(), run_opaque, 400, backends=bk),
        Lane("thin", thin, run_thin, 400, backends=bk),
    ]
