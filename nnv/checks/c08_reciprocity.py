"""C08: Lorentz reciprocity between any two diffraction channels."""
import copy

import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..common import Lane, Skip, close, default_backends, import_nannos, require, tonp

nn = import_nannos()
RULE = (
    "A case is a stack of reciprocal (scalar or symmetric tensors, possibly lossy) layers, an incidence and one propagating "
    "reflected or transmitted order; the time-reversed channel is solved with the stack reversed (for "
    "transmission), the incidence along minus the outgoing wavevector and the correspondingly shifted user "
    "harmonics.  Oracle: equality of the 2x2 moduli of the s/p amplitudes (transposed).  Non-trivial: "
    "patterned layer, more than one harmonic."
)


def jones(sc, order, side):
    """2x2 power matrix M[out][in], out/in in (s, p), of the given order; None if evanescent"""
    M = np.zeros((2, 2))
    for c, psi in enumerate((90.0, 0.0)):
        s2 = dict(sc, ang=[sc["ang"][0], sc["ang"][1], psi])
        sim = gen.make_sim(nn, s2)
        harm = gen.harmonics_of(sim)
        i = [k for k in range(harm.shape[1]) if tuple(harm[:, k]) == order][0]
        amp = tonp(sim.diffraction_efficiencies(orders=True, complex=True)[side])[:, i]
        tot = tonp(sim.diffraction_efficiencies(orders=True)[side])[i]
        K = gen.recip(sc["lat"])
        th, ph = np.deg2rad(sc["ang"][:2])
        n0 = np.sqrt(sc["layers"][0]["eps"][0])
        k = 2 * np.pi / sc["wl"] * n0 * np.sin(th) * np.array([np.cos(ph), np.sin(ph)]) + K @ np.array(order)
        kt = np.hypot(*k)
        u = k / kt if kt > 1e-9 else np.array([np.cos(ph), np.sin(ph)])
        if kt <= 1e-9 and order != (0, 0):
            raise Skip("azimuth of the outgoing wave undefined")
        ps = abs(-u[1] * amp[0] + u[0] * amp[1]) ** 2
        M[0, c], M[1, c] = ps, tot - ps
    return M


def run(case):
    sc = copy.deepcopy(case["scene"])
    for i in (0, -1):
        sc["layers"][i]["h"] = 0.0
    sim = gen.make_sim(nn, sc)
    harm = gen.harmonics_of(sim)
    ref = gen.guard(gen.make_ref(sc, harm), qmin=2e-2)
    side = case["side"]
    n = [np.sqrt(L["eps"][0]) for L in (sc["layers"][0], sc["layers"][-1])]
    nout = n[side]
    K = gen.recip(sc["lat"])
    kx, ky = ref.kx.real, ref.ky.real
    kt = np.hypot(kx, ky)
    prop = [k for k in range(harm.shape[1]) if kt[k] < 0.995 * ref.w * nout and (kt[k] > 1e-3 * ref.w or tuple(harm[:, k]) == (0, 0))]
    if not prop:
        raise Skip("no propagating order")
    o = prop[case["k"] % len(prop)]
    order = tuple(int(x) for x in harm[:, o])
    kout = np.array([kx[o], ky[o]])
    k0 = np.hypot(*kout) / (ref.w * nout)
    if order == (0, 0):
        ph = sc["ang"][1] + 180 if sc["ang"][0] >= 0 else sc["ang"][1]
        th = np.rad2deg(np.arcsin(k0))
    else:
        th, ph = np.rad2deg(np.arcsin(k0)), np.rad2deg(np.arctan2(-kout[1], -kout[0]))
    back = copy.deepcopy(sc)
    back["ang"] = [float(th), float(ph), 0.0]
    sh = np.array(order)[:, None] - harm
    back["harm"] = [[int(x) for x in sh[0]], [int(x) for x in sh[1]]]
    m = 2 * np.abs(sh).max()
    if sc["disc"][0] <= m or (sc["lat"]["kind"] == "2d" and sc["disc"][1] <= m):
        raise Skip("shifted harmonics exceed the discretization")
    if side == 1:
        back["layers"] = back["layers"][::-1]
    gen.guard(gen.make_ref(back, np.array(back["harm"])), qmin=2e-2)
    A, B = jones(sc, order, side), jones(back, order, side)
    stats = {}
    close(("reflection", "transmission")[side] + " between two channels: order %s" % (order,), B.T, A, 1e-7, stats=stats)
    return dict(nontrivial=gen.has_pattern(sc) and harm.shape[1] > 1, stats=stats,
                labels=gen.scene_labels(sc) + ["RT"[side], "specular" if order == (0, 0) else "diffracted"],
                sample={"order": order, "powers": A.ravel().tolist()})


@st.composite
def cases(draw):
    one_d = draw(st.integers(0, 2)) == 0
    sc = draw(gen.scenes(inner=(1, 4), forms=("original", "tangent"), need_pattern=True, one_d=one_d, nh=(4, 16), nh1d=(3, 15), wl=(0.35, 1.6),
                         aniso=("diag", "symm")))
    if not one_d or any(isinstance(L["eps"], dict) and L["eps"]["t"] == "aniso" for L in sc["layers"]):
        sc["form"] = "original"
    sc["layers"][-1]["eps"] = [draw(gen.fl(1, 5)), 0.0]
    m = draw(st.integers(0, 4))
    sc["disc"] = [sc["disc"][0] + m, sc["disc"][1] + (m if not one_d else 0)]
    return {"scene": sc, "side": draw(st.sampled_from([0, 1])), "k": draw(st.integers(0, 400))}


def lanes():
    return [Lane("channels", cases(), run, 1200, backends=default_backends())]
