"""C09: the response is linear in the polarization of the incident wave."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..common import Lane, close, default_backends, import_nannos, require, tonp

nn = import_nannos()
RULE = (
    "A case is a grating problem (any formulation) and polarization angles; the p (0 degrees) and s (90 degrees) "
    "solutions must predict, at any other angle, the complex amplitudes and field coefficients (linear "
    "combination) and the efficiencies (quadratic form).  Non-trivial: patterned layer, angle not a multiple of 90."
)


def run(case):
    sc = case["scene"]

    def solve(psi):
        s = dict(sc, ang=[sc["ang"][0], sc["ang"][1], psi])
        sim = gen.make_sim(nn, s, layer_kw={"tangent_field_type": case["tft"]})
        harm = gen.harmonics_of(sim)
        if psi == 0.0:
            gen.guard(gen.make_ref(dict(s, form="original"), harm), cond=1e5)
        R, T = [tonp(x) for x in sim.diffraction_efficiencies(orders=True)]
        r, t = [tonp(x) for x in sim.diffraction_efficiencies(orders=True, complex=True)]
        l = case["l"] % len(sc["layers"])
        F = tonp(sim.get_field_fourier(l, case["z"] * sc["layers"][l]["h"]))
        S = np.array([fnum(x) for x in sim.get_z_stress_tensor_integral(l, case["z"] * sc["layers"][l]["h"])]) if sc["form"] == "original" else None
        return harm, R, T, r, t, F, S

    psi = case["psi"]
    hp, Rp, Tp, rp, tp, Fp, _ = solve(0.0)
    hs, Rs, Ts, rs, ts, Fs, _ = solve(90.0)
    hd, Rd, Td, rd, td, Fd, Sd = solve(45.0)
    h, R, T, r, t, F, S = solve(psi)
    c, s = np.cos(np.deg2rad(psi)), np.sin(np.deg2rad(psi))
    stats = {}
    scale = max(1.0, np.abs(Fp).max(), np.abs(Fs).max())
    tol = 1e-8 if sc["form"] == "original" else 1e-6
    if scale > 1e4:
        tol *= 100
    close("complex r", r, c * rp + s * rs, tol, stats=stats)
    close("complex t", t, c * tp + s * ts, tol, stats=stats)
    close("fields", F, c * Fp + s * Fs, tol, scale=scale, stats=stats)
    for nm, q, qp, qs, qd in (("R", R, Rp, Rs, Rd), ("T", T, Tp, Ts, Td)):
        cross = 2 * qd - qp - qs
        close(f"{nm} per order", q, c * c * qp + s * s * qs + c * s * cross, tol, stats=stats)
    return dict(nontrivial=gen.has_pattern(sc) and abs(c * s) > 1e-3, stats=stats,
                labels=gen.scene_labels(sc), sample={"psi": psi, "R": float(R.sum())})


def fnum(x):
    return float(np.real(tonp(x)))


@st.composite
def cases(draw, forms):
    sc = draw(gen.scenes(inner=(1, 3), forms=forms, need_pattern=True, nh=(3, 18), aniso=("diag", "herm", "symm", "gen")))
    return {"scene": sc, "psi": draw(gen.fl(-180, 360)), "l": draw(st.integers(0, 14)), "z": draw(gen.fl(0, 1)), "tft": "fft"}


def lanes():
    bk = default_backends()
    return [
        Lane("original", cases(("original",)), run, 700, backends=bk),
        Lane("vector", cases(("tangent", "pol", "jones")), run, 400, backends=bk),
    ]
