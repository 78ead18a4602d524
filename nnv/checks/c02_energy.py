"""C02: energy conservation and passivity."""
import numpy as np

from .. import gen
from ..common import Lane, close, default_backends, import_nannos, require, tonp

nn = import_nannos()
RULE = (
    "A case is a generated grating problem (1D/2D lattice, 2-6 layers, any incidence); lane lossless: every "
    "layer lossless, R+T=1; lane passive: absorbing layers and/or substrate, power balance against the flux "
    "through every interface.  Non-trivial: a patterned layer, more than one harmonic, well conditioned."
)
ASSUMPTIONS = [
    "exact for the formulations whose truncated operator is Hermitian for lossless media: 'original', and 'tangent' in 1D",
    "nnv/ref.py only supplies the conditioning of the case",
]


def flux(F):
    E, H = F
    return float(np.sum(np.real(E[0] * np.conj(H[1]) - E[1] * np.conj(H[0]))))


def common(sc):
    sim = gen.make_sim(nn, sc)
    harm = gen.harmonics_of(sim)
    ref = gen.guard(gen.make_ref(sc, harm))
    R, T = [tonp(x) for x in sim.diffraction_efficiencies(orders=True)]
    Rs, Ts = [float(tonp(x)) for x in sim.diffraction_efficiencies()]
    require(np.all(np.isfinite(R)) and np.all(np.isfinite(T)), "non-finite efficiencies")
    close("R is the sum over orders", Rs, R.sum(), 1e-9)
    close("T is the sum over orders", Ts, T.sum(), 1e-9)
    require(np.all(R >= -1e-7), f"negative reflected efficiency {R.min()}")
    sub = complex(*sc["layers"][-1]["eps"])
    if sub.imag == 0 and sub.real > 0:
        require(np.all(T >= -1e-7), f"negative transmitted efficiency {T.min()}")
    nt = gen.has_pattern(sc) and harm.shape[1] > 1
    return sim, ref, R, T, Rs, Ts, nt


def run_lossless(sc):
    sim, ref, R, T, Rs, Ts, nt = common(sc)
    stats = {}
    close("R + T", Rs + Ts, 1.0, 1e-7, stats=stats)
    return dict(nontrivial=nt, labels=gen.scene_labels(sc), stats=stats, sample={"R": Rs, "T": Ts})


def run_passive(sc):
    sim, ref, R, T, Rs, Ts, nt = common(sc)
    require(-1e-7 <= Rs <= 1 + 1e-7, f"R = {Rs}")
    require(-1e-7 <= Ts <= 1 + 1e-7, f"T = {Ts}")
    require(Rs + Ts <= 1 + 1e-7, f"R + T = {Rs + Ts} > 1 with passive media")
    inc = float(np.real(np.cos(np.deg2rad(sc["ang"][0]))) / np.sqrt(sc["layers"][0]["eps"][0]))
    # net power through the two faces of every layer
    stats, last = {}, None
    fl = []
    for i, L in enumerate(sc["layers"]):
        h = L["h"] if 0 < i < len(sc["layers"]) - 1 else 0.0
        F = tonp(sim.get_field_fourier(i, [0.0, h]))
        p0, p1 = flux(F[0]) / inc, flux(F[1]) / inc
        fl.append((p0, p1))
        lossless = not isinstance(L["eps"], dict) and L["eps"][1] == 0
        if lossless or h == 0:
            close("flux constant in lossless layer", p1, p0, 1e-7, stats=stats)
        else:
            require(p1 <= p0 + 1e-7, f"power grows across passive layer {i}: {p0} -> {p1}")
        if last is not None:
            close("flux continuous across interface", p0, last, 1e-7, stats=stats)
        last = p1 if i > 0 else p0
        if i == 0:
            close("net flux in the superstrate is 1-R", p0, 1 - Rs, 1e-7, stats=stats)
    close("flux in the substrate is T", fl[-1][0], Ts, 1e-7, stats=stats)
    return dict(nontrivial=nt and Rs + Ts < 1 - 1e-6, labels=gen.scene_labels(sc), stats=stats,
                sample={"R": Rs, "T": Ts})


def lanes():
    bk = default_backends()
    return [
        Lane("lossless", gen.scenes(inner=(0, 4), lossless=True, forms=("original", "original", "tangent"), one_d=None)
             .map(fix_form), run_lossless, 1100, backends=bk),
        Lane("lossless-large", gen.scenes(inner=(1, 3), lossless=True, need_pattern=True, nh=(20, 50), nh1d=(21, 101)).map(fix_form),
             run_lossless, 250, backends=bk),
        Lane("passive", gen.scenes(inner=(1, 4), need_pattern=True, forms=("original", "tangent")).map(fix_form), run_passive, 800, backends=bk),
    ]


def fix_form(sc):
    if sc["lat"]["kind"] == "2d":
        sc["form"] = "original"
    return sc
