"""C01: per-order efficiencies agree with an independently written solver."""
import numpy as np

from .. import gen
from ..common import Lane, close, default_backends, import_nannos, require, tonp, want_shape

nn = import_nannos()
RULE = (
    "A case is a complete grating problem (1D or 2D lattice of any shape, truncation or user "
    "harmonics, 2-6 uniform/patterned lossless/lossy/metallic layers, wavelength, incidence) drawn by "
    "Hypothesis; non-trivial: at least one patterned layer, more than one harmonic, and the reference "
    "problem well conditioned (otherwise it is counted under outside_domain)."
)
ASSUMPTIONS = ["nnv/ref.py (independent solver: E-field basis, explicit DFT sums, one global linear system) is right"]


def run(sc):
    sim = gen.make_sim(nn, sc)
    harm = gen.harmonics_of(sim)
    expected = sc["harm"] and list(zip(*sc["harm"]))
    if expected is None and not gen.has_pattern(sc):
        expected = None
    ref = gen.guard(gen.make_ref(sc, harm))
    R, T = sim.diffraction_efficiencies(orders=True)
    R, T = want_shape("R", R, (harm.shape[1],)), want_shape("T", T, (harm.shape[1],))
    Rr, Tr = ref.efficiencies()
    stats = {}
    close("R per order", R, Rr, 1e-7, stats=stats)
    close("T per order", T, Tr, 1e-7, stats=stats)
    Rs, Ts = sim.diffraction_efficiencies()
    close("total R", Rs, Rr.sum(), 1e-7)
    close("total T", Ts, Tr.sum(), 1e-7)
    if expected is not None:
        require(expected == [tuple(p) for p in harm.T] or sorted(expected) == sorted(tuple(p) for p in harm.T),
                "user harmonics are not the ones used")
    return dict(
        nontrivial=gen.has_pattern(sc) and harm.shape[1] > 1,
        labels=gen.scene_labels(sc), stats=stats,
        sample={"R": float(tonp(Rs)), "T": float(tonp(Ts)), "nh": int(harm.shape[1])},
    )


def lanes():
    bk = default_backends()
    return [
        Lane("random-stacks", gen.scenes(forms=("original",)), run, 1500, backends=bk),
        Lane("patterned", gen.scenes(inner=(1, 3), need_pattern=True, nh=(6, 40), nh1d=(5, 61)), run, 500, backends=bk),
        Lane("wide", gen.scenes(inner=(0, 4), nh=(1, 16), nh1d=(1, 25), wide=True), run, 500, backends=bk),
        Lane("deep", gen.scenes(inner=(5, 12), nh=(1, 7), nh1d=(1, 9)), run, 150, backends=bk),
        Lane("large", gen.scenes(inner=(1, 2), need_pattern=True, nh=(40, 110), nh1d=(61, 141), user_harm=False), run, 60, backends=bk),
        Lane("1d-tangent", gen.scenes(inner=(1, 3), need_pattern=True, one_d=True, forms=("tangent",)), run, 400, backends=bk),
    ]
