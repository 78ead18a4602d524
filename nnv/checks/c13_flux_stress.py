"""C13: power flow and Maxwell stress follow from the fields and balance."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..common import Lane, close, default_backends, import_nannos, require, tonp

from .c18_vector import FIELD, vector_sim

nn = import_nannos()
RULE = (
    "A case is a grating problem with queries of the z-stress integrals at depths of every layer, and modal "
    "amplitudes chosen at random for the power flow.  Oracles: definitions evaluated on the reference fields, "
    "independence of depth in uniform lossless layers, closed form from the efficiencies in the superstrate; "
    "power: definition on fields built from the modes.  Non-trivial: patterned layer, several harmonics."
)
ASSUMPTIONS = ["nnv/ref.py is right", "given tangential fields in vector formulations"]


def stress(F, D):
    E, H = F
    s = lambda a, b: float(np.sum(np.real(a * np.conj(b))))  # noqa: E731
    return np.array([
        s(E[0], D[2]) + s(H[0], H[2]),
        s(E[1], D[2]) + s(H[1], H[2]),
        0.5 * (s(E[2], D[2]) + s(H[2], H[2]) - s(E[0], D[0]) - s(E[1], D[1]) - s(H[0], H[0]) - s(H[1], H[1])),
    ])


def run_stress(case):
    sc = case["scene"]
    sim, make_ref = vector_sim(sc, case["t"])
    harm = gen.harmonics_of(sim)
    ref = gen.guard(make_ref(harm), cond=1e5)
    n = len(sc["layers"])
    stats = {}
    for l, zf in case["queries"]:
        l = l % n
        h = sc["layers"][l]["h"]
        z = zf * h
        key = {0: l, 1: sc["layers"][l]["name"], 2: l - n}[case["how"]]
        T = sim.get_z_stress_tensor_integral(key, z=z)
        require(len(T) == 3, "three components")
        T = np.array([float(np.real(tonp(x))) for x in T])
        F = ref.fields(l, z)
        D = ref.displacement(l, z)
        want = stress(F, D)
        s = max(1.0, np.abs(F).max() ** 2 * max(1.0, np.abs(D).max() / max(np.abs(F).max(), 1e-300)))
        close(f"stress: layer {l} of {n}", T, want, 1e-7, scale=s, stats=stats)
        e = sc["layers"][l]["eps"]
        if not isinstance(e, dict) and e[1] == 0 and 0 < l < n - 1:
            T2 = np.array([float(np.real(tonp(x))) for x in sim.get_z_stress_tensor_integral(l, z=h * (1 - zf))])
            close("stress independent of depth", T2, T, 1e-6, scale=s, stats=stats)
    R = tonp(sim.diffraction_efficiencies(orders=True)[0])
    g = np.sqrt(sc["layers"][0]["eps"][0] * ref.w**2 - ref.kx**2 - ref.ky**2 + 0j).real
    i0 = ref.i0
    Fx = ref.inc * (ref.kx.real[i0] - np.sum(ref.kx.real * R)) / ref.w
    Fy = ref.inc * (ref.ky.real[i0] - np.sum(ref.ky.real * R)) / ref.w
    Fz = ref.inc * (g[i0] + np.sum(g * R)) / ref.w
    T0 = np.array([float(np.real(tonp(x))) for x in sim.get_z_stress_tensor_integral(0, z=sc["layers"][0]["h"])])
    close("stress in the superstrate from the efficiencies", T0, -np.array([Fx, Fy, Fz]), 1e-6, scale=max(1.0, np.abs(tonp(sim.get_field_fourier(0, sc["layers"][0]["h"]))).max() ** 2), stats=stats)
    return dict(nontrivial=gen.has_pattern(sc) and harm.shape[1] > 1, stats=stats, labels=gen.scene_labels(sc),
                sample={"T": T0.tolist()})


def run_power(case):
    sc = case["scene"]
    sim, make_ref = vector_sim(sc, case["t"])
    harm = gen.harmonics_of(sim)
    ref = gen.guard(make_ref(harm), cond=1e4, qmin=1e-2)
    n, nh = len(sc["layers"]), harm.shape[1]
    l = case["l"] % n
    sim.solve()
    layer = sim.layers[l]
    r = np.random.default_rng(case["s"])
    a = (r.normal(size=2 * nh) + 1j * r.normal(size=2 * nh)) * (case["ab"] != 1)
    b = (r.normal(size=2 * nh) + 1j * r.normal(size=2 * nh)) * (case["ab"] != 2)
    a = a * (r.random(2 * nh) < case["dens"])
    b = b * (r.random(2 * nh) < case["dens"])
    to = nn.backend.array
    fwd, bwd = sim.get_z_poynting_flux(layer, to(a), to(b))
    fwd, bwd = tonp(fwd), tonp(bwd)
    require(fwd.shape == (nh,) and bwd.shape == (nh,), "one value per harmonic")
    q, phi = tonp(layer.eigenvalues), tonp(layer.eigenvectors)
    L = ref.layers[l]
    X, Y, w = np.diag(ref.kx), np.diag(ref.ky), ref.w

    def fields(amp, sign):
        H = phi @ amp
        hx, hy = H[:nh], H[nh:]
        # d/dz of every mode is sign * i q; D from Ampere, E from D
        dH = 1j * sign * (phi @ (q * amp))
        hz = np.zeros(nh, complex)
        dhx, dhy = dH[:nh], dH[nh:]
        # div H = 0: i kx hx + i ky hy + dhz = 0, mode by mode
        hz = -(phi[:nh] * ref.kx[:, None] + phi[nh:] * ref.ky[:, None]) @ (amp / (sign * q))
        dx = -(1j * ref.ky * hz - dhy) / (1j * w)
        dy = -(dhx - 1j * ref.kx * hz) / (1j * w)
        A = np.block([[L.E4[0], L.E4[1]], [L.E4[2], L.E4[3]]])
        E = np.linalg.solve(A, np.concatenate([dx, dy]))
        return E, H

    Ea, Ha = fields(a, 1)
    Eb, Hb = fields(b, -1)
    S = lambda E, H: np.real(E[:nh] * np.conj(H[nh:]) - E[nh:] * np.conj(H[:nh]))  # noqa: E731
    tot = S(Ea + Eb, Ha + Hb)
    stats = {}
    s = max(1.0, np.abs(tot).max(), np.abs(S(Ea, Ha)).max(), np.abs(S(Eb, Hb)).max()) * max(1.0, np.linalg.cond(phi) * 1e-2)
    close(f"power: layer {l} of {n}", fwd + bwd, tot, 1e-7, scale=s, stats=stats)
    if case["ab"] == 2:
        close("power of forward waves alone", fwd, S(Ea, Ha), 1e-7, scale=s)
        close("no backward waves", bwd, 0 * bwd, 1e-12, scale=s)
    if case["ab"] == 1:
        close("power of backward waves alone", bwd, S(Eb, Hb), 1e-7, scale=s)
        close("no forward waves", fwd, 0 * fwd, 1e-12, scale=s)
    return dict(nontrivial=isinstance(sc["layers"][l]["eps"], dict) and nh > 1, stats=stats,
                labels=gen.scene_labels(sc) + ["ab=%d" % case["ab"]], sample={"total": float(tot.sum())})


def options(draw):
    """isotropic layers and direct rule half of the time"""
    return draw(st.sampled_from([{}, {}, dict(aniso=True), dict(aniso=True, forms=("tangent", "pol", "jones"))]))


@st.composite
def stress_cases(draw):
    return {
        "scene": draw(gen.scenes(inner=(0, 3), thick=gen.fl(0.0, 0.9), **options(draw))),
        "t": draw(st.lists(FIELD, min_size=14, max_size=14)),
        "queries": draw(st.lists(st.tuples(st.integers(0, 9), gen.fl(0, 1)).map(list), min_size=1, max_size=4)),
        "how": draw(st.integers(0, 2)),
    }


@st.composite
def power_cases(draw):
    return {
        "scene": draw(gen.scenes(inner=(1, 2), need_pattern=True, **options(draw))), "t": draw(st.lists(FIELD, min_size=4, max_size=4)), "l": draw(st.one_of(st.just(1), st.integers(0, 9))),
        "s": draw(gen.seeds), "ab": draw(st.integers(0, 2)), "dens": draw(st.sampled_from([1.0, 0.3])),
    }


def lanes():
    bk = default_backends()
    return [Lane("stress", stress_cases(), run_stress, 1000, backends=bk), Lane("power", power_cases(), run_power, 700, backends=bk)]
