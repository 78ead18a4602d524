"""C17: Fourier representation of the permittivity."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..common import Lane, close, default_backends, import_nannos, require, tonp
from ..ref import dft_coeffs

nn = import_nannos()
RULE = (
    "A case is a random real or complex array (power-of-two, odd, prime, 1-wide, unequal sizes) or a patterned "
    "layer.  Oracles: explicit DFT sums, mean value as zeroth coefficient, shift theorem, linearity, round "
    "trip; the reconstructed permittivity is the Fourier series of the layer restricted to the retained "
    "harmonics.  Non-trivial: non-constant array."
)


@st.composite
def arrays(draw):
    return {"shape": [draw(st.integers(1, 24)), draw(st.integers(1, 24))], "s": draw(gen.seeds), "cplx": draw(st.booleans()),
            "roll": [draw(st.integers(0, 30)), draw(st.integers(0, 30))], "lead": draw(st.sampled_from([0, 0, 3])),
            "s2": [draw(st.integers(1, 24)), draw(st.integers(1, 24))], "axes": draw(st.sampled_from([[0, 1], [1, 2], [0, 2], [-2, -1], [-3, -2], [1, 0], [2, 0]]))}


def run_fft(case):
    from nannos.formulations import fft

    r = np.random.default_rng(case["s"])
    shape = tuple(case["shape"])
    full = ((case["lead"],) if case["lead"] else ()) + shape
    u = r.normal(size=full) + (1j * r.normal(size=full) if case["cplx"] else 0)
    to = nn.backend.array
    F = tonp(fft.fourier_transform(to(u)))
    require(F.shape == full, f"transform has shape {F.shape}")
    d1, d2 = np.meshgrid(np.arange(shape[0]), np.arange(shape[1]), indexing="ij")
    stats = {}
    parts = [(u[i], F[i]) for i in range(case["lead"])] if case["lead"] else [(u, F)]
    for a, A in parts:
        close("coefficients", A, dft_coeffs(np.asarray(a, complex), d1, d2), 1e-10, stats=stats)
        close("zeroth coefficient is the mean", A[0, 0], a.mean(), 1e-12)
    close("round trip", tonp(fft.inverse_fourier_transform(to(F))), u, 1e-12, stats=stats)
    if not case["lead"]:
        a, b = case["roll"]
        G = tonp(fft.fourier_transform(to(np.roll(u, (a, b), (0, 1)))))
        close("shift theorem", G, F * np.exp(-2j * np.pi * (d1 * a / shape[0] + d2 * b / shape[1])), 1e-10)
    # any pair of axes, padded or cut to a given shape
    ax = case["axes"] if case["lead"] else [[0, 1], [-2, -1], [1, 0]][case["s"] % 3]
    q = tuple(case["s2"]) if case["s"] % 2 else None
    v = u.astype(complex)
    if q:
        for k, m in zip(ax, q):
            m0 = v.shape[k]
            v = np.take(v, range(min(m, m0)), axis=k)
            pad = [(0, 0)] * v.ndim
            pad[k] = (0, max(0, m - m0))
            v = np.pad(v, pad)
    for k in ax:
        n = v.shape[k]
        D = np.exp(-2j * np.pi * np.outer(np.arange(n), np.arange(n)) / n) / n
        v = np.moveaxis(np.tensordot(D, v, (1, k)), 0, k)
    kw = {"axes": tuple(ax), **({"s": q} if q else {})}
    got = tonp(fft.fourier_transform(to(u), **kw))
    close("axes and shape", got, v, 1e-10, stats=stats)
    w = u.astype(complex)
    if q:
        w = tonp(fft.inverse_fourier_transform(to(v), **kw))
        back = tonp(fft.inverse_fourier_transform(fft.fourier_transform(to(u), **kw), axes=tuple(ax)))
        close("round trip over axes and shape", back, w, 1e-11, stats=stats)
        i = tuple(slice(0, min(a, b)) for a, b in zip(u.shape, v.shape))
        close("padded round trip", back[i], u[i], 1e-11, stats=stats)
    else:
        close("round trip over axes", tonp(fft.inverse_fourier_transform(to(got), **kw)), w, 1e-11, stats=stats)
    return dict(nontrivial=u.size > 1, labels=["padded" if q else "plain", "complex" if case["cplx"] else "real", "stack" if case["lead"] else "single"], stats=stats,
                sample={"shape": shape})


def run_eps(case):
    sc = case["scene"]
    sim = gen.make_sim(nn, sc)
    harm = gen.harmonics_of(sim)
    if case["solve"]:
        sim.solve()
    stats, nt = {}, False
    n = len(sc["layers"])
    for i, L in enumerate(sc["layers"]):
        e = gen.eps_of(L["eps"], tuple(sc["disc"]))
        key = {0: i, 1: L["name"], 2: sim.layers[i], 3: i - n}[case["how"]]
        got = tonp(sim.get_epsilon(key))
        if np.ndim(e) == 0:
            close("uniform layer", got, e, 1e-14)
            continue
        Nx, Ny = sc["disc"]
        c = dft_coeffs(e[2, 2] if e.ndim == 4 else e, harm[0], harm[1])
        want = np.einsum("h,ih,jh->ij", c, np.exp(2j * np.pi * np.outer(np.arange(Nx), harm[0]) / Nx),
                         np.exp(2j * np.pi * np.outer(np.arange(Ny), harm[1]) / Ny))
        require(got.shape == (Nx, Ny), f"permittivity map has shape {got.shape}")
        close("permittivity map", got, want, 1e-9, stats=stats)
        nt |= harm.shape[1] > 1
    return dict(nontrivial=nt, labels=gen.scene_labels(sc), stats=stats, sample={"nh": int(harm.shape[1])})


def run_coef(case):
    """get_ifft / get_ifft_amplitudes synthesise given coefficients"""
    sc = case["scene"]
    sim = gen.make_sim(nn, sc)
    harm = gen.harmonics_of(sim)
    nh = harm.shape[1]
    r = np.random.default_rng(case["s"])
    m = np.abs(harm).max(1)
    shape = (int(m[0]) + 1 + case["ext"][0], int(m[1]) + 1 + case["ext"][1])
    u = r.normal(size=nh) + 1j * r.normal(size=nh)
    PX = np.exp(2j * np.pi * np.outer(np.arange(shape[0]) / shape[0], harm[0]))
    PY = np.exp(2j * np.pi * np.outer(np.arange(shape[1]) / shape[1], harm[1]))
    to = nn.backend.array
    stats = {}
    close("synthesis", tonp(sim.get_ifft(to(u), shape)), np.einsum("h,ih,jh->ij", u, PX, PY), 1e-10, stats=stats)
    k = 1 + case["s"] % 3
    a = r.normal(size=(k, nh)) + 1j * r.normal(size=(k, nh))
    got = tonp(sim.get_ifft_amplitudes(to(a), shape))
    close("synthesis of several fields", got, np.einsum("kh,ih,jh->ijk", a, PX, PY), 1e-10, stats=stats)
    return dict(nontrivial=nh > 1, labels=["synthesis"], stats=stats, sample={"shape": shape, "nh": nh})


def lanes():
    bk = default_backends()
    scn = gen.scenes(inner=(1, 3), need_pattern=True, nh=(1, 40), nh1d=(1, 41), aniso=False)
    return [
        Lane("transform", arrays(), run_fft, 1500, backends=bk),
        Lane("permittivity", st.fixed_dictionaries({"scene": scn, "how": st.integers(0, 3), "solve": st.booleans()}), run_eps, 700, backends=bk),
        Lane("synthesis", st.fixed_dictionaries({"scene": scn, "s": gen.seeds, "ext": st.tuples(st.integers(0, 9), st.integers(0, 9)).map(list)}), run_coef, 400, backends=bk),
    ]
