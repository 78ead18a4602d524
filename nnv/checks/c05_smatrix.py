"""C05: scattering matrices compose, do not depend on earlier queries, conserve power."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..common import Lane, Skip, close, default_backends, import_nannos, require, tonp

nn = import_nannos()
RULE = (
    "A case is a stack of 3-7 layers and a sequence of 2-8 scattering-matrix queries on sub-ranges (i, j), "
    "0 <= i < j <= last, in any order and with repetitions (mixed with field and efficiency queries); every "
    "answer is compared with the composition of the one-interface matrices obtained from a fresh simulation "
    "by the star product written here.  Lane lossless: random incoming propagating waves on both sides.  "
    "Non-trivial: a patterned layer and at least two different sub-ranges (or waves from both sides)."
)
ASSUMPTIONS = ["amplitudes are those of the eigenmodes of the outermost layers of the sub-range, a at its start, b at its end"]


def star(A, B):
    n = A[0][0].shape[0]
    I = np.eye(n)
    L = I - A[0][1] @ B[1][0]
    M = I - B[1][0] @ A[0][1]
    if max(np.linalg.cond(L), np.linalg.cond(M)) > 1e5:
        raise Skip("ill-conditioned star product")
    Li, Mi = np.linalg.inv(L), np.linalg.inv(M)
    return [
        [B[0][0] @ Li @ A[0][0], B[0][1] + B[0][0] @ Li @ A[0][1] @ B[1][1]],
        [A[1][0] + A[1][1] @ B[1][0] @ Li @ A[0][0], A[1][1] @ Mi @ B[1][1]],
    ]


def S_np(S):
    require(len(S) == 2 and all(len(r) == 2 for r in S), "scattering matrix is not 2x2 blocks")
    return [[tonp(S[i][j]) for j in range(2)] for i in range(2)]


@st.composite
def cases(draw):
    sc = draw(gen.scenes(inner=(1, 5), forms=("original", "tangent"), need_pattern=True, nh=(2, 14), nh1d=(3, 15), aniso=("diag", "herm", "symm", "gen")))
    if sc["lat"]["kind"] == "2d":
        sc["form"] = "original"
    n = len(sc["layers"]) - 1
    q = []
    for _ in range(draw(st.integers(2, 8))):
        k = draw(st.sampled_from(["S"] * 6 + ["full", "field", "eff"]))
        i = draw(st.integers(0, n - 1))
        q.append([k, i, draw(st.integers(i + 1, n))])
    return {"scene": sc, "queries": q}


def run(case):
    sc = case["scene"]
    sim = gen.make_sim(nn, sc)
    harm = gen.harmonics_of(sim)
    gen.guard(gen.make_ref(sc, harm), cond=1e4, qmin=1e-2)
    n = len(sc["layers"]) - 1
    fresh = gen.make_sim(nn, sc)
    one = {}
    for i in range(n):
        one[i] = S_np(fresh.get_S_matrix(indices=(i, i + 1)))
    stats, ranges = {}, set()

    def want(i, j):
        S = one[i]
        for k in range(i + 1, j):
            S = star(S, one[k])
        return S

    d = 2 * harm.shape[1]
    for kind, i, j in case["queries"]:
        if kind == "field":
            sim.get_field_fourier(j, 0.0)
            continue
        if kind == "eff":
            sim.diffraction_efficiencies()
            continue
        if kind == "full":
            i, j = 0, n
            got = S_np(sim.get_S_matrix())
        else:
            got = S_np(sim.get_S_matrix(indices=(i, j) if (i + j) % 2 else [i, j]))
        ranges.add((i, j))
        W = want(i, j)
        sc_ = max(1.0, max(float(np.abs(W[a][b]).max()) for a in range(2) for b in range(2)))
        for a in range(2):
            for b in range(2):
                require(got[a][b].shape == (d, d), f"S{a+1}{b+1} has shape {got[a][b].shape}")
                close(f"S{a+1}{b+1}: range {i}-{j} of {n + 1} layers", got[a][b], W[a][b], 1e-6, scale=sc_, stats=stats)
    return dict(nontrivial=len(ranges) > 1 and gen.has_pattern(sc), stats=stats,
                labels=gen.scene_labels(sc) + [f"span={j - i}" for i, j in sorted(ranges)],
                sample={"ranges": sorted(ranges)})


def flux(kx, ky, q, eps, w, a, b):
    """Normal flux of waves with tangential magnetic amplitudes a (forward) and b (backward)."""
    n = len(kx)
    out = []
    for amp, s in ((a, 1), (b, -1)):
        hx, hy = amp[:n], amp[n:]
        kz = s * q
        hz = -(kx * hx + ky * hy) / kz
        ex = -(ky * hz - kz * hy) / (w * eps)
        ey = -(kz * hx - kx * hz) / (w * eps)
        out.append(np.sum(np.real(ex * np.conj(hy) - ey * np.conj(hx))))
    return out


def run_lossless(case):
    sc = case["scene"]
    sim = gen.make_sim(nn, sc)
    harm = gen.harmonics_of(sim)
    ref = gen.guard(gen.make_ref(sc, harm), qmin=5e-3)
    S = S_np(sim.get_S_matrix())
    r = np.random.default_rng(case["s"])
    n = harm.shape[1]
    w = ref.w
    e0, eN = sc["layers"][0]["eps"][0], sc["layers"][-1]["eps"][0]
    q0 = np.sqrt(e0 * w**2 - ref.kx**2 - ref.ky**2 + 0j)
    qN = np.sqrt(eN * w**2 - ref.kx**2 - ref.ky**2 + 0j)
    p0, pN = np.tile(q0.imag == 0, 2), np.tile(qN.imag == 0, 2)
    a0 = (r.normal(size=2 * n) + 1j * r.normal(size=2 * n)) * p0
    bN = (r.normal(size=2 * n) + 1j * r.normal(size=2 * n)) * pN * case["both"]
    aN = S[0][0] @ a0 + S[0][1] @ bN
    b0 = S[1][0] @ a0 + S[1][1] @ bN
    i0, o0 = flux(ref.kx, ref.ky, q0, e0, w, a0, b0 * p0)
    oN, iN = flux(ref.kx, ref.ky, qN, eN, w, aN * pN, bN)
    tot = i0 - iN
    stats = {}
    close("outgoing power over incoming power", (oN - o0) / tot, 1.0, 1e-6, stats=stats)
    return dict(nontrivial=gen.has_pattern(sc) and n > 1 and pN.any(), stats=stats,
                labels=gen.scene_labels(sc) + ["both sides" if case["both"] else "one side"],
                sample={"in": float(tot), "out": float(oN - o0)})


def fix(sc):
    if sc["lat"]["kind"] == "2d":
        sc["form"] = "original"
    return sc


def lanes():
    bk = default_backends()
    ll = st.fixed_dictionaries({
        "scene": gen.scenes(inner=(1, 4), lossless=True, need_pattern=True, forms=("original", "tangent")).map(fix),
        "s": gen.seeds, "both": st.sampled_from([1.0, 1.0, 0.0]),
    })
    return [Lane("compose", cases(), run, 1200, backends=bk), Lane("lossless", ll, run_lossless, 900, backends=bk)]
