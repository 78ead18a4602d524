"""C11: fields in every layer: reference solution, continuity, boundary conditions."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..common import Lane, close, default_backends, import_nannos, require, tonp
from ..ref import toeplitz

nn = import_nannos()
RULE = (
    "A case is a grating problem and a sequence of field queries (layer by index, negative index, name or "
    "object; scalar depth, list or array of depths, inside and slightly outside the layer).  Oracles: fields "
    "of the reference solver, continuity of Ex, Ey, Hx, Hy, Hz and Dz at every interface, incident wave in the "
    "superstrate, outgoing waves only in the substrate.  Non-trivial: patterned layer, several harmonics, a "
    "query in an inner layer."
)
ASSUMPTIONS = ["nnv/ref.py is right; fields are normalised to an incident magnetic field of modulus one"]


@st.composite
def cases(draw, **kw):
    sc = draw(gen.scenes(**kw))
    if sc["lat"]["kind"] == "2d":
        sc["form"] = "original"
    n = len(sc["layers"])
    q = []
    for _ in range(draw(st.integers(1, 4))):
        l = draw(st.integers(0, n - 1))
        how = draw(st.sampled_from(["int", "neg", "name", "obj", "np"]))
        zs = draw(st.lists(st.one_of(gen.fl(0, 1), st.sampled_from([0.0, 1.0])), min_size=1, max_size=4))
        kind = draw(st.sampled_from(["list", "array", "tuple", "scalar"]))
        q.append([l, how, zs, kind])
    return {"scene": sc, "queries": q}


def key(sim, l, how, n):
    return {"int": l, "neg": l - n, "name": sim.layers[l].name, "obj": sim.layers[l], "np": np.int64(l)}[how]


def run(case):
    sc = case["scene"]
    sim = gen.make_sim(nn, sc)
    harm = gen.harmonics_of(sim)
    ref = gen.guard(gen.make_ref(sc, harm), cond=1e5)
    n, nh = len(sc["layers"]), harm.shape[1]
    stats = {}
    inner = False
    for l, how, zs, kind in case["queries"]:
        h = sc["layers"][l]["h"] if 0 < l < n - 1 else max(sc["layers"][l]["h"], 0.3)
        zz = [z * h for z in zs]
        if l == 0:
            zz = [sc["layers"][0]["h"] - z * h for z in zs]
        inner |= 0 < l < n - 1
        arg = {"list": zz, "array": np.array(zz), "tuple": tuple(zz), "scalar": zz[0]}[kind]
        if kind == "scalar":
            zz = zz[:1]
        F = tonp(sim.get_field_fourier(key(sim, l, how, n), arg))
        require(F.shape == (len(zz), 2, 3, nh), f"fields have shape {F.shape}")
        for k, z in enumerate(zz):
            want = ref.fields(l, z)
            s = max(1.0, np.abs(want).max())
            close(f"fields: layer {l} of {n}, {how}", F[k], want, 1e-7, scale=s, stats=stats)
    # continuity at every interface
    prev = None
    for l in range(n):
        h = sc["layers"][l]["h"]
        F = tonp(sim.get_field_fourier(l, [0.0, h]))
        e = gen.eps_of(sc["layers"][l]["eps"], tuple(sc["disc"]))
        e = e[2, 2] if np.ndim(e) == 4 else e
        D = [(e * f[0, 2] if np.ndim(e) == 0 else toeplitz(e, harm) @ f[0, 2]) for f in F]
        a, b = [np.concatenate([f[0, :2].ravel(), f[1].ravel(), d]) for f, d in zip(F, D)]
        if prev is not None:
            close(f"continuity: interface {l - 1}/{l}", a, prev, 1e-7, scale=max(1.0, np.abs(a).max()), stats=stats)
        prev = b
    # incident wave, radiation condition
    i0 = [k for k in range(nh) if tuple(harm[:, k]) == (0, 0)][0]
    h0 = sc["layers"][0]["h"]
    g0 = np.sqrt(sc["layers"][0]["eps"][0] * ref.w**2 - ref.kx**2 - ref.ky**2 + 0j)
    d = 0.1 * 2 * np.pi / ref.w
    F0, F1 = tonp(sim.get_field_fourier(0, [h0 - d, h0]))[:, 0]
    prop = np.abs(g0[i0]) > 1e-3 * ref.w
    if prop:
        # split order (0, 0) into down / up going parts from two depths
        p, m = np.exp(1j * g0[i0] * d), np.exp(-1j * g0[i0] * d)
        down = (F1[:, i0] - F0[:, i0] * m) / (p - m)  # amplitude at depth h0 - d
        want = ref.pol / ref.n0 * np.exp(1j * g0[i0] * (h0 - d))
        close("incident wave", down, want, 1e-6, stats=stats)
    L = n - 1
    gN = ref.layers[L].q[:nh]
    FN = tonp(sim.get_field_fourier(L, [0.0, d]))
    close("outgoing waves in the substrate", FN[1], FN[0] * np.exp(1j * gN * d), 1e-7, scale=max(1.0, np.abs(FN).max()), stats=stats)
    return dict(nontrivial=gen.has_pattern(sc) and nh > 1 and inner, stats=stats,
                labels=gen.scene_labels(sc), sample={"queries": case["queries"], "max|E|": float(np.abs(F0).max())})


def lanes():
    bk = default_backends()
    thin = st.one_of(gen.fl(0.02, 0.9), st.sampled_from([0.0, 1e-3]))
    return [
        Lane("any", cases(inner=(0, 4), thick=thin, forms=("original", "tangent")), run, 900, backends=bk),
        Lane("patterned", cases(inner=(1, 3), need_pattern=True, thick=thin, nh=(4, 24), forms=("original", "tangent"), aniso=("diag", "herm", "symm", "gen")), run, 500, backends=bk),
    ]
