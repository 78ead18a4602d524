"""C15: lattice geometry: reciprocal vectors, area, grids and coordinate maps."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..common import Lane, close, default_backends, import_nannos, require, tonp

nn = import_nannos()
RULE = (
    "A case is a lattice of any shape, orientation, handedness and scale (vectors given as tuples, lists or "
    "arrays; 1D period), a discretization (number or pair) and random points.  Oracles: definitions in plain "
    "numpy, duality u_i.K_j = 2 pi delta_ij, linearity of the coordinate map.  Non-trivial: not a unit square."
)


@st.composite
def cases(draw):
    one_d = draw(st.integers(0, 4)) == 0
    lat = draw(gen.lattices_1d() if one_d else gen.lattices_2d(kinds=("square", "rect", "hex", "oblique", "general", "general")))
    s = 10 ** draw(gen.fl(-3, 3)) if draw(st.booleans()) else 1.0
    if one_d:
        lat["a"] *= s
    else:
        lat["v"] = [[float(c * s) for c in v] for v in lat["v"]]
    return {
        "lat": lat, "how": draw(st.sampled_from(["tuple", "list", "array"])),
        "disc": draw(st.one_of(st.integers(2, 40), st.tuples(st.integers(2, 40), st.integers(2, 40)).map(list))),
        "s": draw(gen.seeds), "val": [draw(gen.fl(-9, 9)), draw(gen.fl(-2, 2))], "c": draw(gen.fl(-0.2, 1.2)), "w": draw(gen.fl(0, 1.3)),
    }


def run(case):
    lat = case["lat"]
    one_d = lat["kind"] == "1d"
    B = gen.basis(lat)
    bv = lat["a"] if one_d else {"tuple": tuple(map(tuple, lat["v"])), "list": lat["v"], "array": np.array(lat["v"])}[case["how"]]
    d = case["disc"]
    L = nn.Lattice(bv, discretization=d if isinstance(d, int) else tuple(d))
    N = (d, d) if isinstance(d, int) else tuple(d)
    if one_d:
        N = (N[0], 1)
    require(tuple(L.discretization) == N, f"discretization is {tuple(L.discretization)}, expected {N}")
    stats = {}
    sc = float(np.abs(B).max())
    close("matrix has the basis vectors as columns", L.matrix, B.T, 1e-14, scale=sc, stats=stats)
    K = tonp(L.reciprocal)
    close("duality", B @ K, 2 * np.pi * np.eye(2), 1e-10, stats=stats)
    if not one_d:
        area = abs(B[0, 0] * B[1, 1] - B[0, 1] * B[1, 0])
        close("area", float(tonp(L.area)), area, 1e-12, scale=area, stats=stats)
    else:
        close("period", float(tonp(L.area)), lat["a"], 1e-12, scale=lat["a"])
    x, y = np.linspace(0, 1, N[0]), np.linspace(0, 1, N[1])
    X, Y = np.meshgrid(x, y, indexing="ij")
    ug, g = tonp(L.unit_grid), tonp(L.grid)
    tol = 1e-6 if nn.get_backend() == "torch" else 1e-12
    require(ug.shape == (2,) + N and g.shape == (2,) + N, f"grid shapes {ug.shape}, {g.shape}")
    close("unit grid", ug, np.stack([X, Y]), tol, stats=stats)
    want = np.stack([B[0, 0] * X + B[1, 0] * Y, B[0, 1] * X + B[1, 1] * Y])
    close("grid", g, want, tol, scale=sc, stats=stats)
    r = np.random.default_rng(case["s"])
    p, q = r.normal(size=(2, 3, 4)), r.normal(size=(2, 3, 4))
    al = float(r.normal())
    to = nn.backend.array
    T = lambda u: tonp(L.transform(to(u)))  # noqa: E731
    close("transform", T(p), np.einsum("ci,cab->iab", B, p), 1e-12, scale=10 * sc, stats=stats)
    close("transform is linear", T(p + al * q), T(p) + al * T(q), 1e-11, scale=10 * sc)
    v = complex(*case["val"])
    for a, w in ((L.ones(), 1), (L.zeros(), 0), (L.constant(v), v)):
        a = tonp(a)
        require(a.shape == N and np.iscomplexobj(a), "constant arrays are complex with the shape of the lattice")
        close("constant arrays", a, np.full(N, w, complex), 1e-14)
    ext = float(want[0].max() - want[0].min()) or 1.0
    c, w = want[0].min() + case["c"] * ext, case["w"] * ext
    m = tonp(L.stripe(c, w))
    require(m.shape == N and m.dtype == bool, "stripe is a boolean mask")
    dist = np.abs(want[0] - c) - w / 2
    ok = np.abs(dist) > 1e-6 * ext
    require(np.array_equal(m[ok], dist[ok] < 0), "stripe")
    return dict(nontrivial=B.tolist() != [[1, 0], [0, 1]], labels=[lat["kind"], case["how"]], stats=stats,
                sample={"basis": B.tolist(), "disc": N})


def lanes():
    return [Lane("lattices", cases(), run, 2500, backends=default_backends())]
