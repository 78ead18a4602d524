"""C26: material interpolation, projection and filtering are exact maps."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..common import Lane, Skip, close, default_backends, import_nannos, require, tonp

nn = import_nannos()
opt = nn.optimize
RULE = (
    "Cases: densities (random, with 0, 1, 1/2 and the nodes), permittivities (real, complex, any order), exponents, "
    "steepnesses, thresholds and numbers of levels (lanes interpolation, projection); density maps of any shape and "
    "radii per axis (lane filter).  Oracles: values at end points, nodes and thresholds, closed forms, monotonicity, "
    "symmetries; for the filter linearity, translation, exchange of axes, separability, constants, total, bounds and "
    "the moments of the impulse response.  Non-trivial: more than two distinct densities, steepness and exponent or "
    "radius different from zero."
)
ASSUMPTIONS = ["radii of the filter up to a quarter of the size of the array (the kernel is cut at its edges), not far below a pixel"]


def arr(a):
    return nn.backend.array(np.ascontiguousarray(a))


def dens(case, n=None):
    r = np.random.default_rng(case["s"])
    x = np.concatenate([[0.0, 1.0, 0.5], r.random(case.get("n", 10) if n is None else n)])
    return x


def shaped(x, kind):
    if kind == "2d":
        x = x[: len(x) // 2 * 2].reshape(2, -1)
    return x


def run_interp(case):
    x = shaped(dens(case), case["shape"])
    e = [complex(*v) if case["cplx"] else v[0] for v in case["eps"]]
    p = case["p"]
    stats, labs = {}, ["levels=%d" % len(e), "p=%g" % p, "complex" if case["cplx"] else "real", case["shape"]]
    sc = max(1.0, np.abs(e).max())
    if True:
        out = tonp(opt.simp(arr(x), e[0], e[1], p))
        require(out.shape == x.shape, f"simp has shape {out.shape}")
        close("simp", out, e[0] + (e[1] - e[0]) * x**p, 1e-13, scale=sc, stats=stats)
        for v, w in ((0.0, e[0]), (1.0, e[1])):
            close("simp at the ends", opt.simp(v, e[0], e[1], p), w, 1e-15, scale=sc)
        s = np.sort(x.ravel())
        t = (tonp(opt.simp(arr(s), e[0], e[1], p)) - e[0]) / ((e[1] - e[0]) or 1)
        require(np.all(np.diff(t.real) >= -1e-12) and np.abs(t.imag).max() < 1e-9, "simp is not monotonic between its ends")
    m = len(e)
    nodes = np.linspace(0, 1, m)
    pw = np.vander(nodes**p, m)
    cond = np.linalg.cond(pw)
    got = tonp(opt.multi_simp(arr(nodes), e, p))
    close("nodes", got, np.array(e), 1e-14 * cond, scale=sc, stats=stats)
    got = tonp(opt.multi_simp(arr(x), e, p))
    require(got.shape == x.shape, f"multi_simp has shape {got.shape}")
    u, un = x**p, nodes**p  # Lagrange form
    want = np.zeros(x.shape, complex)
    for k in range(m):
        w = np.ones(x.shape)
        for j in range(m):
            if j != k:
                w = w * (u - un[j]) / (un[k] - un[j])
        want += e[k] * w
    lag = max(sc, np.abs(want).max())
    close("multi_simp", got, want, 1e-13 * cond, scale=lag, stats=stats)
    if m == 2:
        close("two levels", got, tonp(opt.simp(arr(x), e[0], e[1], p)), 1e-13, scale=sc, stats=stats)
    close("equal materials", opt.multi_simp(arr(x), [e[0]] * m, p), np.full(x.shape, e[0]), 1e-13 * cond, scale=sc)
    return dict(nontrivial=len(np.unique(x)) > 2 and p > 0 and e[0] != e[1], labels=labs, stats=stats, sample={"eps": str(e), "p": p})


def P(x, b, t=0.5):
    th = np.tanh
    return (th(b * t) + th(b * (x - t))) / (th(b * t) + th(b * (1 - t)))


def run_project(case):
    loose = 1e-6 if nn.get_backend() == "torch" else 1e-13  # python numbers are single precision tensors
    x, b, t, n = shaped(dens(case), case["shape"]), case["beta"], case["t"], case["levels"]
    stats = {}
    out = tonp(opt.project(arr(x), b, t))
    require(out.shape == x.shape, f"projection has shape {out.shape}")
    close("project", out, P(x, b, t), 1e-12, stats=stats)
    for v, w in ((0.0, 0.0), (1.0, 1.0)):
        close(f"project({v})", opt.project(v, b, t), w, loose)
    close("project(1/2)", opt.project(0.5, b), 0.5, loose)
    close("defaults", opt.project(arr(x)), P(x, 1, 0.5), 1e-12)
    close("list", opt.project(x.tolist(), b, t), out, 200 * loose)
    close("symmetry", opt.project(arr(1 - x), b, 1 - t), 1 - out, 1e-11, stats=stats)
    s = np.sort(x.ravel())
    ps = tonp(opt.project(arr(s), b, t))
    require(np.all(np.diff(ps) >= -1e-13), "projection is not monotonic")
    require(ps.min() >= -1e-13 and ps.max() <= 1 + 1e-13, "projection leaves [0, 1]")
    close("identity for no steepness", opt.project(arr(x), 1e-4, t), x, 1e-7)
    far = np.abs(s - t) > 0.03
    close("step for infinite steepness", tonp(opt.project(arr(s), 3e3, t))[far], (s > t)[far] * 1.0, 1e-12)
    m = tonp(opt.multi_project(arr(x), b, n))
    require(m.shape == x.shape, f"projection has shape {m.shape}")
    th = [k / n for k in range(1, n)]
    close("multi_project", m, sum(P(x, b, k) for k in th) / len(th), 1e-12, stats=stats)
    if n == 2:
        close("two levels", m, opt.project(arr(x), b), 1e-13)
    far = np.min([np.abs(s - k) for k in th], axis=0) > 0.02
    steps = sum((s > k) * 1.0 for k in th) / len(th)
    close("levels", tonp(opt.multi_project(arr(s), 4e3, n))[far], steps[far], 1e-12)
    close("symmetry of levels", opt.multi_project(arr(1 - x), b, n), 1 - m, 1e-11)
    return dict(nontrivial=b > 0.1, labels=["levels=%d" % n, "beta>10" if b > 10 else "beta<10", case["shape"]], stats=stats, sample={"beta": b, "threshold": t})


def run_filter(case):
    N, r = case["N"], case["r"]
    rng = np.random.default_rng(case["s"])
    x = rng.random(N)
    if case["binary"]:
        x = (x > 0.5) * 1.0
    rad = (min(r[0], N[0] / 4), min(r[1], N[1] / 4))
    arg = rad
    labs = ["odd" if N[0] % 2 or N[1] % 2 else "even", "square" if N[0] == N[1] else "rectangular"]
    if case["scalar"]:
        rad = (min(rad),) * 2
        arg = rad[0]
        labs.append("scalar radius")

    vec = None
    if case["vec"]:
        L = case["L"]
        vec = [[L[0], 0.0], [0.0, L[1]]]
        fac = (L[0] / N[0], L[1] / N[1])
        if case["scalar"]:
            arg = min(rad[k] * fac[k] for k in range(2))
            rad = (arg / fac[0], arg / fac[1])
            if min(rad) < 0.3:
                raise Skip("radius far below the pixels")
        else:
            arg = (rad[0] * fac[0], rad[1] * fac[1])
        labs.append("lattice vectors")

    def F(a, q=None, v=None):
        a = nn.utils.apply_filter(arr(a), arg if q is None else q, **({"vectors": v or vec} if (v or vec) else {}))
        return tonp(a)

    stats = {}
    tail = 0.0
    for k in range(2):
        w = np.exp(-np.linspace(-N[k] / 2, N[k] / 2, N[k]) ** 2 / rad[k] ** 2)
        tail += 1.5 * w[0] / w.sum()
    tol = 1e-12 + 2 * tail
    y = F(x)
    require(y.shape == x.shape, f"filtered map of shape {y.shape}")
    require(np.isrealobj(y) or np.abs(y.imag).max() == 0, "filtered map is complex")
    c = 0.2 + rng.random()
    close("constant", F(np.full(N, c)), np.full(N, c), tol, stats=None)
    close("total", y.sum(), x.sum(), tol, scale=x.sum())
    require(y.min() >= x.min() - tol and y.max() <= x.max() + tol, "filtered values leave the range of the map")
    z = rng.random(N)
    close("linear", F(2 * x - 3 * z), 2 * y - 3 * F(z), 1e-11, stats=stats)
    s = (int(rng.integers(N[0])), int(rng.integers(N[1])))
    close("translation", F(np.roll(x, s, (0, 1))), np.roll(y, s, (0, 1)), 1e-11, stats=stats)
    q = arg if case["scalar"] else arg[::-1]
    v = [[vec[1][1], 0.0], [0.0, vec[0][0]]] if vec else None
    close("exchange of axes", F(x.T.copy(), q, v), y.T, 1e-11, stats=stats)
    if vec:
        close("unit of length", tonp(nn.utils.apply_filter(arr(x), tuple(rad))), y, 1e-11, stats=stats)
    # impulse response
    d = np.zeros(N)
    d[s] = 1.0
    g = F(d)
    require(g.min() > -1e-12, "negative impulse response")
    for k in range(2):
        m = g.sum(axis=1 - k)
        off = (np.arange(N[k]) - s[k] + N[k] // 2) % N[k] - N[k] // 2
        mean = (m * off).sum() / m.sum()
        # samples of the kernel are N/(N-1) pixels apart and may sit between pixels
        require(abs(mean) <= (0.01 if N[k] % 2 else 0.51) + 2 * tail * N[k], f"impulse response shifted by {mean:.2f} pixels along axis {k}")
        if rad[k] >= 1:
            var = (m * (off - mean) ** 2).sum() / m.sum()
            want = 0.5 * rad[k] ** 2 * ((N[k] - 1) / N[k]) ** 2
            require(abs(var - want) <= 0.03 * want + tail * N[k] ** 2, f"variance of the impulse response {var:.3f} along axis {k}, expected {want:.3f}")
    close("no radius", tonp(nn.utils.apply_filter(arr(x), 0)), x, 0)
    close("no radii", tonp(nn.utils.apply_filter(arr(x), (0, 0))), x, 0)
    return dict(nontrivial=max(rad) > 0.5, labels=labs, stats=stats, sample={"N": N, "r": rad})


beta = st.one_of(gen.fl(0.05, 10), gen.fl(0.05, 200), st.integers(0, 7).map(lambda k: float(2**k)))


def lanes():
    i = st.fixed_dictionaries(dict(
        s=gen.seeds, n=st.integers(0, 20), shape=st.sampled_from(["1d", "2d"]), eps=st.lists(st.tuples(gen.fl(-10, 12), gen.fl(0, 3)).map(list), min_size=2, max_size=5),
        cplx=st.booleans(), p=st.sampled_from([1, 1, 2, 3, 4, 1.5])))
    p = st.fixed_dictionaries(dict(s=gen.seeds, n=st.integers(0, 20), shape=st.sampled_from(["1d", "2d"]), beta=beta, t=gen.fl(0.02, 0.98), levels=st.integers(2, 6)))
    f = st.fixed_dictionaries(dict(
        s=gen.seeds, N=st.tuples(st.integers(6, 40), st.integers(6, 40)).map(list), r=st.tuples(gen.fl(0.4, 8), gen.fl(0.4, 8)).map(list),
        scalar=st.booleans(), binary=st.booleans(), vec=st.sampled_from([False, False, True]), L=st.tuples(gen.fl(0.3, 4), gen.fl(0.3, 4)).map(list)))
    b = default_backends()
    return [Lane("interpolation", i, run_interp, 2400, backends=b), Lane("projection", p, run_project, 2400, backends=b), Lane("filter", f, run_filter, 2400, backends=b)]
