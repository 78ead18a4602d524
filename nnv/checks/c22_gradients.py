"""C22: gradients are the derivatives of what is computed."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..common import Lane, Skip, Violation, close, import_nannos, require, tonp

nn = import_nannos()
bk = nn.backend
RULE = (
    "A case is a grating problem in any formulation ('fft' tangential field), a real output (weighted efficiencies "
    "of the orders, squared complex amplitudes, field intensity at a depth, stress) and parameters: wavelength, the "
    "three angles, thicknesses, real and imaginary parts of permittivities, contrast of a map (lane scalars), or a "
    "whole density map filtered, projected and interpolated (lane maps).  Oracle: fourth-order finite differences of "
    "the same output; the analytical gradient for functions of arrays with closed forms (lane closed forms).  "
    "Non-trivial: patterned layer and a derivative larger than 1e-3; several parameters and slopes up to 100."
)
ASSUMPTIONS = [
    "eigenvalues of every layer separated by 1e-6 (the derivative of an eigenvector is not defined otherwise)",
    "cases where finite differences with two steps disagree are left out",
]
H = 5e-4


def fd(f, x, d, h=H):
    v = [f(x + k * h * d) for k in (-2, -1, 1, 2)]
    return (v[0] - 8 * v[1] + 8 * v[2] - v[3]) / (12 * h)


def number(v):
    return float(np.real(tonp(v)))


def check(name, f, x, d, got, stats, tol=2e-5):
    a, b = fd(f, x, d), fd(f, x, d, H / 2)
    s = max(1.0, abs(b))
    if not abs(a - b) < 2e-6 * s:
        raise Skip("not smooth enough for finite differences")
    require(np.isfinite(got), f"derivative with respect to {name} is {got}")
    err = abs(got - b) / s
    stats["derivative"] = max(stats.get("derivative", 0), err)
    if err > tol:
        # the step may still be too coarse: confirm with smaller ones before accusing
        c = fd(f, x, d, H / 8)
        if abs(c - b) > 0.1 * abs(got - b):
            raise Skip("not smooth enough for finite differences")
        raise Violation(f"derivative with respect to {name}: {got!r}, finite differences give {b!r}")
    return abs(b)


def separated(sc, harm):
    rules = None
    ref = gen.guard(gen.make_ref(dict(sc, form="original" if sc["lat"]["kind"] == "2d" else sc["form"]), harm, rules=rules), cond=1e4, qmin=3e-2)
    for L in ref.layers:
        if L.uniform:
            continue
        l = (L.q / ref.w) ** 2
        gap = np.abs(l[:, None] - l[None, :]) + 10 * np.eye(len(l))
        if gap.min() < 1e-6:
            raise Skip("degenerate modes")
    return ref


def output(sim, case, sc):
    r = np.random.default_rng(case["w"])
    h = gen.harmonics_of(sim)
    wt = {tuple(p): w for p, w in zip(map(tuple, sorted(map(tuple, h.T))), r.random((h.shape[1], 2)))}
    W = np.array([wt[tuple(p)] for p in h.T])
    k = case["out"]
    if k == "orders":
        R, T = sim.diffraction_efficiencies(orders=True)
        return bk.sum(bk.array(W[:, 0]) * R) + bk.sum(bk.array(W[:, 1]) * T)
    if k == "totals":
        R, T = sim.diffraction_efficiencies()
        return 0.7 * R - 0.4 * T
    if k == "one":
        R, T = sim.diffraction_efficiencies(orders=True)
        return sim.get_order(T, (0, 0)) + 0.5 * sim.get_order(R, (0, 0))
    l = case["l"] % len(sc["layers"])
    if k == "field":
        F = sim.get_field_fourier(l, case["z"])
        return bk.sum(bk.abs(F[0, 0]) ** 2) + 0.3 * bk.sum(bk.abs(F[0, 1, 1]) ** 2)
    Tx, Ty, Tz = sim.get_z_stress_tensor_integral(l, case["z"])
    return 0.3 * Tx + 0.2 * Ty + Tz


def build(sc, case, x, lattice):
    """x: list of numbers or a traced vector - wavelength, angles, thicknesses, permittivities, contrasts"""
    i = 0
    pw = nn.PlaneWave(wavelength=x[0] * sc["wl"], angles=(x[1], x[2], x[3]))
    i = 4
    layers = []
    for n, L in enumerate(sc["layers"]):
        h = L["h"]
        if 0 < n < len(sc["layers"]) - 1:
            h = x[i]
            i += 1
        e = gen.eps_of(L["eps"], tuple(lattice.discretization))
        if np.ndim(e) == 0:
            if n == 0:
                eps = x[i]
                i += 1
            else:
                eps = x[i] + 1j * x[i + 1]
                i += 2
            layers.append(lattice.Layer(L["name"], thickness=h, epsilon=eps))
        else:
            lay = lattice.Layer(L["name"], thickness=h, tangent_field_type="fft")
            m = np.full(e.shape, e.mean()) if e.ndim == 2 else np.einsum("ij,xy->ijxy", np.eye(3), np.full(e.shape[2:], e[2, 2].mean()))
            lay.epsilon = bk.array(m) + x[i] * bk.array(e - m)
            i += 1
            layers.append(lay)
    return nn.Simulation(layers, pw, nh=sc["nh"], formulation=sc["form"])


def start(sc):
    x, names = [1.0] + list(sc["ang"]), ["wavelength", "theta", "phi", "psi"]
    for n, L in enumerate(sc["layers"]):
        if 0 < n < len(sc["layers"]) - 1:
            x.append(L["h"])
            names.append("thickness of layer %d" % n)
        if isinstance(L["eps"], dict):
            x.append(1.0)
            names.append("contrast of layer %d" % n)
        elif n == 0:
            x.append(L["eps"][0])
            names.append("permittivity of the superstrate")
        else:
            x += L["eps"]
            names += ["Re permittivity of layer %d" % n, "Im permittivity of layer %d" % n]
    return np.array(x, float), names


def field_ok(sc, lattice, layers):
    if sc["form"] == "original" or sc["lat"]["kind"] == "1d":
        return
    for lay in layers:
        if not lay.is_uniform:
            t = [tonp(c).real for c in lay.get_tangent_field(None)]
            if np.hypot(*t).min() < 2e-2:
                raise Skip("vanishing tangential field")


def run_scalars(case):
    sc = case["scene"]
    lattice = gen.make_lattice(nn, sc)
    x0, names = start(sc)
    unit = np.array([90.0 / np.pi if n in ("theta", "phi", "psi") else 1.0 for n in names])

    def f(x):
        return output(build(sc, case, x, lattice), case, sc)

    sim = build(sc, case, bk.array(x0), lattice)
    separated(sc, gen.harmonics_of(sim))
    field_ok(sc, lattice, sim.layers)
    val = number(f(bk.array(x0)))
    g = tonp(nn.grad(f)(bk.array(x0)))
    require(g.shape == x0.shape, f"gradient of shape {g.shape}")
    g = np.real(g) * unit

    def fn(x):
        return number(f(bk.array(x)))

    stats, big = {}, 0.0
    pick = np.random.default_rng(case["w"]).permutation(len(x0))[:4]
    labs = []
    for j in pick:
        d = np.zeros(len(x0))
        d[j] = unit[j]
        if names[j].startswith("Im") and x0[j] < 0.02:
            pass  # gain for a moment: still smooth
        big = max(big, check(names[j], fn, x0, d, g[j], stats))
        labs.append(names[j].split(" of")[0])
    d = np.random.default_rng(case["w"] + 1).normal(size=len(x0)) * 0.3
    check("all parameters together", fn, x0, d * unit, float(g @ d), stats)
    require(np.isfinite(val), "non-finite value")
    return dict(nontrivial=gen.has_pattern(sc) and big > 1e-3, labels=gen.scene_labels(sc) + ["d/d " + l for l in labs] + ["output " + case["out"]],
                stats=stats, sample={"value": val, "gradient": g.tolist()})


def run_maps(case):
    sc = case["scene"]
    lattice = gen.make_lattice(nn, sc)
    shape = tuple(lattice.discretization)
    r = np.random.default_rng(case["s"])
    x0 = 0.1 + 0.8 * r.random(int(np.prod(shape)))
    pat = [i for i, L in enumerate(sc["layers"]) if isinstance(L["eps"], dict)]
    one_d = sc["lat"]["kind"] == "1d"

    def eps_map(x):
        d = bk.reshape(x, shape)
        if case["filter"] and not one_d:
            d = nn.utils.apply_filter(d, case["rfilt"])
        if case["project"] == 1:
            d = nn.optimize.project(d, case["beta"])
        elif case["project"] == 2:
            d = nn.optimize.multi_project(d, case["beta"], 3)
        if case["simp"] == 1:
            return nn.optimize.simp(d, 1.5, 6.0, case["p"])
        if case["simp"] == 2:
            return nn.optimize.multi_simp(d, [1.5, 3.0, 6.0], case["p"])
        return 2.0 + 3.0 * d

    def sim_of(x):
        layers = []
        for i, L in enumerate(sc["layers"]):
            if i in pat:
                lay = lattice.Layer(L["name"], thickness=L["h"], tangent_field_type="fft")
                lay.epsilon = eps_map(x) * (1.0 + 0.1 * i) + 0j
                layers.append(lay)
            else:
                layers.append(gen.make_layer(nn, lattice, sc, L))
        return nn.Simulation(layers, gen.make_pw(nn, sc), nh=sc["nh"], formulation=sc["form"])

    def f(x):
        return output(sim_of(x), case, sc)

    sim = sim_of(bk.array(x0))
    sc2 = dict(sc, layers=[dict(L) for L in sc["layers"]])
    for i in pat:
        e = tonp(sim.layers[i].epsilon)
        require(e.shape == shape, f"map of shape {e.shape}")
        sc2["layers"][i]["eps"] = {"t": "array", "re": e.real.ravel().tolist(), "im": e.imag.ravel().tolist()}
    separated(sc2, gen.harmonics_of(sim))
    field_ok(sc, lattice, sim.layers)
    g = np.real(tonp(nn.grad(f)(bk.array(x0))))
    require(g.shape == x0.shape, f"gradient of shape {g.shape}")

    def fn(x):
        return number(f(bk.array(x)))

    stats, big = {}, 0
    for k in range(2):
        d = r.normal(size=x0.shape)
        d /= np.linalg.norm(d)
        big = max(big, check("the density map", fn, x0, d, float(g @ d), stats))
    d = g / (np.linalg.norm(g) or 1)
    big = max(big, check("the density map along its gradient", fn, x0, d, float(g @ d), stats))
    j = int(r.integers(len(x0)))
    d = np.zeros(len(x0))
    d[j] = 1
    check("one pixel", fn, x0, d, g[j], stats)
    return dict(nontrivial=big > 1e-3, labels=gen.scene_labels(sc) + [f"filter={case['filter']}", f"project={case['project']}", f"simp={case['simp']}", "output " + case["out"]],
                stats=stats, sample={"slope": float(np.linalg.norm(g))})


def scene(draw, forms, **kw):
    sc = draw(gen.scenes(inner=(1, 2), need_pattern=True, nh=(5, 14), nh1d=(5, 15), forms=forms, outer_thickness=False,
                         thick=gen.fl(0.1, 0.8), kinds=["noise", "smooth"], metal=False, **kw))
    sc["ang"] = [draw(gen.fl(4, 50)), draw(gen.fl(10, 80)), draw(gen.fl(10, 80))]
    if sc["lat"]["kind"] == "1d" and draw(st.booleans()):
        sc["ang"][1] = 0.0
    return sc


OUT = ["orders", "totals", "one", "field", "field", "stress"]


@st.composite
def scalar_cases(draw):
    sc = scene(draw, ("original", "original", "tangent", "pol", "jones"), aniso=("diag", "herm", "symm", "gen"))
    out = draw(st.sampled_from(OUT))
    return {"scene": sc, "out": out, "w": draw(gen.seeds), "l": draw(st.integers(0, 3)), "z": draw(gen.fl(0, 0.1))}


@st.composite
def map_cases(draw):
    sc = scene(draw, ("original", "original", "tangent", "pol", "jones"), user_harm=False)
    return {"scene": sc, "out": draw(st.sampled_from(OUT[:4])), "w": draw(gen.seeds), "l": draw(st.integers(0, 3)), "z": draw(gen.fl(0, 0.1)),
            "s": draw(gen.seeds), "filter": draw(st.booleans()), "rfilt": draw(gen.fl(0.6, 2)), "project": draw(st.integers(0, 2)),
            "beta": draw(gen.fl(0.5, 6)), "simp": draw(st.integers(0, 2)), "p": draw(st.integers(1, 3))}


def run_closed(case):
    r = np.random.default_rng(case["s"])
    shape = tuple(case["shape"])
    a, b = r.normal(size=shape), r.random(shape)
    k = 10.0 ** (case["k"] * r.random(shape))
    x = r.normal(size=shape)
    A, B, K = bk.array(a), bk.array(b), bk.array(k)

    def f(x, c, *rest, d=1.0):
        y = bk.sum(A * bk.sin(K * x + B)) * c + d * bk.sum(B * x**3)
        z = bk.sum(bk.abs((A + 1j * B) * x) ** 2) + bk.real(bk.sum(bk.exp(1j * K * x) * (B - 1j * A)))
        return y + z + sum(rest)

    kw = {"d": case["d"]} if case["kw"] else {}
    d = case["d"] if case["kw"] else 1.0
    rest = (2.5, 3) if case["rest"] else ()
    arg = bk.array(x) if case["own"] else x.copy()
    got = tonp(nn.grad(f)(arg, case["c"], *rest, **kw))
    ph = k * x + b
    e = 1j * k * np.exp(1j * k * x) * (b - 1j * a)
    want = case["c"] * a * k * np.cos(ph) + 3 * d * b * x**2 + 2 * (a**2 + b**2) * x + e.real
    stats = {}
    require(got.shape == shape, f"gradient of shape {got.shape} for parameters of shape {shape}")
    require(np.isrealobj(got) and got.dtype == np.float64, f"gradient of type {got.dtype}")
    close("gradient", got, want, 1e-12 * k.max(), scale=k.max(), stats=stats)
    require(np.array_equal(tonp(arg), x), "the parameters were modified")
    return dict(nontrivial=x.size > 1 and case["k"] > 2, labels=["%dd" % len(shape), "own array" if case["own"] else "numpy array"] + (["keywords"] if kw else []),
                stats=stats, sample={"gradient": got.ravel()[:3].tolist()})


def closed_cases():
    return st.fixed_dictionaries(dict(
        s=gen.seeds, shape=st.lists(st.integers(1, 5), min_size=1, max_size=2), k=gen.fl(0, 6), c=gen.fl(-2, 2), d=gen.fl(-2, 2),
        kw=st.booleans(), rest=st.booleans(), own=st.booleans()))


def lanes():
    bk = [("autograd", 0.5), ("torch", 0.5)]
    return [Lane("scalars", scalar_cases(), run_scalars, 640, backends=bk), Lane("maps", map_cases(), run_maps, 400, backends=bk),
            Lane("closed forms", closed_cases(), run_closed, 600, backends=bk)]
