"""C28: mistakes are refused wherever they appear, valid problems are not."""
import copy

import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..common import Lane, Skip, close, default_backends, import_nannos, require, tonp

nn = import_nannos()
RULE = (
    "A case is a generated valid problem; every kind of mistake that applies is put into it, one at a time, in a random position "
    "(layer, pair of layers, axis, argument).  Oracle: every mistake raises, at the latest when the efficiencies "
    "or the quantity asked for are computed; the problem without mistakes, rebuilt or sharing its layers with the "
    "refused one, is solved and gives the same finite efficiencies before and after.  Non-trivial: at least one "
    "mistake applies to the problem."
)
ASSUMPTIONS = ["any exception counts as a refusal", "one mistake at a time"]

FORMS = ["Original", "ORIGINAL", "tangents", "tan", "", "jone", "Jones", "pols", "li", "normal", "original ", None, 0]
TRUNC = ["Circular", "circ", "", "parallelogram", "parallelogramic", "square", "1D", None, "circular "]
TTYPES = ["Opt", "", "min", "FFT", "opt ", "fourier", "none", "pol"]
BACKENDS = ["Numpy", "np", "", "tensorflow", "pytorch", "cupy", "numpy ", None]


def refused(what, fun):
    try:
        out = fun()
    except Exception:
        return
    require(False, f"accepted: {what} (result {str(out)[:80]})")


def effs(sim):
    return np.array([tonp(v) for v in sim.diffraction_efficiencies()])


def build(sc, lattice=None, layers=None, **kw):
    lattice = lattice or gen.make_lattice(nn, sc)
    layers = layers or [gen.make_layer(nn, lattice, sc, L) for L in sc["layers"]]
    kw.setdefault("nh", sc["nh"])
    kw.setdefault("formulation", sc["form"])
    return nn.Simulation(layers, gen.make_pw(nn, sc), **kw)


def layers_of(sim):
    return list(sim.layers)


# every mistake: function(problem, valid simulation, generator) -> (label, what, function to refuse) or None


def m_formulation(sc, sim, r):
    f = FORMS[r.integers(len(FORMS))]
    lay = layers_of(sim) if r.random() < 0.5 else None
    return f"formulation {f!r}", lambda: effs(build(sc, sim.lattice, lay, formulation=f))


def m_formulation_1d(sc, sim, r):
    if sc["lat"]["kind"] != "1d":
        return None
    f = ["jones", "pol"][r.integers(2)]
    return f"{f} for a 1D grating", lambda: effs(build(sc, formulation=f))


def m_names(sc, sim, r):
    n = len(sc["layers"])
    i, j = (int(k) for k in r.choice(n, 2, replace=False))
    bad = copy.deepcopy(sc)
    bad["layers"][j]["name"] = bad["layers"][i]["name"]
    return f"layers {i} and {j} of {n} called {bad['layers'][i]['name']!r}", lambda: effs(build(bad))


def m_copy_name(sc, sim, r):
    lay = layers_of(sim)
    i = int(r.integers(len(lay)))
    k = int(r.integers(1, len(lay) + 1))
    c = lay[i].copy(name=lay[i].name)
    return f"a copy of layer {i} with its name", lambda: effs(build(sc, sim.lattice, lay[:k] + [c] + lay[k:]))


def m_same_layer(sc, sim, r):
    lay = layers_of(sim)
    i = int(r.integers(len(lay)))
    k = int(r.integers(1, len(lay) + 1))
    return f"layer {i} twice", lambda: effs(build(sc, sim.lattice, lay[:k] + [lay[i]] + lay[k:]))


def m_lattice(sc, sim, r):
    other = copy.deepcopy(sc)
    if sc["lat"]["kind"] == "1d":
        other["lat"]["a"] *= 1.25
    else:
        k = int(r.integers(2))
        other["lat"]["v"][k] = [1.2 * x for x in other["lat"]["v"][k]]
    i = int(r.integers(len(sc["layers"])))
    lat2 = gen.make_lattice(nn, other)

    def f():
        lay = [gen.make_layer(nn, lat2 if k == i else sim.lattice, sc, L) for k, L in enumerate(sc["layers"])]
        return effs(build(sc, sim.lattice, lay))

    return f"layer {i} on another lattice", f


def m_thickness(sc, sim, r):
    i = int(r.integers(len(sc["layers"])))
    h = float([-1e-9, -1e-3, -0.3, -7.0][r.integers(4)])
    bad = copy.deepcopy(sc)
    bad["layers"][i]["h"] = h
    direct = bool(r.random() < 0.5)

    def f():
        if direct:
            return nn.Layer("x", thickness=h) if r.random() < 0.5 else sim.lattice.Layer("x", h)
        return effs(build(bad))

    return f"thickness {h} of layer {i}", f


def m_mu(sc, sim, r):
    i = int(r.integers(len(sc["layers"])))
    mu = [2.0, 0.999, 1.5 + 0.1j, -1.0, 0.0, 1 + 1e-3j][r.integers(6)]

    def f():
        lay = [gen.make_layer(nn, sim.lattice, sc, L, **({"mu": mu} if k == i else {})) for k, L in enumerate(sc["layers"])]
        return effs(build(sc, sim.lattice, lay))

    return f"mu={mu} in layer {i}", f


def m_tensor(sc, sim, r):
    i = int(r.integers(len(sc["layers"])))
    T = np.diag(2 + r.random(3)).astype(complex)
    if r.random() < 0.5:
        T[0, 1], T[1, 0] = 0.2j, -0.2j

    def f():
        lay = layers_of(build(sc))
        lay = [gen.make_layer(nn, lay[0].lattice, sc, L) for L in sc["layers"]]
        if r.random() < 0.5:
            lay[i].epsilon = gen.to_backend(nn, T)
        else:
            lay[i] = lay[0].lattice.Layer(sc["layers"][i]["name"], thickness=sc["layers"][i]["h"], epsilon=T.tolist())
        return effs(build(sc, lay[0].lattice, lay))

    return f"uniform tensor in layer {i}", f


def m_truncation(sc, sim, r):
    t = TRUNC[r.integers(len(TRUNC))]
    bad = dict(sc, trunc=t)
    return f"truncation {t!r}", lambda: effs(build(bad))


def m_resolution(sc, sim, r):
    H = np.abs(gen.harmonics_of(sim)).max(axis=1)
    ax = [k for k in range(2) if H[k] > 0 and (k == 0 or sc["lat"]["kind"] == "2d")]
    if not ax:
        return None
    k = int(r.choice(ax))
    bad = copy.deepcopy(sc)
    bad["disc"][k] = int([2 * H[k], r.integers(1, 2 * H[k] + 1)][r.integers(2)])
    for L in bad["layers"]:
        if isinstance(L["eps"], dict) and "base" in L["eps"]:
            L["eps"] = L["eps"]["base"]
    return f"discretization {bad['disc']} for harmonics up to {H.tolist()}", lambda: build(bad)


def m_negative_harmonics(sc, sim, r):
    one = sc["lat"]["kind"] == "1d"
    n = int(r.integers(1, 5))
    h = [[-k for k in range(n + 1)], [0] * (n + 1)]
    if not one and r.random() < 0.5:
        h = h[::-1]
    bad = copy.deepcopy(sc)
    bad["harm"] = h
    k = int(np.argmax(np.abs(np.array(h)).max(axis=1)))
    bad["disc"] = [max(bad["disc"][0], 2 * n + 1), 1 if one else max(bad["disc"][1], 2 * n + 1)]
    bad["layers"] = [dict(L, eps=L["eps"] if not isinstance(L["eps"], dict) else L["eps"].get("base", L["eps"])) for L in bad["layers"]]
    ok = copy.deepcopy(bad)
    build(ok)  # fine enough
    bad["disc"][k] = int(r.integers(1, 2 * n + 1))
    return f"discretization {bad['disc']} for harmonics down to {-n}", lambda: build(bad)


def m_tangent_type(sc, sim, r):
    if sc["lat"]["kind"] == "1d" or not gen.has_pattern(sc):
        return None
    pats = [k for k, L in enumerate(sc["layers"]) if isinstance(L["eps"], dict)]
    i = pats[r.integers(len(pats))]
    t = TTYPES[r.integers(len(TTYPES))]
    form = ["tangent", "jones", "pol"][r.integers(3)]
    if t and r.random() < 0.3:
        return f"tangent field type {t!r} requested from layer {i}", lambda: sim.layers[i].get_tangent_field(sim.harmonics, type=t)

    def f():
        lay = [gen.make_layer(nn, sim.lattice, sc, L, **({"tangent_field_type": t} if k == i else {"tangent_field_type": "fft"})) for k, L in enumerate(sc["layers"])]
        return effs(build(sc, sim.lattice, lay, formulation=form))

    return f"tangent field type {t!r} in layer {i} with {form}", f


def m_number(sc, sim, r):
    if sc["harm"] is not None:
        return None
    nh = float(r.integers(1, 30)) + [0.5, 0.25, 1e-3][r.integers(3)]
    return f"nh={nh}", lambda: sim.lattice.get_harmonics(nh)


def m_shape(sc, sim, r):
    if sc["lat"]["kind"] != "1d":
        return None
    L = sim.lattice
    k = int(r.integers(5))
    c = (0.5, 0.5)
    f = [
        lambda: L.circle(c, 0.2), lambda: L.ellipse(c, (0.2, 0.1), rotate=20), lambda: L.square(c, 0.3),
        lambda: L.rectangle(c, (0.3, 0.2)), lambda: L.polygon([(0, 0), (1, 0), (1, 1)])][k]
    return ["circle", "ellipse", "square", "rectangle", "polygon"][k] + " on a 1D lattice", f


def m_plot(sc, sim, r):
    import matplotlib.pyplot as plt

    i = int(r.integers(len(sim.layers)))
    kw = [dict(comp="real"), dict(comp="Re"), dict(comp=""), dict(comp="abs"), dict(comp=None), dict(nper=1.5),
          dict(nper=(1, 2, 3)), dict(nper=(1,)), dict(nper=None)][r.integers(9)]

    def f():
        fig = plt.figure()
        try:
            return sim.layers[i].plot(ax=fig.gca(), **kw)
        finally:
            plt.close(fig)

    return f"plot of layer {i} with {kw}", f


def m_field(sc, sim, r):
    i = int(r.integers(len(sim.layers)))
    kw = [dict(field="e"), dict(field="Ex"), dict(field=""), dict(field="EH"), dict(field="D"), dict(field=None), dict(component="X"),
          dict(component=""), dict(component="xy"), dict(component="t"), dict(component=0), dict(component=None)][r.integers(12)]
    sh = tuple(sc["disc"])
    if "component" in kw and r.random() < 0.6:
        m = [sim.get_Efield_grid, sim.get_Hfield_grid][r.integers(2)]
        return f"fields with {kw}", lambda: m(i, shape=sh, **kw)
    if r.random() < 0.5:
        kw = dict(kw, **({"component": "x"} if "field" in kw else {"field": "E"}))
    return f"fields with {kw}", lambda: sim.get_field_grid(i, shape=sh, **kw)


def m_layer_id(sc, sim, r):
    n = len(sim.layers)
    bad = ["no such layer", sim.layers[0].name + "_", 1.5, None, n, -n - 1, n + 7][r.integers(7)]
    if isinstance(bad, str) and bad in [L["name"] for L in sc["layers"]]:
        return None
    f = [
        lambda: sim.get_layer(bad), lambda: sim.get_layer_by_name(bad), lambda: sim.get_field_fourier(bad, 0.1),
        lambda: sim.get_field_grid(bad, shape=tuple(sc["disc"])), lambda: sim.get_z_stress_tensor_integral(bad),
        lambda: sim.get_epsilon(bad)][r.integers(6)]
    return f"layer {bad!r}", f


def m_foreign_layer(sc, sim, r):
    lay = sim.lattice.Layer("a layer from elsewhere", thickness=1)
    return "a layer of another stack", lambda: sim.get_layer(lay)


def m_order(sc, sim, r):
    H = [tuple(int(v) for v in h) for h in gen.harmonics_of(sim).T]
    one = sc["lat"]["kind"] == "1d"
    while True:
        o = (int(r.integers(-12, 13)), int(r.integers(-12, 13)))
        if o not in H:
            break
    bad = [o, o, 0 if not one else 40, 2.5][r.integers(4)]
    A = sim.diffraction_efficiencies(orders=True)[0]
    return f"order {bad}", lambda: sim.get_order(A, bad)


def m_backend(sc, sim, r):
    b = BACKENDS[r.integers(len(BACKENDS))]
    now = nn.get_backend()

    def f():
        try:
            return nn.set_backend(b)
        finally:
            require(nn.get_backend() == now, f"refused backend {b!r} changed the backend to {nn.get_backend()}")

    return f"backend {b!r}", f


MISTAKES = dict(
    formulation=m_formulation, formulation_1d=m_formulation_1d, names=m_names, copy_name=m_copy_name, same_layer=m_same_layer,
    lattice=m_lattice, thickness=m_thickness, mu=m_mu, tensor=m_tensor, truncation=m_truncation, resolution=m_resolution,
    negative_harmonics=m_negative_harmonics, tangent_type=m_tangent_type, number=m_number, shape=m_shape, plot=m_plot,
    field=m_field, layer_id=m_layer_id, foreign_layer=m_foreign_layer, order=m_order, backend=m_backend)


def run(case):
    sc = case["sc"]
    sim = build(sc)
    gen.guard(gen.make_ref(sc, gen.harmonics_of(sim)))
    want = effs(sim)
    require(np.all(np.isfinite(want)), "a valid problem has no finite solution")
    labs, todo = [sc["lat"]["kind"]], []
    if case["nhf"] and sc["harm"] is None:
        # whole numbers of any type
        same = effs(build(sc, nh=float(sc["nh"])))
        close("nh given as a float", same, want, 0)
    for n, kind in enumerate(MISTAKES):
        if case["only"] not in (None, kind):
            continue
        r = np.random.default_rng([case["s"], n])
        m = MISTAKES[kind](sc, sim, r)
        if m is None:
            continue
        what, f = m
        refused(what, f)
        labs.append(kind)
        todo.append(what)
        if kind in ("formulation", "copy_name", "same_layer"):
            close(f"solution kept after {kind}", effs(sim), want, 1e-12)
    if not todo:
        raise Skip("no mistake applies")
    close("solution kept", effs(sim), want, 1e-12)
    sim.reset()
    close("solved again", effs(sim), want, 1e-9)
    close("built again", effs(build(sc)), want, 1e-9)
    # what is valid stays accepted
    n = len(sim.layers)
    for k in (0, n - 1, -1, -n, sim.layers[n // 2].name, sim.layers[-1]):
        L, i = sim.get_layer(k)
        require(L is sim.layers[i], f"get_layer({k!r}) gives layer {L} and index {i}")
    return dict(nontrivial=bool(todo), labels=labs, stats={}, sample={"mistakes": todo})


def lanes():
    k = list(MISTAKES)
    c = st.fixed_dictionaries(dict(
        sc=gen.scenes(inner=(0, 3), forms=("original", "original", "tangent"), nh=(1, 13), nh1d=(1, 13), kinds=["noise", "two", "rect"], one_d=None, metal=False).filter(
            lambda s: not (s["form"] == "tangent" and s["lat"]["kind"] == "2d")),
        s=gen.seeds, only=st.one_of(st.none(), st.none(), st.none(), st.sampled_from(k)), nhf=st.booleans()))
    return [Lane("mistakes", c, run, 1200, backends=default_backends())]
