"""Strategies for simulation scenes (JSON-able dicts) and their builders."""
import numpy as np
from hypothesis import strategies as st

from .common import Skip, tonp
from .ref import RefSim

# ---------------------------------------------------------------- primitives


def fl(a, b, n=10000):
    """Uniform float on a grid of [a, b]."""
    return st.integers(0, n).map(lambda k: round(a + (b - a) * k / n, 9))


def logu(a, b, n=4000):
    """Log-uniform float on a grid of [a, b]."""
    return st.integers(0, n).map(lambda k: float("%.6g" % (a * (b / a) ** (k / n))))


seeds = st.integers(0, 2**31 - 1)


@st.composite
def lattices_2d(draw, kinds=("square", "rect", "hex", "oblique", "general")):
    kind = draw(st.sampled_from(list(kinds)))
    a = draw(fl(0.5, 1.6))
    if kind == "square":
        v = [[a, 0.0], [0.0, a]]
    elif kind == "rect":
        v = [[a, 0.0], [0.0, a * draw(fl(0.45, 2.0))]]
    elif kind == "hex":
        v = [[a, 0.0], [a * 0.5, a * 3**0.5 / 2]]
    elif kind == "oblique":
        v = [[a, 0.0], [a * draw(fl(-0.6, 0.6)), a * draw(fl(0.6, 1.5))]]
    else:  # rotated, possibly left-handed
        al = draw(fl(0, 360)) * np.pi / 180
        ga = draw(fl(50, 130)) * np.pi / 180 * draw(st.sampled_from([1, -1]))
        b = a * draw(fl(0.55, 1.8))
        v = [
            [a * np.cos(al), a * np.sin(al)],
            [b * np.cos(al + ga), b * np.sin(al + ga)],
        ]
        v = [[round(float(x), 9) for x in r] for r in v]
    return {"kind": "2d", "v": v}


@st.composite
def lattices_1d(draw):
    return {"kind": "1d", "a": draw(fl(0.4, 2.5))}


def basis(lat):
    return np.array(lat["v"], float) if lat["kind"] == "2d" else np.array([[lat["a"], 0], [0, 1.0]])


def recip(lat):
    return 2 * np.pi * np.linalg.inv(basis(lat).T).T


def extent(lat):
    return float(np.sqrt(abs(np.linalg.det(basis(lat))))) if lat["kind"] == "2d" else lat["a"]


def ref_truncation(lat, nh, kind="circular"):
    """Set of harmonics (list of pairs) by the documented rule, written independently."""
    nh = max(int(nh), 2) if nh == 1 else int(nh)
    if lat["kind"] == "1d":
        n = int((nh - 1) / 2)
        return [(i, 0) for i in range(-n, n + 1)]
    if kind == "parallelogrammic":
        r = int(np.sqrt(nh))
        m = (r - 1) // 2
        return [(i, j) for i in range(-m, m + 1) for j in range(-m, m + 1)]
    K = recip(lat)
    m = 2
    while True:
        ij = np.array([(i, j) for i in range(-m, m + 1) for j in range(-m, m + 1)])
        g2 = np.sum((K @ ij.T) ** 2, axis=0)
        edge = np.min(g2[np.max(np.abs(ij), axis=1) == m])
        order = np.argsort(g2, kind="stable")
        if g2[order[min(nh, len(order) - 1)]] < edge * (1 - 1e-9) or m > 60:
            break
        m += 2
    g2, ij = g2[order], ij[order]
    tol = 1e-9 * float(np.max(np.sum(K**2, axis=0)))
    # complete shells, strictly fewer than nh harmonics in total (at least the zeroth)
    n = 1
    for k in range(1, min(nh, len(g2))):
        if g2[k] - g2[k - 1] > tol and k <= nh - 1:
            n = k
    return [tuple(int(x) for x in p) for p in ij[:n]]


# ---------------------------------------------------------------- materials


def cplx(z):
    z = complex(z)
    return [round(z.real, 9), round(z.imag, 9)]


@st.composite
def scalars(draw, lossless=False, metal=True, lo=1.0, hi=9.0):
    if lossless:
        return [draw(fl(lo, hi)), 0.0]
    k = draw(st.sampled_from(["diel", "diel", "loss"] + (["metal"] if metal else [])))
    if k == "diel":
        return [draw(fl(lo, hi)), 0.0]
    if k == "loss":
        return [draw(fl(lo, hi)), draw(fl(0.01, 2.0))]
    # ideal metals too, with either sign of zero for the losses
    return [draw(fl(-12.0, -1.5)), draw(st.one_of(fl(0.05, 1.5), fl(0.05, 1.5), st.sampled_from([0.0, -0.0])))]


@st.composite
def wide_scalars(draw, lossless=False, metal=True, lo=1.0, hi=9.0):
    """Rarer materials: near-zero permittivity, high index, gain-free strong metals."""
    k = draw(st.sampled_from(["usual", "high", "low", "near"] + ([] if lossless or not metal else ["strong", "black"])))
    if k == "high":
        return [draw(fl(9, 30)), 0.0 if lossless else draw(st.sampled_from([0.0, 0.1]))]
    if k == "low":
        return [draw(fl(0.02, 1.0)), 0.0]
    if k == "near":
        return [round(1 + draw(st.sampled_from([-1, 1])) * 10.0 ** -draw(st.integers(1, 8)), 9), 0.0]
    if k == "strong":
        return [draw(fl(-100, -12)), draw(fl(0.5, 40))]
    if k == "black":
        return [draw(fl(-5, 20)), draw(fl(2, 60))]
    return draw(scalars(lossless=lossless, metal=metal, lo=lo, hi=hi))


ideal_metals = st.tuples(fl(-12.0, -1.2), st.sampled_from([0.0, -0.0])).map(list)


@st.composite
def patterns(draw, lossless=False, metal=True, one_d=False, kinds=None, scalars=scalars):
    kinds = kinds or ["noise", "two", "rect", "smooth", "disk"]
    t = draw(st.sampled_from(list(kinds)))
    p = {"t": t}
    if t == "noise":
        p.update(s=draw(seeds), lo=draw(fl(1, 3)), hi=draw(fl(1, 8)))
        p["im"] = 0.0 if lossless else draw(st.sampled_from([0.0, 0.0, 0.3, 1.0]))
    else:
        p["e1"] = draw(scalars(lossless=lossless, metal=metal))
        p["e2"] = draw(scalars(lossless=lossless, metal=False))
        if t in ("two", "smooth"):
            p["s"] = draw(seeds)
        else:
            p["c"] = [draw(fl(0, 1)), draw(fl(0, 1))]
            p["w"] = [draw(fl(0.1, 0.8)), draw(fl(0.1, 0.8))]
    return p


def make_pattern(p, shape):
    """(Nx, Ny) complex array of the pattern on a pixel grid i/Nx, j/Ny."""
    Nx, Ny = shape
    t = p["t"]
    if t == "array":
        return np.array(p["re"], float).reshape(shape) + 1j * np.array(p["im"], float).reshape(shape)
    if t == "noise":
        r = np.random.default_rng(p["s"])
        u = p["lo"] + (p["hi"] - p["lo"]) * r.random(shape)
        return u + 1j * p["im"] * r.random(shape)
    e1, e2 = complex(*p["e1"]), complex(*p["e2"])
    if t == "const":
        return np.full(shape, e1)
    if t == "two":
        r = np.random.default_rng(p["s"])
        m = r.random(shape) < 0.5
        if m.all() or not m.any():
            m[0, 0] = not m[0, 0]
        return np.where(m, e1, e2)
    x = (np.arange(Nx)[:, None] / Nx) * np.ones(shape)
    y = (np.arange(Ny)[None, :] / Ny) * np.ones(shape)
    if t == "smooth":
        r = np.random.default_rng(p["s"])
        f = np.zeros(shape)
        for a in range(0, 3):
            for b in range(0, 3 if Ny > 1 else 1):
                f += r.normal() * np.cos(2 * np.pi * (a * x + b * y) + 2 * np.pi * r.random())
        f = (f - f.min()) / (np.ptp(f) or 1.0)
        return e1 + (e2 - e1) * f
    dx = np.abs((x - p["c"][0] + 0.5) % 1 - 0.5)
    dy = np.abs((y - p["c"][1] + 0.5) % 1 - 0.5) if Ny > 1 else 0 * x
    wx, wy = p["w"][0] / 2, (p["w"][1] / 2 if Ny > 1 else 1.0)
    if t == "rect":
        m = (dx <= wx) & (dy <= wy)
    elif t == "stripex":
        m = dx <= wx
    elif t == "disk":
        m = (dx / wx) ** 2 + (dy / wy) ** 2 <= 1
    else:
        raise KeyError(t)
    if m.all() or not m.any():
        m[0, 0] = not m[0, 0]
    return np.where(m, e1, e2)


NAMES = [
    "Superstrate", "Substrate", "sup", "sub", "a", "b", "layer", "Slab", "Structured", "x y",
    "Ümlaut", "0", "1", "-1", "all", "", "PC slab (copy)", "top", "bot", "hole",
]


@st.composite
def names(draw, n):
    if draw(st.integers(0, 3)) == 0:
        return ["Superstrate"] + [f"L{i}" for i in range(n - 2)] + ["Substrate"]
    return draw(st.permutations(NAMES))[:n]


thicknesses = st.one_of(fl(0.02, 1.2), fl(0.02, 1.2), fl(0.0, 0.1), st.sampled_from([0.0, 3.0, 1e-6]))


@st.composite
def incidences(draw, special=True, wide=False):
    th = draw(fl(0, 89.5)) if wide else draw(st.one_of(fl(0, 80), st.sampled_from([0.0, 0.0, 30.0, 45.0]) if special else fl(0, 80)))
    sg = draw(st.sampled_from([1, 1, 1, -1])) if special else 1
    ph = draw(st.one_of(fl(-180, 360), st.sampled_from([0.0, 90.0, 180.0, 45.0]) if special else fl(0, 90)))
    ps = draw(st.one_of(fl(-90, 180), st.sampled_from([0.0, 90.0, 45.0]) if special else fl(0, 90)))
    return [sg * th, ph, ps]


@st.composite
def scenes(
    draw,
    lat=None,
    inner=(0, 4),
    lossless=False,
    lossless_sub=False,
    metal=True,
    forms=("original",),
    nh=(1, 24),
    nh1d=(1, 31),
    kinds=None,
    need_pattern=False,
    outer_thickness=True,
    user_harm=True,
    thick=None,
    one_d=None,
    aniso=False,
    real_sup=True,
    wl=(0.5, 2.5),
    wide=None,
):
    if wide is None:
        wide = draw(st.integers(0, 5)) == 5
    scal = wide_scalars if wide else scalars
    if lat is None:
        if one_d is None:
            one_d = draw(st.integers(0, 3)) == 0
        lat = draw(lattices_1d() if one_d else lattices_2d())
    one_d = lat["kind"] == "1d"
    form = draw(st.sampled_from([f for f in forms if not (one_d and f in ("jones", "pol"))]))
    trunc = "circular" if one_d else draw(st.sampled_from(["circular", "circular", "parallelogrammic"]))
    n = draw(st.integers(*(nh1d if one_d else nh)))
    hi = (nh1d if one_d else nh)[1]
    if 16 <= hi < 60 and draw(st.integers(0, 39)) == 39:
        n = draw(st.integers(hi, 2 * hi))
    harm = None
    if user_harm and draw(st.integers(0, 5)) == 0:
        pool = [(i, j) for i in range(-3, 4) for j in ([0] if one_d else range(-2, 3)) if (i, j) != (0, 0)]
        k = draw(st.integers(2, min(14, len(pool))))
        sel = draw(st.permutations(pool))[:k]
        pos = draw(st.integers(0, k))
        sel = sel[:pos] + [(0, 0)] + sel[pos:]
        harm = [[int(p[0]) for p in sel], [int(p[1]) for p in sel]]
        hs = sel
    else:
        hs = ref_truncation(lat, n, trunc)
    mx = max(max(abs(p[0]), abs(p[1])) for p in hs)
    N = 2 * mx
    disc = [N + draw(st.integers(1, 9)), 1 if one_d else N + draw(st.integers(1, 9))]
    disc = [max(disc[0], 4), 1 if one_d else max(disc[1], 4)]
    ni = draw(st.integers(*inner))
    if 3 <= inner[1] < 12 and draw(st.integers(0, 24)) == 24:
        # deep stacks: indices with two digits
        ni = draw(st.integers(inner[1] + 1, 12))
    nm = [f"L{i}" for i in range(ni + 2)] if ni + 2 > len(NAMES) else draw(names(ni + 2))
    layers = []
    sup_e = [draw(fl(1, 4)), 0.0] if draw(st.booleans()) else [1.0, 0.0]
    for i in range(ni + 2):
        if i == 0:
            e, h = sup_e, 0.0
        elif i == ni + 1:
            e, h = draw(scal(lossless=lossless or lossless_sub, metal=metal, hi=6.0)), 0.0
            if metal and draw(st.integers(0, 9)) == 9:
                e = draw(ideal_metals)
        else:
            h = draw(thick if thick is not None else thicknesses)
            pat = draw(st.integers(0, 2)) > 0 or (need_pattern and i == 1)
            if pat:
                e = draw(patterns(lossless=lossless, metal=metal, one_d=one_d, kinds=kinds, scalars=scal))
                # aniso: False, True, or the kinds of tensors
                if aniso and draw(st.booleans() if aniso is True else st.integers(0, 3).map(lambda i: i == 3)):
                    kinds_ = ("diag", "herm", "symm", "gen") if aniso is True else aniso
                    e = {"t": "aniso", "base": e, "s": draw(seeds), "off": draw(st.booleans()), "sym": draw(st.sampled_from(kinds_))}
            else:
                e = draw(scal(lossless=lossless, metal=metal))
                if metal and draw(st.integers(0, 9)) == 9:
                    e = draw(ideal_metals)
        if i in (0, ni + 1) and outer_thickness and draw(st.integers(0, 3)) == 0:
            h = draw(fl(0, 1))
        layers.append({"name": nm[i], "h": h, "eps": e})
        if not isinstance(e, dict) and draw(st.integers(0, 3)) == 3:
            layers[i].update({"as": draw(st.sampled_from(["list", "one", "zero", "numpy", "number"])), "ctor": draw(st.booleans())})
        # a layer of the stack again: built as a copy by make_sim
        if 0 < i < ni + 1 and len(layers) > 2 and draw(st.integers(0, 3)) == 3:
            k = draw(st.integers(1, i - 1))
            layers[i] = {**layers[k], "name": nm[i], "h": h, "again": k}
            if draw(st.booleans()):
                layers[i]["h"] = layers[k]["h"]
    return {
        "lat": lat, "trunc": trunc, "harm": harm, "disc": disc, "nh": n, "form": form,
        "wl": round((draw(logu(0.08, 60)) if wide else draw(fl(*wl))) * extent(lat), 9), "ang": draw(incidences(wide=wide)),
        "layers": layers,
    }


# ---------------------------------------------------------------- builders


def eps_of(e, shape):
    if isinstance(e, dict):
        if e["t"] == "tarray":
            return (np.array(e["re"]) + 1j * np.array(e["im"])).reshape((3, 3) + tuple(shape))
        if e["t"] == "aniso":
            b = make_pattern(e["base"], shape)
            r = np.random.default_rng(e["s"])
            z = np.zeros(shape, complex)
            if e["sym"] == "diag":
                T = [[b, z], [z, b * (0.6 + 0.8 * r.random())]]
            elif e["sym"] == "herm":
                o = 0.4 * (r.normal(size=shape) + 1j * r.normal(size=shape))
                T = [[b.real + 1, o], [o.conj(), b.real * (0.6 + 0.8 * r.random()) + 1]]
            elif e["sym"] == "symm":
                o = 0.5 * b * r.normal(size=shape)
                T = [[b, o], [o, b * (0.6 + 0.8 * r.random())]]
            else:
                T = [[b, 0.4 * r.normal() * b], [0.3 * b * r.normal(size=shape), b * (0.6 + 0.8 * r.random())]]
            ezz = b * (0.5 + r.random()) if e["sym"] != "herm" else b.real * (0.5 + r.random())
            out = np.zeros((3, 3) + tuple(shape), complex)
            for i in range(2):
                for j in range(2):
                    out[i, j] = T[i][j]
            out[2, 2] = ezz
            return out
        return make_pattern(e, shape)
    return complex(*e)


def make_lattice(nn, sc, **kw):
    lat = sc["lat"]
    bv = lat["a"] if lat["kind"] == "1d" else tuple(tuple(v) for v in lat["v"])
    harm = sc.get("harm")
    if harm is not None:
        harm = nn.backend.array(np.array(harm, int)) if nn.get_backend() != "torch" else nn.backend.array(harm)
    disc = sc["disc"]
    d = disc[0] if lat["kind"] == "1d" and sc.get("scalar_disc", True) else tuple(disc)
    return nn.Lattice(bv, discretization=d, truncation=sc.get("trunc", "circular"), harmonics_array=harm, **kw)


def to_backend(nn, a):
    if isinstance(a, np.ndarray):
        if "32" in str(nn.get_types()[0]) and a.dtype.kind in "fc":  # arrays in the precision selected
            a = a.astype(np.complex64 if a.dtype.kind == "c" else np.float32)
        return nn.backend.array(np.ascontiguousarray(a))
    return a


def make_layer(nn, lattice, sc, L, set_after=True, **kw):
    e = eps_of(L["eps"], tuple(lattice.discretization))
    if isinstance(e, complex) and e.imag == 0 and not np.signbit(e.imag) and L.get("real", True):
        e = e.real
    if isinstance(e, np.ndarray):
        if set_after:
            lay = lattice.Layer(L["name"], thickness=L["h"], **kw)
            lay.epsilon = to_backend(nn, e)
            return lay
        return lattice.Layer(L["name"], thickness=L["h"], epsilon=to_backend(nn, e), **kw)
    how = L.get("as")  # the ways of giving a number
    if how is None:
        return lattice.Layer(L["name"], thickness=L["h"], epsilon=e, **kw)
    v = {"list": [e], "one": to_backend(nn, np.array([e])), "zero": to_backend(nn, np.array(e)), "numpy": np.complex128(e)}.get(how, e)
    if how == "list" or L.get("ctor"):
        return lattice.Layer(L["name"], thickness=L["h"], epsilon=v, **kw)
    lay = lattice.Layer(L["name"], thickness=L["h"], **kw)
    lay.epsilon = v
    return lay


def make_pw(nn, sc):
    return nn.PlaneWave(wavelength=sc["wl"], angles=tuple(sc["ang"]))


def make_sim(nn, sc, lattice=None, layers=None, pw=None, layer_kw=None):
    lattice = lattice or make_lattice(nn, sc)
    if not layers:
        layers = []
        for L in sc["layers"]:
            k = L.get("again")
            if k is None or k >= len(layers) or sc["layers"][k]["eps"] != L["eps"]:
                layers.append(make_layer(nn, lattice, sc, L, **(layer_kw or {})))
            else:
                layers.append(layers[k].copy(L["name"]))
                if sc["layers"][k]["h"] != L["h"]:
                    layers[-1].thickness = L["h"]
    return nn.Simulation(layers, pw or make_pw(nn, sc), nh=sc["nh"], formulation=sc["form"])


def harmonics_of(sim):
    return tonp(sim.harmonics).astype(int)


COND_MAX = 1e6
QMIN = 2e-3


def guard(ref, cond=COND_MAX, qmin=QMIN):
    """Skip cases the problem itself makes singular or ill-conditioned."""
    try:
        bad = not np.isfinite(ref.cond) or ref.cond > cond or not ref.cond_v <= cond
    except np.linalg.LinAlgError:
        bad = True
    if bad:
        raise Skip("ill-conditioned eigenbasis")
    if ref.min_q < qmin:
        raise Skip("Rayleigh anomaly")
    return ref


def make_ref(sc, harm, rules=None, tangents=None, eps=None):
    lay = []
    for i, L in enumerate(sc["layers"]):
        e = eps_of(L["eps"], tuple(sc["disc"])) if eps is None else eps[i]
        rule = rules[i] if rules else "laurent"
        t = tangents[i] if tangents else None
        if rules is None and sc["form"] == "tangent" and sc["lat"]["kind"] == "1d":
            rule = "li_x"
        if np.ndim(e) == 0:
            rule = "laurent"
        lay.append((e, L["h"], rule, t))
    try:
        with np.errstate(all="ignore"):
            return RefSim(lay, sc["wl"], sc["ang"], recip(sc["lat"]), harm)
    except np.linalg.LinAlgError:
        raise Skip("singular problem") from None


def has_pattern(sc):
    return any(isinstance(L["eps"], dict) for L in sc["layers"])


def scene_labels(sc):
    nl = len(sc["layers"])
    labs = [sc["lat"]["kind"], f"layers={nl}", "form=" + sc["form"]]
    labs.append("patterned=%d" % sum(isinstance(L["eps"], dict) for L in sc["layers"]))
    if sc.get("harm") is not None:
        labs.append("user harmonics")
    if sc["lat"]["kind"] == "2d":
        labs.append("trunc=" + sc["trunc"])
        labs.append("Nx!=Ny" if sc["disc"][0] != sc["disc"][1] else "Nx==Ny")
    labs.append("normal" if sc["ang"][0] == 0 else "oblique")
    return labs
