"""C19: the tangential and Jones fields built from a permittivity map."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..common import Lane, Violation, close, default_backends, import_nannos, require, tonp

nn = import_nannos()
from nannos.formulations.jones import get_jones_field  # noqa: E402
from nannos.formulations.tangent import get_tangent_field  # noqa: E402

RULE = (
    "A case is a permittivity map (random pixels, stripes, ellipses, smooth; 5 to 140 points per side, unequal), a "
    "kind of field and a number of harmonics.  Oracles: one finite real vector per pixel, largest or every length "
    "equal to one, independence of a positive gain and of an offset, the phase of the contrast (losses) and rounding noise, exchange of the axes, stripes give the "
    "direction of the stripe, closed outlines give a field along the outline with a constant sense of rotation, "
    "translation by whole pixels, Jones field: closed form, unit length, linear on the outline.  Non-trivial: the "
    "map is not constant."
)
ASSUMPTIONS = [
    "fields are defined on the pixel grid (geometric tangency only for square pixels)",
    "single-precision intermediates in one backend: tolerance 3e-5",
]
TOL = 1e-9 if nn.get_backend() != "torch" else 3e-5


def field(case, g, harm, normalize, rfilt=None):
    kw = {} if rfilt is None else {"rfilt": rfilt}
    if case["type"] == "opt" and case["nofilt"]:
        kw["rfilt"] = 0
    t = get_tangent_field(gen.to_backend(nn, np.array(g, complex)), harm, normalize=normalize, type=case["type"], **kw)
    require(len(t) == 2, f"{len(t)} components")
    out = []
    for c in t:
        c = tonp(c)
        require(c.shape == g.shape, f"tangential field of shape {c.shape} for a map of shape {g.shape}")
        require(np.all(np.isfinite(c)), "non-finite tangential field")
        require(np.max(np.abs(np.imag(c))) == 0, "complex tangential field")
        out.append(np.real(c).astype(float))
    return np.array(out)


def make_map(case):
    Nx, Ny = case["n"]
    k = case["kind"]
    r = np.random.default_rng(case["s"])
    i, j = np.arange(Nx)[:, None] * np.ones((1, Ny)), np.arange(Ny)[None, :] * np.ones((Nx, 1))
    e1, e2 = case["e1"], case["e2"]
    if case.get("ph") is not None:  # lossy: the contrast has a phase
        e2 = e1 + (e2 - e1) * np.exp(1j * case["ph"])
    if k == "noise":
        return e1 + (e2 - e1) * r.random((Nx, Ny)), None
    if k == "smooth":
        f = np.zeros((Nx, Ny))
        for a in range(3):
            for b in range(3):
                f += r.normal() * np.cos(2 * np.pi * (a * i / Nx + b * j / Ny) + 6.3 * r.random())
        return e1 + (e2 - e1) * (f - f.min()) / np.ptp(f), None
    if k == "stripe":
        u, n = ((i, Nx), (j, Ny))[case["axis"]]
        w = max(2, min(n - 2, int(round(case["f"] * n))))
        return np.where((u - case["sh"]) % n < w, e2, e1), None
    # ellipse, away from the edges of the cell
    c = (Nx / 2 + case["c"][0] * 2, Ny / 2 + case["c"][1] * 2)
    a, b = case["r"][0] * Nx, case["r"][1] * Ny
    F = ((i - c[0]) / a) ** 2 + ((j - c[1]) / b) ** 2
    nrm = np.array([(i - c[0]) / a**2, (j - c[1]) / b**2])
    nrm = nrm / (np.hypot(*nrm) + 1e-15)
    return np.where(F < 1, e2, e1), (F, nrm, min(a, b))


def run(case):
    g, geo = make_map(case)
    Nx, Ny = g.shape
    lat = nn.Lattice(((1.0, 0.0), (0.0, 1.0)), discretization=(Nx, Ny), truncation="parallelogrammic")
    harm, nh = lat.get_harmonics(case["nh"], sort=True)
    hn = tonp(harm).astype(int)
    typ = case["type"]
    stats = {}
    t = field(case, g, harm, False)
    n = np.hypot(*t)
    const = np.ptp(g) == 0 or (typ == "opt" and hn.shape[1] <= 1)
    if np.ptp(n) == 0 and n.max() < 1e-6:
        const = True
    if not const:
        close("largest length", n.max(), 1.0, 1e-6, stats=stats)
        u = field(case, g, harm, True)
        ln = np.hypot(*u)
        big = n > 1e-4
        close("unit length", ln, np.ones_like(ln), 1e-4, stats=stats)
        close("unit field is parallel", (u * n)[:, big], t[:, big], 1e-5 + TOL, stats=stats)
        gain = case["gain"] * 10.0 ** case["dec"]
        close("gain, unit field", field(case, g * gain, harm, True)[:, big], u[:, big], TOL * 1e6, stats=stats)
        close("gain", field(case, g * gain, harm, False), t, TOL * 100, stats=stats)
        if typ == "fft":
            close("offset", field(case, g + case["off"], harm, False), t, TOL * 1000, stats=stats)
            rev = field(case, g.flat[0] + g.flat[-1] - g, harm, False)
            close("contrast reversal", min((rev, -rev), key=lambda f: np.abs(f - t).max()), t, TOL * 1000, stats=stats)
        if typ == "fft":  # ('opt' is one step of an optimizer: not continuous)
            nz = 1 + 1e-15 * np.random.default_rng(case["s"] + 3).normal(size=g.shape)
            close("rounding noise", field(case, g * nz, harm, False), t, max(1e-4, TOL * 1000), stats=stats)
        if typ == "fft" and case["ph"] is not None:  # the phase of the contrast is not a direction
            f0 = field(case, make_map(dict(case, ph=None))[0], harm, False)
            close("phase of the contrast", min((f0, -f0), key=lambda f: np.abs(f - t).max()), t, TOL * 1000, stats=stats)
        tt = field(case, np.ascontiguousarray(g.T), harm[[1, 0]] if nn.get_backend() != "jax" else harm, False)
        if typ == "fft" or set(map(tuple, hn.T)) == set(map(tuple, hn[::-1].T)):
            close("exchange of the axes", np.array([-tt[1].T, -tt[0].T]), t, TOL * 1000, stats=stats)
    if case["kind"] == "stripe" and not const:
        across = t[case["axis"]]
        require(np.abs(across).max() < 1e-4, f"field across the stripes: {np.abs(across).max():.2e}")
    if geo is not None and typ == "fft":
        F, nrm, rad = geo
        edge = np.abs(F - 1) < 2 / rad
        tn = np.abs(t[0] * nrm[0] + t[1] * nrm[1])[edge] / n[edge]
        rot = (t[1] * nrm[0] - t[0] * nrm[1])[edge] 
        rot = rot * np.sign(rot[0])
        stats["normal component on the outline (mean)"] = float(tn.mean())
        stats["normal component on the outline (max)"] = float(tn.max())
        require(tn.mean() < 0.35, f"the field is not along the outline: mean normal component {tn.mean():.2f}")
        require(np.all(rot > 0), "the sense of rotation changes along the outline")
        sh = case["shift"]
        tr = field(case, np.roll(g, sh, (0, 1)), harm, False)
        close("translation", tr, np.roll(t, sh, (1, 2)), 0.15, stats=stats)
    # Jones field
    mag = case["mag"] * (0.05 + 0.95 * np.random.default_rng(case["s"] + 1).random(g.shape))
    ang = 2 * np.pi * np.random.default_rng(case["s"] + 2).random(g.shape) - np.pi
    v = np.array([mag * np.cos(ang), mag * np.sin(ang)])
    J = [tonp(c) for c in get_jones_field([gen.to_backend(nn, c) for c in v])]
    close("length of the Jones field", np.sqrt(abs(J[0]) ** 2 + abs(J[1]) ** 2), np.ones(g.shape), 1e-8, stats=stats)
    phi = np.pi / 8 * (1 + np.cos(np.pi * mag))
    want = [np.exp(-1j * ang) * (np.cos(ang) * np.cos(phi) + 1j * np.sin(ang) * np.sin(phi)),
            np.exp(-1j * ang) * (np.sin(ang) * np.cos(phi) - 1j * np.cos(ang) * np.sin(phi))]
    for a, b in zip(J, want):
        close("Jones field", a, b, 1e-8, stats=stats)
    return dict(nontrivial=not const, labels=[typ, case["kind"], "square" if Nx == Ny else "Nx!=Ny"], stats=stats,
                sample={"largest": float(n.max()), "smallest": float(n.min())})


def run_layer(case):
    """through layers: cached settings, given fields, uniform layers"""
    sc = case["scene"]
    lattice = gen.make_lattice(nn, sc)
    harm, _ = lattice.get_harmonics(9, sort=True)
    seen = 0
    for L in sc["layers"]:
        e = gen.eps_of(L["eps"], tuple(lattice.discretization))
        if not isinstance(e, np.ndarray):
            lay = gen.make_layer(nn, lattice, sc, L)
            require(lay.get_tangent_field(harm) is None, "uniform layer with a tangential field")
            require(lay.get_jones_field(None) is None, "uniform layer with a Jones field")
            continue
        seen += 1
        typ = case["type"]
        lay = gen.make_layer(nn, lattice, sc, L, tangent_field_type=typ)
        for nrm in (False, True):
            got = [tonp(c) for c in lay.get_tangent_field(harm, normalize=nrm)]
            want = get_tangent_field(gen.to_backend(nn, e), harm, normalize=nrm, type=typ)
            for a, b in zip(got, want):
                close("field of a layer", a, tonp(b), 1e-12)
            for other in ("fft", "opt"):
                got = [tonp(c) for c in lay.get_tangent_field(harm, normalize=nrm, type=other)]
                want = get_tangent_field(gen.to_backend(nn, e), harm, normalize=nrm, type=other)
                for a, b in zip(got, want):
                    close(f"field of the requested kind ({other})", a, tonp(b), 1e-12)
        r = np.random.default_rng(case["s"])
        given = [gen.to_backend(nn, r.normal(size=e.shape)) for _ in range(2)]
        lay = gen.make_layer(nn, lattice, sc, L, tangent_field=given, tangent_field_type=typ)
        for cand in (lay, lay.copy()):
            got = cand.get_tangent_field(harm, normalize=case["nrm"])
            for a, b in zip(got, given):
                close("given field", a, tonp(b), 0)
    return dict(nontrivial=seen > 0, labels=["layer"], sample={"patterned": seen})


@st.composite
def cases(draw, opt):
    typ = "opt" if opt else "fft"
    kind = draw(st.sampled_from(["noise", "smooth", "stripe", "ellipse"]))
    if kind == "ellipse":
        n = [draw(st.integers(24, 90)), draw(st.integers(24, 90))]
    else:
        n = [draw(st.integers(6, 40)), draw(st.integers(6, 40))]
        if draw(st.integers(0, 3 if not opt else 2)) == 0:
            n[draw(st.integers(0, 1))] = draw(st.integers(60, 140))
    e1, e2 = draw(gen.fl(1, 4)), draw(gen.fl(4.5, 12))
    if draw(st.booleans()):
        e1, e2 = e2, e1
    nmax = int(min((min(n) - 1) / 2, 2)) * 2 + 1
    return {"type": typ, "kind": kind, "n": n, "e1": e1, "e2": e2, "s": draw(gen.seeds), "axis": draw(st.integers(0, 1)),
            "f": draw(gen.fl(0.15, 0.85)), "sh": draw(st.integers(0, 30)), "c": [draw(gen.fl(-1, 1)), draw(gen.fl(-1, 1))],
            "r": [draw(gen.fl(0.2, 0.3)), draw(gen.fl(0.2, 0.3))], "gain": draw(gen.fl(0.2, 9)), "dec": draw(st.sampled_from([0, 0, -3, 3])),
            "ph": draw(st.one_of(st.none(), gen.fl(-3.1, 3.1))), "off": draw(gen.fl(-3, 9)),
            "shift": [draw(st.integers(-9, 9)), draw(st.integers(-9, 9))], "mag": draw(gen.fl(0.3, 2)),
            "nh": draw(st.integers(9, max(9, nmax**2))), "nofilt": draw(st.booleans())}


def lanes():
    bk = default_backends()
    lay = st.fixed_dictionaries({"scene": gen.scenes(lat=None, one_d=False, inner=(1, 3), need_pattern=True, metal=False, nh=(9, 12)),
                                 "type": st.sampled_from(["fft", "opt"]), "s": gen.seeds, "nrm": st.booleans()})
    return [Lane("fft", cases(False), run, 500, backends=bk), Lane("opt", cases(True), run, 250, backends=bk),
            Lane("layer", lay, run_layer, 200, backends=bk)]
