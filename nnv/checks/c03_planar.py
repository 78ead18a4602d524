"""C03: planar stacks give the Fresnel / transfer-matrix solution."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..common import Lane, close, default_backends, import_nannos, require, tonp

nn = import_nannos()
RULE = (
    "A case is a planar stack (2-9 layers: dielectric, absorbing, metallic, total internal reflection, zero "
    "thickness) on an arbitrary lattice with arbitrary nh; lane const-array gives layers as constant "
    "permittivity arrays so that the patterned code path with many harmonics is used.  Non-trivial: at least "
    "one inner layer of non-zero thickness and oblique incidence or more than one harmonic."
)
ASSUMPTIONS = ["closed-form oracle: recursive Airy formula written in this file for each polarization"]


def airy(eps, h, k0, kt, pol):
    """(r, t) amplitudes of H-like/E-like tangential fields by admittance recursion."""
    eps = np.asarray(eps, complex)
    kz = np.sqrt(eps * k0**2 - kt**2 + 0j)
    kz = np.where((kz.imag < 0) | ((kz.imag == 0) & (kz.real < 0)), -kz, kz)
    Y = kz / k0 if pol == "s" else eps * k0 / kz  # Ht / Et
    n = len(eps)
    r = 0.0
    # backward recursion of the reflection coefficient of the tangential E field
    gam = 0.0 + 0j
    t = 1.0 + 0j
    for i in range(n - 2, -1, -1):
        r12 = (Y[i] - Y[i + 1]) / (Y[i] + Y[i + 1])
        t12 = 2 * Y[i] / (Y[i] + Y[i + 1])
        ph = np.exp(1j * kz[i + 1] * h[i + 1]) if i + 1 < n - 1 else 1.0
        g = gam * ph**2
        t = t12 * ph * t / (1 + r12 * g)
        gam = (r12 + g) / (1 + r12 * g)
    r = gam
    R = abs(r) ** 2
    T = abs(t) ** 2 * Y[-1].real / Y[0].real
    return r, t, R, T, kz, Y


def run(sc):
    eps = []
    for L in sc["layers"]:
        e = L["eps"]
        eps.append(complex(*(e["e1"] if isinstance(e, dict) else e)))
    h = [L["h"] for L in sc["layers"]]
    th, ph, ps = np.deg2rad(sc["ang"])
    k0 = 2 * np.pi / sc["wl"]
    n0 = np.sqrt(eps[0].real)
    kt = k0 * n0 * abs(np.sin(th))
    kzmin = min(abs(np.sqrt(e * k0**2 - kt**2 + 0j)) for e in eps) / k0
    harm0 = None
    if kzmin < gen.QMIN:
        gen_skip("grazing wave in a layer")
    sim = gen.make_sim(nn, sc, layer_kw={"tangent_field_type": sc.get("tft", "fft")})
    harm = gen.harmonics_of(sim)
    if harm.shape[1] > 1:
        gen.guard(gen.make_ref(dict(sc, form="original"), harm))
    Rp, Tp = airy(eps, h, k0, kt, "p")[2:4]
    Rs, Ts = airy(eps, h, k0, kt, "s")[2:4]
    c, s = np.cos(ps) ** 2, np.sin(ps) ** 2
    R, T = [tonp(x) for x in sim.diffraction_efficiencies(orders=True)]
    i0 = [k for k in range(harm.shape[1]) if harm[0, k] == 0 and harm[1, k] == 0][0]
    stats = {}
    tol = 1e-8 if sc["form"] == "original" else 1e-6
    tot = [float(tonp(x)) for x in sim.diffraction_efficiencies()]
    close("R", tot[0], c * Rp + s * Rs, tol, stats=stats)
    close("T", tot[1], c * Tp + s * Ts, tol, stats=stats)
    close("R(0,0)", R[i0], c * Rp + s * Rs, tol)
    close("T(0,0)", T[i0], c * Tp + s * Ts, tol)
    o = [k for k in range(harm.shape[1]) if k != i0]
    close("R of other orders", R[o], 0 * R[o], tol)
    close("T of other orders", T[o], 0 * T[o], tol)
    # complex amplitudes of the specular order in the s / p basis
    if eps[-1].imag == 0 and eps[-1].real > 0:
        r, t = [tonp(x) for x in sim.diffraction_efficiencies(orders=True, complex=True)]
        sv = np.array([-np.sin(ph), np.cos(ph), 0])
        rs, ts = airy(eps, h, k0, kt, "s")[:2]
        rp, tp, _, _, kz, Y = airy(eps, h, k0, kt, "p")
        phase = 1.0  # reflected amplitudes are referred to z = 0 of the first layer
        kz0 = kz[0].real
        h0 = h[0]
        phase_r = np.exp(2j * kz0 * h0)
        phase_t = np.exp(1j * kz0 * h0)
        # normalisation: |amplitude|^2 is the efficiency
        gam = np.sqrt(max(kz[-1].real, 0.0) / kz0) if kz[-1].real > 0 else 0.0
        close("complex r, s part", r[:, i0] @ sv, np.sin(ps) * rs * phase_r, tol, stats=stats)
        close("complex t, s part", t[:, i0] @ sv, np.sin(ps) * ts * gam * phase_t, tol, stats=stats)
        uv = np.array([np.cos(ph), np.sin(ph), 0])
        et_in = np.cos(ps) * np.cos(th)
        close("complex r, p part", r[:, i0] @ uv, et_in * rp * phase_r, tol, stats=stats)
        close("complex t, p part", t[:, i0] @ uv, et_in * tp * gam * phase_t, tol, stats=stats)
    return dict(
        nontrivial=any(0 < x for x in h[1:-1]) and (kt > 0 or harm.shape[1] > 1), stats=stats,
        labels=gen.scene_labels(sc) + ["TIR" if kt > k0 * np.sqrt(abs(eps[-1])) else "no TIR"],
        sample={"R": tot[0], "T": tot[1]},
    )


def gen_skip(m):
    from ..common import Skip

    raise Skip(m)


@st.composite
def planar(draw, const=False, forms=("original",), hi=7):
    sc = draw(gen.scenes(inner=(1 if const else 0, hi), kinds=["const"], need_pattern=const,
                         forms=forms, user_harm=const, outer_thickness=True, nh=(1, 25)))
    for L in sc["layers"]:
        if not const and isinstance(L["eps"], dict):
            L["eps"] = draw(gen.scalars())
        elif isinstance(L["eps"], dict):
            L["eps"] = {"t": "const", "e1": draw(gen.scalars()), "e2": [1.0, 0.0]}
    if draw(st.integers(0, 2)) == 0:  # high index superstrate: total internal reflection
        sc["layers"][0]["eps"] = [draw(gen.fl(3, 9)), 0.0]
    sc["tft"] = draw(st.sampled_from(["fft", "fft", "opt"]))
    return sc


def lanes():
    bk = default_backends()
    return [
        Lane("uniform", planar(), run, 2000, backends=bk),
        Lane("const-array", planar(const=True, hi=3), run, 500, backends=bk),
        Lane("const-array-formulations", planar(const=True, hi=2, forms=("tangent", "jones", "pol")), run, 250, backends=bk),
    ]
