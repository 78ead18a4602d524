"""C30: the plane wave is the one documented."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..common import Lane, close, default_backends, fnum, import_nannos, require, tonp, want_shape

nn = import_nannos()
RULE = (
    "A case is a wavelength (over six decades) and angles of any sign and turn, given as tuple, list or array; "
    "lane wave: closed forms of every attribute, orthogonality, periodicity and rotation relations between waves; "
    "lane field: the field computed in a homogeneous stack of any lossless medium against the closed form of the "
    "wave, at any depth.  Non-trivial: polar angle and azimuth that are no multiples of 90 degrees."
)
ASSUMPTIONS = ["polar angles below 90 degrees in absolute value (waves that travel towards positive z)"]


def closed(wl, ang):
    t, p, s = np.radians(ang)
    k = np.array([np.sin(t) * np.cos(p), np.sin(t) * np.sin(p), np.cos(t)])
    phat = np.array([np.cos(t) * np.cos(p), np.cos(t) * np.sin(p), -np.sin(t)])
    shat = np.array([-np.sin(p), np.cos(p), 0.0])
    E = np.cos(s) * phat + np.sin(s) * shat
    return 2 * np.pi / wl, k, phat, shat, E, np.cross(k, E)


def give(v, how):
    return {"tuple": tuple(v), "list": list(v), "array": nn.backend.array(np.array(v, float)), "int": tuple(int(x) for x in v)}[how]


def run_wave(case):
    wl, ang = case["wl"], case["ang"]
    if case["how"] == "int":
        ang = [float(int(a)) for a in ang]
    pw = nn.PlaneWave(wavelength=wl, angles=give(ang, case["how"]))
    k0, k, phat, shat, E, H = closed(wl, ang)
    stats = {}
    cond = 1 / np.cos(np.radians(ang[0])) ** 2
    close("wavelength", fnum(pw.wavelength), wl, 1e-15, scale=wl)
    close("frequency", fnum(pw.frequency_scaled), 1 / wl, 1e-15, scale=1 / wl)
    close("wavenumber", fnum(pw.wavenumber), k0, 1e-14, scale=k0)
    close("angles in degrees", tonp(pw.angles_deg), ang, 0, scale=1)
    close("angles", tonp(pw.angles), np.radians(ang), 1e-14)
    for a, b in zip((pw.theta, pw.phi, pw.psi), np.radians(ang)):
        close("angle", fnum(a), b, 1e-14)
    kv = want_shape("wavevector", pw.wavevector, (3,))
    close("wavevector", kv, k0 * k, 1e-13, scale=k0, stats=stats)
    close("length of the wavevector", np.linalg.norm(kv), k0, 1e-13, scale=k0)
    require(kv[2] > 0, "the wave does not travel towards positive z")
    A = want_shape("amplitude", pw.amplitude, (3,))
    require(np.isrealobj(A), "complex polarization")
    close("amplitude", A, E, 1e-13, stats=stats)
    close("unit amplitude", np.linalg.norm(A), 1, 1e-13)
    close("transverse wave", A @ kv / k0, 0, 1e-13)
    a0 = want_shape("a0", pw.a0, (2,))
    close("tangential amplitudes", a0, H[:2], 1e-12 * cond, stats=stats)
    if ang[2] == 0:
        close("p in the plane of incidence", A @ shat, 0, 1e-14)
        close("p", A @ phat, 1, 1e-14)
    elif ang[2] == 90:
        close("s tangential", A[2], 0, 1e-14)
        close("s", A @ shat, 1, 1e-14)

    # relations between waves
    def other(a, w=wl):
        return nn.PlaneWave(wavelength=w, angles=tuple(a))

    def same(name, q, ka, Aa, aa):
        close(name + ": wavevector", q.wavevector, ka, 1e-11, scale=k0)
        close(name + ": amplitude", q.amplitude, Aa, 1e-11)
        close(name + ": a0", q.a0, aa, 1e-11 * cond)

    same("full turn in azimuth", other([ang[0], ang[1] + 360, ang[2]]), kv, A, a0)
    same("half turn of polarization", other([ang[0], ang[1], ang[2] + 180]), kv, -A, -a0)
    same("negative polar angle", other([-ang[0], ang[1] + 180, ang[2] + 180]), kv, A, a0)
    d = case["d"]
    c, s = np.cos(np.radians(d)), np.sin(np.radians(d))
    R = np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])
    same("rotated azimuth", other([ang[0], ang[1] + d, ang[2]]), R @ kv, R @ A, R[:2, :2] @ a0)
    m = np.diag([1, -1, 1])  # mirror y: polarization angle changes sign
    same("mirror", other([ang[0], -ang[1], -ang[2]]), m @ kv, m @ A, -(m @ np.append(a0, 0))[:2])
    q = other(ang, wl * case["f"])
    close("scaled wavelength", tonp(q.wavevector) * case["f"], kv, 1e-12, scale=k0)
    close("scaled wavelength: amplitude", q.amplitude, A, 1e-14)
    close("scaled wavelength: a0", q.a0, a0, 1e-11 * cond)
    # linear in (cos, sin) of the polarization angle
    p0, p90 = other([ang[0], ang[1], 0]), other([ang[0], ang[1], 90])
    c, s = np.cos(np.radians(ang[2])), np.sin(np.radians(ang[2]))
    close("superposition", c * tonp(p0.amplitude) + s * tonp(p90.amplitude), A, 1e-13)
    close("superposition of a0", c * tonp(p0.a0) + s * tonp(p90.a0), a0, 1e-12 * cond)
    nt = abs(ang[0]) > 0.5 and min(ang[1] % 90, 90 - ang[1] % 90) > 0.5
    labs = [case["how"], "normal" if ang[0] == 0 else "oblique", "negative" if ang[0] < 0 else "positive",
            "psi=" + ("0" if ang[2] == 0 else "90" if ang[2] == 90 else "any")]
    return dict(nontrivial=nt, labels=labs, stats=stats, sample={"wavelength": wl, "angles": ang})


def run_field(case):
    wl, ang, n = case["wl"], case["ang"], case["n"]
    k0, k, _, _, E, H = closed(wl, ang)
    pw = nn.PlaneWave(wavelength=wl, angles=tuple(ang))
    lat = nn.Lattice(case["a"] if case["one"] else ((case["a"], 0), (0.2, 0.8)), discretization=8 if case["one"] else (8, 8))
    e = n * n
    h = case["h"]
    lay = [lat.Layer("in", epsilon=e)] + [lat.Layer(f"l{i}", thickness=h, epsilon=e) for i in range(case["inner"])] + [lat.Layer("out", epsilon=e)]
    sim = nn.Simulation(lay, pw, nh=7)
    R, T = sim.diffraction_efficiencies()
    close("transmission of a homogeneous space", [fnum(T), fnum(R)], [1, 0], 1e-11)
    close("tangential wavevector", [fnum(sim.k0para[0]), fnum(sim.k0para[1])], n * k0 * k[:2], 1e-13, scale=k0 * n)
    j = sim.index_zeroth_order
    stats = {}
    depth = 0.0
    cond = 1 / np.cos(np.radians(ang[0])) ** 2
    for i in range(len(lay)):
        z = case["z"] * (h or 1)
        F = tonp(sim.get_field_fourier(i, z))[0]
        ph = np.exp(1j * n * k0 * k[2] * (depth + z))
        # unit power of the magnetic field: E is divided by the index
        tol = 1e-12 * cond * (1 + n * k0 * (depth + z))
        close(f"E in layer {i}", F[0][:, j], E / n * ph, tol, scale=1, stats=stats)
        close(f"H in layer {i}", F[1][:, j], H * ph, tol, scale=1, stats=stats)
        others = np.delete(F, j, axis=2)
        require(others.size == 0 or np.abs(others).max() < 1e-11, "other harmonics in a homogeneous space")
        if 0 < i < len(lay) - 1:
            depth += h
    return dict(nontrivial=abs(ang[0]) > 0.5 and n != 1, labels=["1d" if case["one"] else "2d", "layers=%d" % len(lay)], stats=stats, sample={"n": n, "angles": ang})


def lanes():
    th = st.one_of(gen.fl(-89, 89), gen.fl(-89, 89), st.sampled_from([0.0, 30.0, 45.0, 60.0]))
    ph = st.one_of(gen.fl(-360, 720), st.sampled_from([0.0, 90.0, 180.0, 270.0, 45.0]))
    ps = st.one_of(gen.fl(-360, 360), st.sampled_from([0.0, 90.0, 45.0, 180.0, -90.0]))
    ang = st.tuples(th, ph, ps).map(list)
    w = st.fixed_dictionaries(dict(
        wl=st.one_of(gen.fl(0.1, 10), gen.fl(-3, 3).map(lambda x: 10.0**x), st.sampled_from([1.0, 0.5])), ang=ang,
        how=st.sampled_from(["tuple", "tuple", "list", "array", "int"]), d=gen.fl(-200, 200), f=gen.fl(0.1, 7)))
    f = st.fixed_dictionaries(dict(
        wl=gen.fl(0.3, 3), ang=st.tuples(gen.fl(-80, 80), ph, ps).map(list), n=st.one_of(gen.fl(0.6, 4), st.just(1.0)), a=gen.fl(0.3, 2), one=st.booleans(),
        h=gen.fl(0, 2), inner=st.integers(0, 3), z=gen.fl(0, 1)))
    b = default_backends()
    return [Lane("wave", w, run_wave, 6000, backends=b), Lane("field", f, run_field, 1200, backends=b)]
