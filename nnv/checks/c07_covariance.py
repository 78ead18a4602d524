"""C07: exact geometric and scaling symmetries of the diffraction problem."""
import copy

import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..common import Lane, Skip, close, default_backends, import_nannos, require, tonp

nn = import_nannos()
RULE = (
    "A case is a grating problem and a sequence of 1-3 transformations drawn from: uniform scaling, "
    "permittivity/wavelength scaling, rotation, mirror, translation by whole pixels, exchange of the lattice "
    "vectors, reversal of a lattice vector, half-turn of the structure, unimodular change of basis, supercell, 1D grating as a "
    "2D lattice, sign of the polar angle, full-turn shifts of the angles.  Oracle: per-order R, T (and the "
    "s / p resolved complex amplitudes where their transformation is known) of the untransformed problem.  "
    "Non-trivial: a patterned layer and more than one harmonic."
)

OPS = ["rotate", "epsscale", "scale", "mirror", "translate", "swap", "reverse", "flip", "shear", "supercell", "as2d", "theta", "turns"]


def deep(sc):
    return copy.deepcopy(sc)


class State:
    """scene with explicit arrays, and the map from original orders to present ones"""

    def __init__(self, sc, harm):
        self.sc = deep(sc)
        shape = tuple(sc["disc"])
        for L in self.sc["layers"]:
            L["arr"] = gen.eps_of(L["eps"], shape) if isinstance(L["eps"], dict) else complex(*L["eps"])
        self.map = {tuple(p): tuple(p) for p in harm.T.tolist()}
        self.extra = []
        self.explicit = False  # user harmonics needed
        self.phase = {tuple(p): 1.0 for p in harm.T.tolist()}
        self.sign = 1.0

    def arrays(self, f):
        for L in self.sc["layers"]:
            if isinstance(L["arr"], np.ndarray):
                if L["arr"].ndim == 4:
                    L["arr"] = np.array([[f(u) for u in row] for row in L["arr"]])
                else:
                    L["arr"] = np.ascontiguousarray(f(L["arr"]))

    def axes(self, M):
        "tensors in the new axes"
        M = np.block([[M, np.zeros((2, 1))], [np.zeros((1, 2)), np.ones((1, 1))]])
        for L in self.sc["layers"]:
            if isinstance(L["arr"], np.ndarray) and L["arr"].ndim == 4:
                L["arr"] = np.einsum("ij,jkxy,lk->ilxy", M, L["arr"], M)

    def orders(self, f):
        self.map = {k: f(v) for k, v in self.map.items()}
        self.extra = [f(v) for v in self.extra]


def apply(S, op, k, x):
    sc = S.sc
    lat = sc["lat"]
    two = lat["kind"] == "2d"
    Nx, Ny = sc["disc"]
    if op == "scale":
        s = 10 ** (6 * x - 3)
        lat.update({"v": (np.array(lat["v"]) * s).tolist()} if two else {"a": lat["a"] * s})
        sc["wl"] *= s
        for L in sc["layers"]:
            L["h"] *= s
    elif op == "epsscale":
        c = 0.3 + 3 * x
        sc["wl"] *= float(np.sqrt(c))
        for L in sc["layers"]:
            L["arr"] = L["arr"] * c
    elif op == "rotate" and two:
        al = 2 * np.pi * x
        M = np.array([[np.cos(al), -np.sin(al)], [np.sin(al), np.cos(al)]])
        lat["v"] = (np.array(lat["v"]) @ M.T).tolist()
        sc["ang"][1] += np.rad2deg(al)
        S.axes(M)
    elif op == "mirror":
        if two:
            lat["v"] = [[v[0], -v[1]] for v in lat["v"]]
        sc["ang"][1] *= -1
        sc["ang"][2] *= -1
        S.axes(np.diag([1.0, -1.0]))
    elif op == "translate":
        a, b = k % Nx, (k // Nx) % Ny
        S.arrays(lambda u: np.roll(u, (a, b), (0, 1)))
        for p, q in S.map.items():
            S.phase[p] = S.phase[p] * np.exp(-2j * np.pi * (q[0] * a / Nx + q[1] * b / Ny))
    elif op == "swap" and two:
        lat["v"] = lat["v"][::-1]
        sc["disc"] = [Ny, Nx]
        S.arrays(lambda u: u.T)
        S.orders(lambda o: (o[1], o[0]))
        S.explicit = True
    elif op == "reverse":
        if not two:
            return False
        lat["v"][0] = [-c for c in lat["v"][0]]
        S.arrays(lambda u: np.roll(u[::-1], 1, 0))
        S.orders(lambda o: (-o[0], o[1]))
        S.explicit = True
    elif op == "flip":
        S.arrays(lambda u: np.roll(u[::-1, ::-1], (1, 1), (0, 1)))
        S.orders(lambda o: (-o[0], -o[1]))
        sc["ang"][1] += 180
        S.explicit = True
        S.noamp = True
    elif op == "shear" and two:
        if Nx != Ny:
            return False
        v = np.array(lat["v"])
        lat["v"] = [v[0].tolist(), (v[0] + v[1]).tolist()]
        i, j = np.meshgrid(np.arange(Nx), np.arange(Ny), indexing="ij")
        S.arrays(lambda u: u[(i + j) % Nx, j])
        S.orders(lambda o: (o[0], o[0] + o[1]))
        S.explicit = True
    elif op == "supercell":
        p, q = 1 + k % 3, (1 + (k // 3) % 2 if two else 1)
        if p * q == 1 or Nx * p > 60 or Ny * q > 60:
            return False
        if two:
            v = np.array(lat["v"])
            lat["v"] = [(v[0] * p).tolist(), (v[1] * q).tolist()]
        else:
            lat["a"] *= p
        sc["disc"] = [Nx * p, Ny * q]
        S.arrays(lambda u: np.tile(u, (p, q)))
        S.orders(lambda o: (o[0] * p, o[1] * q))
        new = [(k % 5 - 2, 0)] if p > 1 else [(0, k % 3 - 1)]
        S.extra += [o for o in new if o[0] % p or o[1] % q]
        S.explicit = True
    elif op == "as2d" and not two:
        sc["lat"] = {"kind": "2d", "v": [[lat["a"], 0.0], [0.0, lat["a"] * (0.5 + x)]]}
        n = 2 * max(abs(o[0]) for o in S.map.values()) + 1 + k % 4
        sc["disc"] = [Nx, n]
        S.arrays(lambda u: np.tile(u, (1, n)))
        S.explicit = True
    elif op == "theta":
        sc["ang"][0] *= -1
        sc["ang"][1] += 180 if k % 2 else -180
        S.sign *= -1
    elif op == "turns":
        sc["ang"][1] += 360 * (k % 5 - 2)
        sc["ang"][2] += 180 * ((k // 5) % 5 - 2)
        S.sign *= (-1) ** ((k // 5) % 5)
    else:
        return False
    return True


def build(S):
    sc = S.sc
    harm = list(S.map.values())
    if S.explicit:
        ext = [o for o in dict.fromkeys(S.extra) if o not in harm]
        harm = harm + ext
        sc["harm"] = [[int(p[0]) for p in harm], [int(p[1]) for p in harm]]
        m = np.abs(np.array(harm)).max()
        N = sc["disc"]
        if N[0] <= 2 * m or (sc["lat"]["kind"] == "2d" and N[1] <= 2 * m):
            raise Skip("transformed orders exceed the discretization")
    for L in sc["layers"]:
        a = L["arr"]
        L["eps"] = ({"t": "tarray" if np.ndim(a) == 4 else "array", "re": a.real.ravel().tolist(), "im": a.imag.ravel().tolist()}
                    if isinstance(a, np.ndarray) else [a.real, a.imag])
    return gen.make_sim(nn, sc)


def amps(sim, sc):
    r, t = [tonp(x) for x in sim.diffraction_efficiencies(orders=True, complex=True)]
    return r, t


def pol_power(sim, ref, amp, side):
    """|s part|^2 and the rest of every order"""
    kx, ky = ref.kx.real, ref.ky.real
    kt = np.hypot(kx, ky)
    ok = kt > 1e-6 * ref.w
    s = np.where(ok, (-ky * amp[0] + kx * amp[1]) / np.where(ok, kt, 1), 0)
    return np.where(ok, np.abs(s) ** 2, 0)


def run(case):
    sc = case["scene"]
    sim0 = gen.make_sim(nn, sc)
    harm0 = gen.harmonics_of(sim0)
    ref0 = gen.guard(gen.make_ref(sc, harm0), qmin=5e-3)
    R0, T0 = [tonp(x) for x in sim0.diffraction_efficiencies(orders=True)]
    r0, t0 = amps(sim0, sc)
    S = State(sc, harm0)
    S.noamp = False
    used = []
    for op, k, x in case["ops"]:
        if op == "as2d" and sc["form"] == "tangent":
            continue
        if apply(S, op, k, x):
            used.append(op)
    sim1 = build(S)
    harm1 = gen.harmonics_of(sim1)
    ref1 = gen.guard(gen.make_ref(dict(S.sc, form=sc["form"]), harm1), qmin=5e-3)
    R1, T1 = [tonp(x) for x in sim1.diffraction_efficiencies(orders=True)]
    idx1 = {tuple(p): k for k, p in enumerate(harm1.T.tolist())}
    want = list(S.map.items())
    for a, b in want:
        require(b in idx1, f"order {b} is missing after {used}")
    i0 = [{tuple(p): k for k, p in enumerate(harm0.T.tolist())}[a] for a, _ in want]
    i1 = [idx1[b] for _, b in want]
    stats = {}
    tag = "+".join(used)
    close(f"R per order: after {tag}", R1[i1], R0[i0], 1e-7, stats=stats)
    close(f"T per order: after {tag}", T1[i1], T0[i0], 1e-7, stats=stats)
    rest = [k for k in range(len(R1)) if k not in i1]
    close(f"R of decoupled orders: after {tag}", R1[rest], 0 * R1[rest], 1e-7)
    close(f"T of decoupled orders: after {tag}", T1[rest], 0 * T1[rest], 1e-7)
    r1, t1 = amps(sim1, S.sc)
    for nm, u0, u1 in (("r", r0, r1), ("t", t0, t1)):
        p0, p1 = pol_power(sim0, ref0, u0, nm)[i0], pol_power(sim1, ref1, u1, nm)[i1]
        close(f"s part of {nm}: after {tag}", p1, p0, 1e-7, stats=stats)
    # Cartesian amplitudes: only for the transformations that keep the axes
    keep = {"scale", "epsscale", "translate", "swap", "reverse", "shear", "supercell", "as2d", "theta", "turns"}
    if set(used) <= keep:
        ph = S.sign * np.array([S.phase[a] for a, _ in want])
        close(f"complex r: after {tag}", r1[:, i1], r0[:, i0] * ph, 1e-6, stats=stats)
        close(f"complex t: after {tag}", t1[:, i1], t0[:, i0] * ph, 1e-6, stats=stats)
    return dict(nontrivial=gen.has_pattern(sc) and harm0.shape[1] > 1 and bool(used), stats=stats,
                labels=gen.scene_labels(sc) + ["op=" + u for u in sorted(set(used))],
                sample={"ops": used, "R": float(R1.sum()), "T": float(T1.sum())})


@st.composite
def cases(draw, one_d=None):
    sc = draw(gen.scenes(inner=(1, 3), forms=("original", "original", "tangent"), need_pattern=True, nh=(2, 16), nh1d=(3, 17), one_d=one_d,
                         aniso=("diag", "herm", "symm", "gen")))
    if sc["lat"]["kind"] == "2d":
        sc["form"] = "original"
        sq = draw(st.booleans())
        if sq:
            sc["disc"] = [max(sc["disc"])] * 2
    m = draw(st.integers(0, 2))
    sc["disc"] = [sc["disc"][0] + 2 * m, sc["disc"][1] + (2 * m if sc["lat"]["kind"] == "2d" else 0)]
    pool = ["as2d", "as2d", "as2d", "supercell", "turns", "theta", "flip", "translate", "mirror", "scale", "epsscale"] if one_d else OPS
    ops = [[draw(st.sampled_from(pool)), draw(st.integers(0, 200)), draw(gen.fl(0, 1))] for _ in range(draw(st.integers(1, 3)))]
    return {"scene": sc, "ops": ops}


def lanes():
    bk = default_backends()
    return [
        Lane("2d", cases(one_d=False), run, 1300, backends=bk),
        Lane("1d", cases(one_d=True), run, 600, backends=bk),
    ]
