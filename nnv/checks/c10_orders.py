"""C10: diffraction orders: bookkeeping, labels, complex amplitudes."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..common import Lane, Violation, close, default_backends, import_nannos, require, tonp

nn = import_nannos()
RULE = (
    "A case is a grating problem (any layer names, propagating and evanescent orders) plus a list of queried "
    "orders and call options in any sequence.  Oracles: one entry per harmonic, sum over orders, dictionary / "
    "index / tuple access give the entry of that very order, the modulus of the complex amplitude gives the "
    "efficiency, evanescent orders carry nothing, transversality, amplitudes against the reference solver.  "
    "Non-trivial: patterned layer, at least two propagating orders."
)


def run(case):
    sc = case["scene"]
    sim = gen.make_sim(nn, sc)
    harm = gen.harmonics_of(sim)
    ref = gen.guard(gen.make_ref(sc, harm), qmin=5e-3)
    n = harm.shape[1]
    keys = [tuple(int(v) for v in p) for p in harm.T]
    require(len(set(keys)) == n and (0, 0) in keys, "harmonics are not distinct or lack (0, 0)")
    out, cdict = {}, {}
    for k in case["calls"]:  # any order, repeated: results must be the same
        o, c, d = bool(k & 1), bool(k & 2), bool(k & 4)
        val = sim.diffraction_efficiencies(orders=o, complex=c, return_dict=d)
        require(len(val) == 2, "efficiencies are not a pair")
        if o and d:
            for j, X in enumerate(val):
                require(sorted(X) == sorted({a for a, _ in keys}), "keys of the dictionary")
                got = {(a, b): X[a][b] for a in X for b in X[a]}
                require(set(got) == set(keys), "orders of the dictionary")
                if c:
                    for p in keys:
                        require(tonp(got[p]).shape == (3,), f"complex entry {p} of the dictionary is not a vector")
                    arr = np.array([tonp(got[p]) for p in keys]).T
                    cdict[j] = arr
                else:
                    out.setdefault((1, 0), [None, None])
                    arr = np.array([complex(tonp(got[p])) for p in keys]).real
                    if out[(1, 0)][j] is None:
                        out[(1, 0)][j] = arr
                    close("dictionary entries", arr, out[(1, 0)][j], 1e-12)
            if val[0] is val[1]:
                raise Violation("R and T share a dictionary")
            continue
        v = [tonp(x) for x in val]
        key = (int(o), int(c))
        if key in out and out[key][0] is not None:
            close("repeated call", v[0], out[key][0], 1e-12)
            close("repeated call", v[1], out[key][1], 1e-12)
        out[key] = v
    R, T = [tonp(x) for x in sim.diffraction_efficiencies(orders=True)]
    if (1, 0) in out:
        close("efficiencies of an earlier call", R, out[(1, 0)][0], 1e-12)
        close("efficiencies of an earlier call", T, out[(1, 0)][1], 1e-12)
    Rs, Ts = [float(tonp(x)) for x in sim.diffraction_efficiencies()]
    require(R.shape == (n,) and T.shape == (n,), "one efficiency per order")
    require(np.isrealobj(R) and np.isrealobj(T), "efficiencies are not real")
    stats = {}
    close("total R", Rs, R.sum(), 1e-10)
    close("total T", Ts, T.sum(), 1e-10)
    if (0, 0) in out:
        close("total R of an earlier call", float(out[(0, 0)][0]), Rs, 1e-12)
    Rd, Td = sim.diffraction_efficiencies(orders=True, return_dict=True)
    for q in case["orders"]:
        p = keys[q % n]
        i = keys.index(p)
        close(f"order {p} by tuple", complex(tonp(sim.get_order(R, p))), R[i], 1e-14)
        require(int(sim.get_order_index(p)) == i, f"index of order {p}")
        close(f"order {p} of T by list", complex(tonp(sim.get_order(T, list(p)))), T[i], 1e-14)
        close(f"order {p} by dictionary", complex(tonp(Rd[p[0]][p[1]])), R[i], 1e-14)
        close(f"order {p} by dictionary", complex(tonp(Td[p[0]][p[1]])), T[i], 1e-14)
        if sc["lat"]["kind"] == "1d":
            close(f"order {p[0]} by number", complex(tonp(sim.get_order(T, p[0]))), T[i], 1e-14)
            close(f"order {p[0]} by numpy integer", complex(tonp(sim.get_order(T, np.array(p)[0]))), T[i], 1e-14)
        close(f"order {p} by array", complex(tonp(sim.get_order(T, np.array(p)))), T[i], 1e-14)
    r, t = [tonp(x) for x in sim.diffraction_efficiencies(orders=True, complex=True)]
    require(r.shape == (3, n) and t.shape == (3, n), "complex amplitudes: three components per order")
    for j, arr in cdict.items():
        close("complex dictionary entries", arr, (r, t)[j], 1e-12)
    rs, ts = [tonp(x) for x in sim.diffraction_efficiencies(complex=True)]
    close("sum of complex r", rs, r.sum(1), 1e-9)
    close("sum of complex t", ts, t.sum(1), 1e-9)
    w = ref.w
    nin2 = sc["layers"][0]["eps"][0]
    gin = np.sqrt(nin2 * w**2 - ref.kx**2 - ref.ky**2 + 0j)
    prop = gin.real > 0
    close("|complex r|^2", (np.abs(r) ** 2).sum(0)[prop], R[prop], 1e-7, stats=stats)
    close("R of evanescent orders", R[~prop], 0 * R[~prop], 1e-9)
    close("complex r of evanescent orders", r[:, ~prop], 0 * r[:, ~prop], 1e-6)
    tr = ref.kx * r[0] + ref.ky * r[1] - gin * r[2]
    close("reflected wave is transverse", tr[prop] / w, 0 * tr[prop], 1e-7, stats=stats)
    sub = complex(*sc["layers"][-1]["eps"])
    if sub.imag == 0 and sub.real > 0:
        go = np.sqrt(sub * w**2 - ref.kx**2 - ref.ky**2 + 0j)
        pt = go.real > 0
        close("|complex t|^2", (np.abs(t) ** 2).sum(0)[pt], T[pt], 1e-7, stats=stats)
        close("T of evanescent orders", T[~pt], 0 * T[~pt], 1e-9)
        close("complex t of evanescent orders", t[:, ~pt], 0 * t[:, ~pt], 1e-6)
        tt = ref.kx * t[0] + ref.ky * t[1] + go * t[2]
        close("transmitted wave is transverse", tt[pt] / w, 0 * tt[pt], 1e-7, stats=stats)
        # amplitudes against the reference solver, all phases included
        F = ref.fields(len(sc["layers"]) - 1, 0.0)[0]
        g0 = gin[keys.index((0, 0))]
        want = F * np.sqrt(nin2 * (go.real / g0.real))
        close("complex t against the reference", t[:, pt], want[:, pt], 1e-7, stats=stats)
    Fr = ref.reflected_field() * np.sqrt(nin2 * (gin.real / gin[keys.index((0, 0))].real))
    close("complex r against the reference", r[:, prop], Fr[:, prop] , 1e-6, stats=stats)
    return dict(nontrivial=gen.has_pattern(sc) and prop.sum() > 1, stats=stats,
                labels=gen.scene_labels(sc) + [f"propagating={min(int(prop.sum()), 9)}"],
                sample={"orders": [keys[q % n] for q in case["orders"]], "R": float(Rs)})


def cases(**kw):
    return st.fixed_dictionaries({
        "scene": gen.scenes(**kw),
        "calls": st.lists(st.integers(0, 7), min_size=0, max_size=5),
        "orders": st.lists(st.integers(0, 60), min_size=1, max_size=6),
    })


def lanes():
    bk = default_backends()
    return [
        Lane("any", cases(inner=(0, 3)), run, 900, backends=bk),
        Lane("many-orders", cases(inner=(1, 2), need_pattern=True, wl=(0.2, 0.9), nh=(6, 30), nh1d=(5, 31)), run, 600, backends=bk),
    ]
