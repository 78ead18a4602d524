"""C24: results do not depend on the history of a simulation."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..common import Lane, Violation, close, default_backends, import_nannos, require, tonp

nn = import_nannos()
RULE = (
    "A case is a grating problem (any formulation, copies of layers) and a history of up to 14 operations: queries of "
    "every kind, solve, reset of S / of the solution / of everything, thickness changes followed by reset('S'), "
    "permittivity changes followed by reset(), and later simulations that reuse lattice, layers or excitation.  "
    "Oracle: the same query, alone, on a freshly built problem; inputs compared byte by byte with what was passed in.  "
    "Non-trivial: at least three queries in a problem with a patterned layer, after at least one other operation."
)
ASSUMPTIONS = ["simulations that share Layer objects are used one after the other (the other way is a known finding)"]
TOL = 1e-9


def lay_kw(sc):
    return {"tangent_field_type": "fft"} if sc["form"] != "original" else {}


def fresh(sc):
    """layer copies are replaced by layers of their own"""
    return gen.make_sim(nn, sc, layer_kw=lay_kw(sc))


def key(sim, l, how):
    n = len(sim.layers)
    l %= n
    return {"int": l, "neg": l - n, "name": sim.layers[l].name, "obj": sim.layers[l]}[how]


def query(sim, q, sc):
    """dict of named results"""
    k = q[0]
    n = len(sim.layers)
    if k == "totals":
        R, T = sim.diffraction_efficiencies()
        return {"R": R, "T": T}
    if k == "orders":
        R, T = sim.diffraction_efficiencies(orders=True)
        return {"R orders": R, "T orders": T}
    if k == "dict":
        R, T = sim.diffraction_efficiencies(orders=True, return_dict=True)
        return {f"{nm} {i} {j}": d[i][j] for nm, d in (("R", R), ("T", T)) for i in d for j in d[i]}
    if k == "complex":
        r, t = sim.diffraction_efficiencies(orders=q[1], complex=True)
        return {"r": r, "t": t}
    if k == "S":
        a = q[1] % n
        b = a + 1 + q[2] % (n - a) if a < n - 1 else None
        if b is None or b > n - 1:
            S = sim.get_S_matrix()
        else:
            S = sim.get_S_matrix(indices=[(a, b), [a, b]][q[2] % 2])
        return {f"S{i}{j}": S[i][j] for i in range(2) for j in range(2)}
    l = q[1] % n
    if k == "fourier":
        return {"fourier": sim.get_field_fourier(key(sim, l, q[2]), q[3])}
    if k == "grid":
        shape = tuple(sc["disc"])
        F = sim.get_field_grid(key(sim, l, q[2]), q[3], shape=shape, field=q[4], component=q[5])
        return {"grid %d" % i: f for i, f in enumerate(F)} if q[4] == "all" else {"grid": F}
    if k == "stress":
        return dict(zip(("Tx", "Ty", "Tz"), sim.get_z_stress_tensor_integral(key(sim, l, q[2]), q[3][0])))
    if k == "epsilon":
        return {"epsilon": sim.get_epsilon(key(sim, l, q[2]))}
    if k == "flux":
        S = sim.get_S_matrix()
        a, b = (sim.a0, S[1][0] @ sim.a0) if l < n - 1 else (S[0][0] @ sim.a0, sim.bN)
        f, g = sim.get_z_poynting_flux(sim.layers[0 if l < n - 1 else l], a, b)
        return {"forward": f, "backward": g}
    raise KeyError(k)


def build_layers(sc, lattice, copies):
    layers = []
    for i, L in enumerate(sc["layers"]):
        j = copies.get(str(i))
        if j is not None:
            lay = layers[j].copy(L["name"])
            lay.thickness = L["h"]
        else:
            lay = gen.make_layer(nn, lattice, sc, L, **lay_kw(sc))
        layers.append(lay)
    return layers


def snapshot(layers, lattice, pw):
    s = {}
    for i, l in enumerate(layers):
        s[f"epsilon of layer {i}"] = tonp(l.epsilon).copy()
        s[f"thickness of layer {i}"] = np.array(l.thickness, float)
        s[f"name of layer {i}"] = l.name
    s["basis"] = np.array(tonp(lattice.basis_vectors), float).copy()
    s["discretization"] = np.array(lattice.discretization)
    h = lattice.harmonics_array
    s["harmonics"] = None if h is None else tonp(h).copy()
    for k in ("wavelength", "theta", "phi", "psi"):
        s[k] = np.array(tonp(getattr(pw, k)), float)
    s["wavevector"] = tonp(pw.wavevector).copy()
    s["a0"] = tonp(pw.a0).copy()
    return s


def same(a, b, what):
    for k in b:
        x, y = a.get(k), b[k]
        ok = (x == y) if isinstance(y, (str, type(None))) else (np.shape(x) == np.shape(y) and np.array_equal(x, y))
        require(ok, f"{what}: {k} of the user's objects has changed")


def compare(sim, q, sc, what, stats):
    got = query(sim, q, sc)
    want = query(fresh(sc), q, sc)
    require(set(got) == set(want), f"{what}: {sorted(got)} instead of {sorted(want)}")
    for k in want:
        w = tonp(want[k])
        require(tonp(got[k]).shape == w.shape, f"{what}: {k} has shape {tonp(got[k]).shape}, {w.shape} when asked alone")
        close(f"{k.split()[0]}: {what}", got[k], w, TOL, scale=max(1.0, float(np.abs(w).max()) if w.size else 1), stats=stats)


def mistakes(sim, k):
    l = k % len(sim.layers)
    f = [lambda: sim.get_field_grid(l, field="D"), lambda: sim.get_field_grid(l, component="w"), lambda: sim.get_field_fourier("nobody"),
         lambda: sim.get_order(sim.diffraction_efficiencies(orders=True)[0], (900, 900)), lambda: sim.get_layer(3.5),
         lambda: nn.Simulation(list(sim.layers) + [sim.layers[0]], sim.excitation, nh=3), lambda: nn.Simulation(sim.layers, sim.excitation, nh=3, formulation="none"),
         lambda: sim.get_z_stress_tensor_integral("nobody"), lambda: sim.get_epsilon("nobody"), lambda: sim.get_field_fourier(99)]
    return [f[(k + j) % len(f)] for j in range(3)]


def run(case):
    sc = dict(case["scene"], layers=[dict(L) for L in case["scene"]["layers"]])
    copies = case["copies"]
    for i, j in copies.items():  # a copy has the permittivity of its original
        sc["layers"][int(i)].update({k: sc["layers"][j].get(k) for k in ("eps", "as", "ctor")})
    originals = set(copies.values())
    lattice = gen.make_lattice(nn, sc)
    layers = build_layers(sc, lattice, copies)
    pw = gen.make_pw(nn, sc)
    sim = nn.Simulation(layers, pw, nh=sc["nh"], formulation=sc["form"])
    harm = gen.harmonics_of(sim)
    gen.guard(gen.make_ref(dict(sc, form="original") if sc["lat"]["kind"] == "2d" else sc, harm), cond=1e4)
    snap = snapshot(layers, lattice, pw)
    stats, labs, nq, nop, done = {}, [], 0, 0, []
    old = None
    for op in case["ops"]:
        k = op[0]
        n = len(sc["layers"])
        done.append(k if k != "ask" else op[1][0])
        what = "after " + ",".join(done[:-1])
        if k == "ask":
            compare(sim, op[1], sc, f"{op[1]} {what}", stats)
            nq += 1
            labs.append("query " + op[1][0])
            continue
        nop += 1
        labs.append(k)
        if k == "solve":
            sim.solve()
        elif k == "reset":
            sim.reset(op[1])
        elif k == "thick":
            l = op[1] % n
            sc["layers"][l]["h"] = op[2]
            sim.layers[l].thickness = op[2]
            sim.reset("S")
            snap = snapshot(layers, lattice, pw)
        elif k == "eps":
            l = op[1] % n
            if l == 0 or l in originals or str(l) in copies or not isinstance(sc["layers"][l]["eps"], dict):
                done.pop()
                continue
            sc["layers"][l]["eps"] = op[2]
            sim.layers[l].epsilon = gen.to_backend(nn, gen.eps_of(op[2], tuple(lattice.discretization)))
            sim.reset(op[3])
            if op[3] == "solve":
                sim.reset("S")
            gen.guard(gen.make_ref(dict(sc, form="original") if sc["lat"]["kind"] == "2d" else sc, harm), cond=1e4)
            snap = snapshot(layers, lattice, pw)
        elif k == "again":  # a later simulation reusing what the flags say
            new = dict(sc, layers=[dict(L) for L in sc["layers"]])
            if op[1] & 1:
                new["ang"] = case["ang2"]
                pw = gen.make_pw(nn, new)
            if op[1] & 2 and sc.get("harm") is None:
                new["nh"] = max(3, min(sc["nh"], case["nh2"]))
            if op[1] & 4:
                new["form"] = case["form2"] if sc["lat"]["kind"] == "2d" and sc["form"] != "original" else sc["form"]
            if op[1] & 8:
                order = list(range(1, n - 1))[::-1]
                perm = [0] + order + [n - 1]
                new["layers"] = [new["layers"][i] for i in perm]
                layers = [layers[i] for i in perm]
                inv = {p: i for i, p in enumerate(perm)}
                copies = {str(inv[int(i)]): inv[j] for i, j in copies.items()}
                originals = set(copies.values())
            if op[1] & 32:  # copies of layers that were solved, their originals not in the stack
                layers = [l.copy(l.name) for l in layers]
            elif op[1] & 16:
                layers = build_layers(new, lattice, copies) if all(int(i) > j for i, j in copies.items()) else layers
            old = (sim, sc)
            sc = new
            sim = nn.Simulation(layers, pw, nh=sc["nh"], formulation=sc["form"])
            harm = gen.harmonics_of(sim)
            gen.guard(gen.make_ref(dict(sc, form="original") if sc["lat"]["kind"] == "2d" else sc, harm), cond=1e4)
            snap = snapshot(layers, lattice, pw)
        elif k == "bad":  # refused queries leave no trace
            for f in mistakes(sim, op[1]):
                try:
                    f()
                except (ValueError, KeyError, IndexError, TypeError):
                    continue
                raise Violation(f"no error for an invalid query {what}")
        elif k == "other":  # an unrelated simulation in between
            s2 = dict(case["scene"], ang=case["ang2"])
            fresh(s2).diffraction_efficiencies()
        same(snapshot(layers, lattice, pw), snap, f"{k} {what}")
    same(snapshot(layers, lattice, pw), snap, "end of " + ",".join(done))
    labs = sorted(set(labs)) + gen.scene_labels(sc) + (["copies"] if copies else [])
    return dict(nontrivial=gen.has_pattern(sc) and nq >= 3 and nop >= 1, labels=labs, stats=stats, sample=",".join(done))


def probe(case):
    """The recorded finding: two solved simulations sharing layers, queried only afterwards."""
    sc = case["scene"]
    lattice = gen.make_lattice(nn, sc)
    layers = build_layers(sc, lattice, {})
    two = dict(sc, ang=case["ang2"])
    sims = [nn.Simulation(layers, gen.make_pw(nn, s), nh=sc["nh"], formulation=sc["form"]) for s in (sc, two)]
    for s in sims:
        s.solve()
    bad = False
    for s, c in zip(sims, (sc, two)):
        got, want = tonp(s.diffraction_efficiencies(orders=True)), tonp(fresh(c).diffraction_efficiencies(orders=True))
        bad |= not np.allclose(got, want, atol=1e-7)
    return dict(nontrivial=True, labels=["known:shared-layers-interleaved"] if bad else ["interleaved ok"])


zl = st.lists(gen.fl(0, 0.5), min_size=1, max_size=3)
how = st.sampled_from(["int", "neg", "name", "obj"])
ll = st.integers(0, 5)
queries = st.one_of(
    st.just(["totals"]), st.just(["orders"]), st.just(["orders"]), st.just(["dict"]),
    st.tuples(st.just("complex"), st.booleans()).map(list),
    st.tuples(st.just("S"), ll, st.integers(0, 7)).map(list),
    st.tuples(st.just("S"), ll, st.integers(0, 7)).map(list),
    st.tuples(st.just("fourier"), ll, how, zl).map(list),
    st.tuples(st.just("fourier"), ll, how, zl).map(list),
    st.tuples(st.just("grid"), ll, how, zl, st.sampled_from(["all", "E", "H"]), st.sampled_from(["all", "x", "y", "z"])).map(list),
    st.tuples(st.just("stress"), ll, how, zl).map(list),
    st.tuples(st.just("epsilon"), ll, how).map(list),
    st.tuples(st.just("flux"), ll).map(list),
)


@st.composite
def cases(draw):
    sc = draw(gen.scenes(inner=(1, 4), need_pattern=True, forms=("original", "original", "tangent", "jones", "pol"), nh=(2, 13), nh1d=(3, 13), aniso=("diag", "herm", "symm", "gen"),
                         kinds=["noise", "smooth"], metal=False, thick=gen.fl(0.0, 0.7)))
    sc["wl"] = round(draw(gen.fl(0.6, 2.2)) * gen.extent(sc["lat"]), 9)
    n = len(sc["layers"])
    copies = {}
    if n > 3 and draw(st.booleans()):
        for i in range(2, n - 1):
            src = [j for j in range(1, i) if str(j) not in copies]
            if draw(st.booleans()):
                copies[str(i)] = draw(st.sampled_from(src))
    ask = queries.map(lambda q: ["ask", q])
    pat = gen.patterns(metal=False, one_d=sc["lat"]["kind"] == "1d", kinds=["noise", "smooth"])
    other = st.one_of(
        st.just(["solve"]), st.sampled_from(["S", "solve", "all"]).map(lambda p: ["reset", p]),
        st.tuples(st.just("thick"), ll, gen.fl(0, 0.9)).map(list), st.tuples(st.just("thick"), ll, gen.fl(0, 0.9)).map(list),
        st.tuples(st.just("eps"), ll, pat, st.sampled_from(["all", "solve"])).map(list),
        st.tuples(st.just("again"), st.integers(0, 63)).map(list), st.just(["other"]), st.tuples(st.just("bad"), st.integers(0, 29)).map(list),
    )
    ops = draw(st.lists(st.one_of(ask, ask, other), min_size=3, max_size=14))
    ops.append(draw(ask))
    return {"scene": sc, "copies": copies, "ops": ops, "ang2": draw(gen.incidences()), "nh2": draw(st.integers(3, 12)),
            "form2": draw(st.sampled_from(["original", "tangent", "jones", "pol"]))}


@st.composite
def probes(draw):
    sc = draw(gen.scenes(inner=(1, 2), need_pattern=True, nh=(5, 9), nh1d=(5, 9), kinds=["smooth"], lossless=True, thick=gen.fl(0.2, 0.7), user_harm=False))
    p = sc["layers"][1]["eps"]
    p.update(e1=[2.0, 0.0], e2=[6.0, 0.0])
    sc["ang"] = [10.0, 20.0, 30.0]
    return {"scene": sc, "ang2": [40.0, 50.0, 60.0]}


def lanes():
    return [Lane("histories", cases(), run, 1600, backends=default_backends()),
            Lane("interleaved", probes(), probe, 4, thorough=4, shards=1)]
