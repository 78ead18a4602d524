"""C04: different descriptions of the same physical stack give the same answer."""
import copy

import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..common import Lane, close, default_backends, import_nannos, require, tonp

nn = import_nannos()
RULE = (
    "A case is a grating problem plus a sequence of 1-4 rewritings of its layer list that do not change the "
    "physics (split a layer, insert a zero-thickness layer of any material or pattern, rename, express repeated "
    "layers as copies placed before or after their original, copies of copies, changed thickness of the outer "
    "layers, duplicated Layer construction, layer list as a tuple).  Non-trivial: a patterned layer and at least "
    "one rewriting that changes the list; oracle: per-order R and T of the original description."
)

OPS = ["split", "split", "zero", "rename", "copy", "copy", "copyfirst", "copycopy", "outer", "tuple", "kwarg", "swapnames"]


@st.composite
def cases(draw):
    sc = draw(gen.scenes(inner=(1, 3), forms=("original", "tangent"), need_pattern=True, outer_thickness=False, aniso=("diag", "herm", "symm", "gen")))
    if sc["lat"]["kind"] == "2d":
        sc["form"] = "original"
    ops = []
    for _ in range(draw(st.integers(1, 4))):
        ops.append([draw(st.sampled_from(OPS)), draw(st.integers(0, 7)), draw(gen.fl(0.05, 0.95)), draw(gen.seeds)])
    zero = draw(gen.patterns(one_d=sc["lat"]["kind"] == "1d")) if draw(st.booleans()) else draw(gen.scalars())
    return {"scene": sc, "ops": ops, "zero": zero}


def same_eps(a, b):
    return a["eps"] == b["eps"]


def run(case):
    sc = case["scene"]
    sim0 = gen.make_sim(nn, sc)
    harm = gen.harmonics_of(sim0)
    gen.guard(gen.make_ref(sc, harm))
    R0, T0 = [tonp(x) for x in sim0.diffraction_efficiencies(orders=True)]
    L = copy.deepcopy(sc["layers"])  # entries may get "copyof": index of another entry (by uid)
    uid = 0
    for l in L:
        l["uid"] = uid = uid + 1
    as_tuple = kwarg = False
    used = set()
    changed = False
    for op, k, f, s in case["ops"]:
        inner = list(range(1, len(L) - 1))
        if op == "split" and inner:
            i = inner[k % len(inner)]
            l2 = dict(copy.deepcopy(L[i]), uid=(uid := uid + 1))
            l2.pop("copyof", None)
            l2["name"] = f"split{uid}"
            h = L[i]["h"]
            L[i] = dict(L[i], h=h * f)
            l2["h"] = h * (1 - f)
            L.insert(i + 1, l2)
            changed = True
        elif op == "zero":
            i = 1 + k % (len(L) - 1)
            L.insert(i, {"name": f"zero{uid + 1}", "h": 0.0, "eps": case["zero"], "uid": (uid := uid + 1)})
            changed = True
        elif op == "rename":
            for l in L:
                l["name"] = "n%d_%d" % (s % 997, l["uid"])
            changed = True
        elif op == "swapnames":
            L[0]["name"], L[-1]["name"] = "Substrate", "Superstrate"
            for l in L[1:-1]:
                l["name"] = "m%d" % l["uid"]
            changed = True
        elif op in ("copy", "copyfirst", "copycopy") and inner:
            # split a layer in two (or three) and let all but one piece be copies
            i = inner[k % len(inner)]
            if "copyof" in L[i] or any(x.get("copyof") == L[i]["uid"] for x in L):
                continue
            h = L[i]["h"]
            a = dict(L[i], h=h * f)
            b = dict(copy.deepcopy(L[i]), uid=(uid := uid + 1), name=f"copy{uid}", h=h * (1 - f))
            if op == "copyfirst":
                b["copyof"] = a["uid"]
                L[i : i + 1] = [b, a]
            else:
                b["copyof"] = a["uid"]
                new = [a, b]
                if op == "copycopy":
                    b["h"] *= 0.5
                    c = dict(copy.deepcopy(b), uid=(uid := uid + 1), name=f"copy{uid}", copyof=b["uid"])
                    new = [c, a, b] if s % 2 else [a, b, c]
                L[i : i + 1] = new
            changed = True
        elif op == "outer":
            L[0]["h"], L[-1]["h"] = f, (s % 1000) / 300
            changed = True
        elif op == "tuple":
            as_tuple = True
        elif op == "kwarg":
            kwarg = True
        used.add(op)
    lattice = gen.make_lattice(nn, sc)
    built = {}
    for l in L:
        if "copyof" not in l:
            built[l["uid"]] = gen.make_layer(nn, lattice, sc, l, set_after=not kwarg or isinstance(l["eps"], dict))
    todo = [l for l in L if "copyof" in l]
    while todo:
        l = todo.pop(0)
        if l["copyof"] not in built:
            todo.append(l)
            continue
        c = built[l["copyof"]].copy(l["name"])
        src = [x for x in L if x["uid"] == l["copyof"]][0]
        if l["h"] != src["h"]:  # a copy has the thickness of the layer it is made from
            c.thickness = l["h"]
        built[l["uid"]] = c
    layers = [built[l["uid"]] for l in L]
    names = [l.name for l in layers]
    require(names == [l["name"] for l in L], "layer names are not those requested")
    nh = sc["nh"]
    sim = nn.Simulation(tuple(layers) if as_tuple else layers, gen.make_pw(nn, sc), nh, formulation=sc["form"])
    h1 = gen.harmonics_of(sim)
    R, T = [tonp(x) for x in sim.diffraction_efficiencies(orders=True)]
    # a zero-thickness pattern may be worse conditioned than the problem itself
    if any(l["h"] == 0 and isinstance(l["eps"], dict) for l in L):
        gen.guard(gen.make_ref(dict(sc, layers=[dict(l) for l in L]), h1))
    d0 = {tuple(p): (R0[k], T0[k]) for k, p in enumerate(harm.T)}
    d1 = {tuple(p): (R[k], T[k]) for k, p in enumerate(h1.T)}
    require(set(d0) == set(d1), "rewriting the stack changed the set of harmonics")
    stats = {}
    for j, q in enumerate("RT"):
        close(f"{q} per order", [d1[p][j] for p in d0], [d0[p][j] for p in d0], 1e-7, stats=stats)
    F0, F1 = tonp(sim0.get_field_fourier(0, 0.0)), None
    return dict(
        nontrivial=changed and gen.has_pattern(sc), stats=stats,
        labels=gen.scene_labels(sc) + ["op=" + o for o in sorted(used)] + [f"layers after={len(L)}"],
        sample={"layers": [[l["name"], l["h"]] for l in L], "R": float(R.sum()), "T": float(T.sum())},
    )


def lanes():
    return [Lane("rewritings", cases(), run, 1800, backends=default_backends())]
