"""C25: adaptive sampling and parallel loops return what serial evaluation does."""
import threading
import time

import joblib
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..common import Lane, Violation, close, import_nannos, require

nn = import_nannos()
RULE = (
    "A case is a function (resonances, kinks, steps, noise, constants; one or several outputs), an initial grid, the "
    "three thresholds and a number of threads (lane sampler: grids whose midpoints are exact; lane floats: any grid); "
    "or a list of items with per-item delays, extra arguments, possibly a failing item, run by parloop in threads "
    "(lane parloop) or processes.  Oracles: an independent model of the refinement rule, the contract of the result, "
    "and the plain loop.  Non-trivial: at least five points added, or at least three items and two workers."
)
ASSUMPTIONS = ["the initial grid is a sorted numpy array of at least three points"]


def make_f(p, a, b):
    """scalar function on [a, b] and further outputs"""
    r = np.random.default_rng(p["s"])
    t = p["t"]
    c, w = r.random(3), 0.02 + 0.2 * r.random(3)
    amp = r.normal(size=3)
    off = r.normal()

    def g(x):
        u = (x - a) / (b - a)
        if t == "lorentz":
            return off + float(sum(amp[k] / (1 + ((u - c[k]) / w[k]) ** 2) for k in range(3)))
        if t == "kink":
            return float(abs(u - c[0]) * amp[0] + abs(u - c[1]) * amp[1] + off)
        if t == "step":
            return float(amp[0] * (u > c[0]) + amp[1] * (u > c[1]) + off)
        if t == "noise":
            return float(np.sin(1e4 * amp[0] * u) + np.cos(1234.5 * u))
        if t == "sin":
            return float(np.sin(20 * c[0] * u + c[1]) * (1 + u))
        if t == "line":
            return float(amp[0] * u + off)
        return float(off)

    return g


def model(g, x, mb, mx, md):
    """The refinement rule as documented: triples of adjacent points, normalised bend."""
    pts = {float(v): g(float(v)) for v in x}
    lim = np.cos(mb * np.pi / 180)
    rounds = 0
    while True:
        xs = sorted(pts)
        ys = [pts[v] for v in xs]
        dxm, dym = mx * (xs[-1] - xs[0]), md * (max(ys) - min(ys))
        new = set()
        for (xa, xb, xc), (ya, yb, yc) in zip(zip(xs, xs[1:], xs[2:]), zip(ys, ys[1:], ys[2:])):
            left, right = xb - xa, xc - xb
            if (left < dxm and right < dxm) or (abs(yb - ya) < dym and abs(yc - yb) < dym):
                continue
            span = max(ya, yb, yc) - min(ya, yb, yc)
            uneven = right > 3 * left or left > 3 * right
            bent = False
            if span > 0:
                v1 = np.array([left / (xc - xa), (yb - ya) / span])
                v2 = np.array([right / (xc - xa), (yc - yb) / span])
                co = v1 @ v2 / np.sqrt((v1 @ v1) * (v2 @ v2))
                if abs(co - lim) < 1e-11:
                    return None, rounds
                bent = co < lim
            if bent or uneven:
                todo = {(xa, xb) if left > right else (xb, xc)}
                if left < dxm:
                    todo.add((xb, xc))
                if right < dxm:
                    todo.add((xa, xb))
                new |= {0.5 * (p + q) for p, q in todo}
        new = [v for v in new if v not in pts]
        if not new:
            return pts, rounds
        rounds += 1
        for v in new:
            pts[v] = g(v)
        if len(pts) > 4000:
            return None, rounds


def sample(case, x, g, threads):
    log, lock = [], threading.Lock()
    m = case["outputs"]

    def f(v):
        with lock:
            log.append(float(v))
        y = g(float(v))
        if m == 0:
            return y if case["kind"] != "np" else np.float64(y)
        out = [y] + [np.sin(k * float(v)) + k for k in range(1, m)]
        return {"list": out, "tuple": tuple(out), "np": np.array(out)}[case["kind"]]

    kw = dict(max_bend=case["bend"], max_x_rel=case["xrel"], max_df=case["df"])
    x0 = x.copy()
    with np.errstate(all="ignore"):
        if threads > 1:
            with joblib.parallel_config(backend="threading"):
                X, Y = nn.adaptive_sampler(f, x, n_jobs=threads, **kw)
        else:
            X, Y = nn.adaptive_sampler(f, x, **kw)
    require(np.array_equal(x, x0), "the initial grid was modified")
    X = np.asarray(X, float)
    require(X.ndim == 1 and len(Y) == len(X), f"{len(X)} points, {len(Y)} values")
    require(np.all(np.diff(X) > 0), "points are not sorted and distinct")
    require(set(x0.tolist()) <= set(X.tolist()), "an initial point is missing")
    require(X[0] == x0[0] and X[-1] == x0[-1], "points outside of the initial range")
    require(sorted(log) == X.tolist(), f"{len(log)} evaluations for {len(X)} points")
    want = np.array([g(v) for v in X])
    got = np.array([np.asarray(v, float) for v in Y])
    if m:
        require(got.shape == (len(X), m), f"values of shape {got.shape} for {m} outputs")
        for k in range(1, m):
            require(np.array_equal(got[:, k], np.sin(k * X) + k), f"output {k} does not belong to its point")
        got = got[:, 0]
    require(got.shape == want.shape and np.array_equal(got, want), "values do not belong to their points")
    d = np.diff(X)
    floor = min(case["xrel"] * (X[-1] - X[0]) / 2, np.diff(x0).min())
    require(d.min() >= floor * (1 - 1e-9), f"spacing {d.min()} below the limit {floor}")
    return X, want, x0


def run_sampler(case):
    x = case["a"] + np.cumsum([0] + case["gaps"]) / 64.0 * case["scale"]
    g = make_f(case["f"], x[0], x[-1])
    X, Y, x0 = sample(case, x, g, case["threads"])
    want, rounds = model(g, x0, case["bend"], case["xrel"], case["df"])
    labs = [case["f"]["t"], "threads=%d" % case["threads"], "outputs=%d" % case["outputs"]]
    if want is not None:
        w = sorted(want)
        extra, miss = sorted(set(X) - set(w)), sorted(set(w) - set(X))
        require(not miss, f"{len(miss)} points missing, the first at {miss[:1]}")
        require(not extra, f"{len(extra)} points too many, the first at {extra[:1]}")
    if case["threads"] > 1:
        X1, _, _ = sample(case, x, g, 1)
        require(np.array_equal(X, X1), "parallel and serial sampling differ")
    return dict(nontrivial=len(X) - len(x0) >= 5, labels=labs + ["rounds=%d" % min(rounds, 9)], sample=[len(x0), len(X)])


def run_floats(case):
    r = np.random.default_rng(case["gs"])
    n = case["n"]
    x = np.sort(case["a"] + case["scale"] * (np.linspace(0, 1, n) if case["uniform"] else np.cumsum(0.3 + r.random(n))))
    g = make_f(case["f"], x[0], x[-1])
    X, Y, x0 = sample(case, x, g, 1)
    # converged: no triple of the result still bends (with a margin)
    lim = np.cos(case["bend"] * np.pi / 180)
    dxm, dym = case["xrel"] * (X[-1] - X[0]), case["df"] * np.ptp(Y)
    for i in range(len(X) - 2):
        dx, dy = np.diff(X[i:i + 3]), np.diff(Y[i:i + 3])
        if dx.max() < dxm * (1 + 1e-9) or np.abs(dy).max() < dym * (1 + 1e-9):
            continue
        require(dx.max() <= 3 * dx.min() * (1 + 1e-9), f"uneven spacing left at {X[i + 1]}")
        sp = np.ptp(Y[i:i + 3])
        if sp > 0:
            u, v = np.array([dx[0] / dx.sum(), dy[0] / sp]), np.array([dx[1] / dx.sum(), dy[1] / sp])
            co = u @ v / np.linalg.norm(u) / np.linalg.norm(v)
            require(co > lim - 1e-9, f"bend left at {X[i + 1]}: {np.degrees(np.arccos(co)):.2f} degrees")
    if case["f"]["t"] == "const" and case["uniform"]:
        require(len(X) == len(x0), "refinement of a constant")
    # translation and scale of the values do not matter
    if case["f"]["t"] != "noise":
        with np.errstate(all="ignore"):
            X2, _ = nn.adaptive_sampler(lambda v: 2.0 * g(float(v)), x, max_bend=case["bend"], max_x_rel=case["xrel"], max_df=case["df"])
        require(np.array_equal(X2, X), "sampling depends on the unit of the function")
    return dict(nontrivial=len(X) - len(x0) >= 5, labels=[case["f"]["t"], "floats"], sample=[len(x0), len(X)])


class Boom(Exception):
    pass


def work(item, *args, **kw):
    d = kw.pop("delays", {})
    time.sleep(d.get(item, 0) / 1000)
    if item == kw.get("fail"):
        raise Boom(str(item))
    return item, args, tuple(sorted(kw.items()))


def run_parloop(case):
    items, args = case["items"], tuple(case["args"])
    kw = {"k": case["kw"], "delays": {i: d for i, d in zip(items, case["delays"])}}
    if case["fail"] is not None and items:
        kw["fail"] = items[case["fail"] % len(items)]
    deco = nn.parloop(n_jobs=case["jobs"], prefer=case["prefer"])
    f = deco(work)
    require(f.__name__ == "work", "the name of the function is lost")
    seq = {"list": list, "tuple": tuple, "gen": iter, "np": np.array}[case["as"]](items)

    def serial():
        return [work(i, *args, **{k: dict(v) if k == "delays" else v for k, v in kw.items()}) for i in items]

    try:
        want = serial()
    except Boom:
        want = None
    try:
        if case["prefer"] == "threads" or case["jobs"] == 1:
            got = f(seq, *args, **kw)
        else:
            with joblib.parallel_config(backend="threading"):
                got = f(seq, *args, **kw)
    except Boom:
        got = None
    require(got == want, f"parallel loop returned {got}, the serial one {want}")
    return dict(nontrivial=len(items) >= 3 and case["jobs"] != 1, labels=["jobs=%d" % case["jobs"], "fails" if want is None else "returns"], sample=items)


def run_processes(case):
    """Real worker processes, as by default."""
    n, k = case["n"], case["k"]
    from joblib import Parallel  # noqa: F401

    got = nn.parloop(n_jobs=case["jobs"])(pow)(list(range(n)), k)
    require(got == [pow(i, k) for i in range(n)], f"parallel loop over processes returned {got}")
    return dict(nontrivial=n >= 3, labels=["processes"], sample=got)


funcs = st.fixed_dictionaries({"t": st.sampled_from(["lorentz", "lorentz", "lorentz", "sin", "kink", "step", "noise", "line", "const"]), "s": gen.seeds})
common_fields = dict(
    f=funcs, bend=gen.fl(2, 60), xrel=st.sampled_from([0.1, 0.03, 0.017, 0.0071, 0.0033]), df=gen.fl(0.001, 0.2),
    outputs=st.sampled_from([0, 0, 0, 1, 2, 4]), kind=st.sampled_from(["list", "tuple", "np"]),
)


def lanes():
    s = st.fixed_dictionaries(dict(
        common_fields, a=st.integers(-8, 8).map(float), scale=st.sampled_from([0.25, 1.0, 4.0, 64.0]), threads=st.sampled_from([1, 1, 1, 2, 4]),
        gaps=st.lists(st.sampled_from([4, 8, 8, 8, 16, 32]), min_size=2, max_size=20)))
    f = st.fixed_dictionaries(dict(common_fields, a=gen.fl(-5, 5), scale=gen.fl(0.05, 20), gs=gen.seeds, n=st.integers(3, 25), uniform=st.booleans()))
    p = st.fixed_dictionaries(dict(
        items=st.lists(st.integers(-50, 50), max_size=12, unique=True), delays=st.lists(st.integers(0, 4), min_size=12, max_size=12),
        args=st.lists(st.integers(0, 9), max_size=2), kw=st.integers(0, 9), jobs=st.sampled_from([1, 2, 3, 4]), prefer=st.sampled_from([None, "threads"]),
        fail=st.one_of(st.none(), st.none(), st.integers(0, 11)), **{"as": st.sampled_from(["list", "tuple", "gen"])}))
    q = st.fixed_dictionaries(dict(n=st.integers(0, 9), k=st.integers(1, 4), jobs=st.just(2)))
    bk = [("numpy", 0.7), ("autograd", 0.15), ("torch", 0.15)]
    return [Lane("sampler", s, run_sampler, 1600, backends=bk), Lane("floats", f, run_floats, 800, backends=bk),
            Lane("parloop", p, run_parloop, 400), Lane("processes", q, run_processes, 6, thorough=40, shards=1)]
