"""C27: the topology optimizer honours bounds, budget and stopping rules."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..common import Lane, close, import_nannos, require, tonp

nn = import_nannos()
bk = nn.backend
try:
    import nlopt  # noqa: F401

    METHODS = ["scipy", "nlopt"]
except ImportError:
    METHODS = ["scipy"]
RULE = (
    "A case is an objective (projected least squares, linear, wavy, saddle, diffraction efficiency of a grating), a "
    "start in [0, 1]^n, the method, the range of stages, the budget, a stop value, extra arguments and a callback.  The "
    "objective is instrumented: every point, its arguments and its value are recorded and the trace is checked.  "
    "Non-trivial: at least two stages or a reached stop value, with more than three evaluations."
)
ASSUMPTIONS = ["runs where the line search of scipy gives up are only checked for bounds, stages and callbacks", "the first extra argument is the projection level, as in the documentation; at least one stage"]


def objective(p, n):
    r = np.random.default_rng(p["s"])
    w, c = 0.2 + r.random(n), -0.4 + 1.8 * r.random(n)
    W, C = bk.array(w), bk.array(c)
    t = p["t"]

    def f(x, level, a, names, *rest):
        if t == "linear":
            return bk.sum((W - 0.7) * x) * a
        if t == "least squares":
            return bk.sum(W * (x - C) ** 2) + 0.01 * a
        if t == "projected":
            return bk.sum(W * (nn.optimize.project(x, level) - C) ** 2) * (0.5 + a)
        if t == "wavy":
            return bk.sum(bk.sin(6 * x * C + a) + W * (x - 0.4) ** 2)
        if t == "saddle":
            return bk.sum(W * x * (C - x)) + 0.1 * level * bk.sum(x[:1] ** 2)
        lat = nn.Lattice(1.3, discretization=(n, 1))
        g = lat.Layer("g", thickness=0.4)
        g.epsilon = bk.reshape(1.5 + W + 3 * nn.optimize.project(x, level), (n, 1)) + 0j  # W: never uniform
        s = nn.Simulation([lat.Layer("sup"), g, lat.Layer("sub", epsilon=2)], nn.PlaneWave(wavelength=1.1 + 0.1 * a, angles=(11, 0, 30)), nh=5)
        R, T = s.diffraction_efficiencies(orders=True)
        return -s.get_order(T, 0) + 0.1 * s.get_order(R, 0)

    return f, w, c


def run(case):
    n = max(case["n"], 7) if case["f"]["t"] == "grating" else case["n"]
    r = np.random.default_rng(case["xs"])
    x0 = r.random(n)
    if case["edge"]:
        x0 = np.round(x0)
    if case["f"]["t"] == "grating":
        x0 = 0.3 + 0.4 * r.random(n)
    f, w, c = objective(case["f"], n)
    evals, calls, grads = [], [], []
    extra = {"who": "me"}

    def fun(x, *args):
        y = f(x, *args)
        traced = hasattr(x, "_value") or getattr(x, "requires_grad", False)
        rec = (tonp(x).astype(float).copy(), args, float(np.real(tonp(y))))
        (grads if traced else evals).append(rec)
        return y

    def callback(x, y, *args):
        calls.append((tonp(x).astype(float).copy(), args, float(np.real(tonp(y)))))

    lo, hi = case["stages"][0], case["stages"][0] + case["stages"][1]
    args = [None, case["a"], extra] + ([3.5] if case["rest"] else [])
    stop = None
    if case["stop"] is not None:
        start = float(np.real(tonp(f(bk.array(x0), 2**lo, *args[1:]))))
        stop = start - case["stop"]
    given = bk.array(x0) if case["as"] == "backend" else (x0.tolist() if case["as"] == "list" else x0.copy())
    keep = tonp(given).astype(float).copy()
    options = {"ftol": 1e-14, "gtol": 1e-9} if case["tight"] and case["method"] == "scipy" else None
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        opt = nn.optimize.TopologyOptimizer(
            fun, given, method=case["method"], threshold=(lo, hi), maxiter=case["maxiter"], stopval=stop, args=args if case["list"] else tuple(args),
            callback=callback if case["callback"] else None, verbose=case["verbose"], options=options)
        x, y = opt.minimize()
    x, y = tonp(x).astype(float), float(np.real(tonp(y)))
    require(np.array_equal(tonp(given), keep), "the starting point was modified")
    require(args[0] is None and len(args) == (4 if case["rest"] else 3), "the arguments were modified")
    require(x.shape == (n,), f"optimum of shape {x.shape}")
    levels = [2**k for k in range(lo, hi)]
    # every evaluation: inside the box, stages in order with their level, arguments passed through
    for k, (p, a, v) in enumerate(evals + grads):
        require(p.shape == (n,), f"evaluation at an array of shape {p.shape}")
        require(p.min() >= 0 and p.max() <= 1, f"evaluation outside of [0, 1]: {p.min()}, {p.max()}")
        require(len(a) == len(args) and a[1] == case["a"] and a[2] is extra and list(a[3:]) == list(args[3:]), f"arguments {a}")
        require(a[0] in levels, f"projection level {a[0]}, expected one of {levels}")
    seq = [a[0] for _, a, _ in evals]
    require(seq == sorted(seq), f"projection levels not in order: {seq}")
    require(sorted(set(seq)) == levels, f"projection levels {sorted(set(seq))} instead of {levels}")
    if case["callback"]:
        require(len(calls) == len(evals), f"{len(calls)} callbacks for {len(evals)} evaluations")
        for (p, a, v), (q, b, u) in zip(evals, calls):
            require(np.array_equal(p, q) and a == b and v == u, "callback arguments do not match the evaluation")
    reached = 0
    prev = None
    tiny = 1e-12
    for L in levels:
        st_ = [e for e in evals if e[1][0] == L]
        first = st_[0]
        if prev is None:
            close("first point", first[0], x0, 1e-15)
        else:
            require(any(np.allclose(first[0], e[0], atol=1e-12) for e in prev), "a stage does not start from a point of the previous one")
            again = [e[2] for e in prev if np.allclose(first[0], e[0], atol=1e-12)]
            require(min(again) <= prev[0][2] + tiny, "a stage starts from a point worse than the start of the previous one")
        if case["method"] == "nlopt":
            require(len(st_) <= case["maxiter"], f"{len(st_)} evaluations for a budget of {case['maxiter']}")
        else:
            require(len(st_) <= 21 * (case["maxiter"] + 1), f"{len(st_)} evaluations in {case['maxiter']} iterations")
        if stop is not None:
            under = [k for k, e in enumerate(st_) if e[2] < stop]
            require(not under or under[0] == len(st_) - 1, f"{len(st_) - 1 - under[0] if under else 0} evaluations after the stop value was reached")
            reached += bool(under)
        prev = st_
    last = prev
    if len(levels) > 1 and case["f"]["t"] != "grating":
        # the stages one by one, each from the result of the previous one: the same history
        q = x0
        m = len(evals)
        for k in range(lo, hi):
            with contextlib.redirect_stdout(out):
                one = nn.optimize.TopologyOptimizer(fun, q, method=case["method"], threshold=(k, k + 1), maxiter=case["maxiter"], stopval=stop, args=args, options=options)
                q, v = one.minimize()
            q = tonp(q).astype(float)
        again = evals[m:]
        require(len(again) == m, f"{m} evaluations, {len(again)} stage by stage")
        for a, b in zip(evals[:m], again):
            close("point, stage by stage", a[0], b[0], 1e-12)
        evals = evals[:m]
        close("optimum, stage by stage", x, q, 1e-12)
        close("value, stage by stage", y, float(np.real(tonp(v))), 1e-12, scale=max(1, abs(y)))
    abnormal = case["method"] == "scipy" and "ABNORMAL" in str(getattr(getattr(opt, "opt", None), "message", ""))
    if abnormal:  # scipy itself returns a point and a value that do not belong together
        return dict(nontrivial=False, labels=["failed line search"])
    hit = [e for e in last if np.allclose(e[0], x, atol=1e-12)]
    require(hit, "the point returned was never evaluated")
    require(min(abs(e[2] - y) for e in hit) <= 1e-10 * max(1, abs(y)), f"value returned {y}, objective there {hit[-1][2]}")
    direct = float(np.real(tonp(f(bk.array(x), levels[-1], *args[1:]))))
    require(abs(direct - y) <= 1e-9 * max(1, abs(y)), f"value returned {y}, objective there {direct}")
    require(y <= last[0][2] + tiny * max(1, abs(y)), f"optimum {y} worse than the start {last[0][2]} of the last stage")
    under = stop is not None and last[-1][2] < stop
    if stop is not None and any(e[2] < stop for e in last):
        require(y < stop, "the stop value was reached but not returned")
    if case["method"] == "scipy" and not under:
        nit = getattr(getattr(opt, "opt", None), "nit", 0)
        require(nit <= case["maxiter"], f"{nit} iterations for a budget of {case['maxiter']}")
    require(opt.current_iteration == len(evals), f"{opt.current_iteration} iterations counted, {len(evals)} made")
    # enough budget on a simple problem: the constrained optimum is found
    simple = case["f"]["t"] in ("linear", "least squares")
    if simple and stop is None and case["maxiter"] >= 40:
        if case["f"]["t"] == "linear":
            best = np.where((w - 0.7) * case["a"] > 0, 0.0, 1.0)
        else:
            best = np.clip(c, 0, 1)
        fb = float(np.real(tonp(f(bk.array(best), levels[-1], *args[1:]))))
        require(y - fb <= 1e-4 * max(1.0, abs(fb)), f"optimum {y}, the true one is {fb}")
    if not case["verbose"] and case["method"] == "nlopt":
        require(out.getvalue() == "", "output although not verbose")
    labs = [case["f"]["t"], case["method"], "stages=%d" % len(levels), "stop reached" if reached else ("stop not reached" if stop is not None else "no stop value")]
    return dict(nontrivial=len(evals) > 3 and (len(levels) > 1 or reached > 0), labels=labs, sample={"evaluations": len(evals), "value": y})


def cases(kinds):
    return st.fixed_dictionaries(dict(
        f=st.fixed_dictionaries({"t": st.sampled_from(kinds), "s": gen.seeds}), n=st.integers(1, 9), xs=gen.seeds, edge=st.sampled_from([False, False, False, True]),
        method=st.sampled_from(METHODS), stages=st.tuples(st.integers(0, 3), st.integers(1, 3)).map(list), maxiter=st.sampled_from([1, 2, 3, 5, 10, 10, 40, 60]),
        stop=st.one_of(st.none(), st.sampled_from([-0.5, 0.0, 0.01, 0.05, 0.2, 0.5, 100.0])), a=gen.fl(0.1, 1), rest=st.booleans(), list=st.booleans(),
        callback=st.booleans(), verbose=st.booleans(), tight=st.booleans(), **{"as": st.sampled_from(["numpy", "backend", "list"])}))


def lanes():
    b = [("autograd", 0.5), ("torch", 0.5)]
    return [Lane("functions", cases(["linear", "least squares", "projected", "projected", "wavy", "saddle"]), run, 2400, backends=b),
            Lane("gratings", cases(["grating"]), run, 320, backends=b)]
