"""Shared machinery: violations, skips, conversions, generated-input search."""
import hashlib
import json
import os
import sys
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NNV_REPO", "/repo")
HYPOTHESIS_DIR = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
SHRINK_BUDGET = 150


class Violation(Exception):
    """The property does not hold on this case."""


class Skip(Exception):
    """The case is outside the domain of the property (reason in args[0])."""


def canon(case):
    return json.dumps(case, sort_keys=True, default=str)


def digest(case):
    return hashlib.sha1(canon(case).encode()).hexdigest()[:12]


def derive_seed(*parts):
    return int(hashlib.sha256("|".join(map(str, parts)).encode()).hexdigest()[:12], 16)


def import_hypothesis():
    if HYPOTHESIS_DIR not in sys.path:
        sys.path.append(HYPOTHESIS_DIR)  # last: numpy and friends come from the venv
    import hypothesis

    return hypothesis


import_hypothesis()


def import_nannos():
    import warnings

    warnings.simplefilter("ignore")
    import nannos

    root = os.path.dirname(os.path.dirname(os.path.abspath(nannos.__file__)))
    if root != os.path.abspath(REPO):
        raise RuntimeError(f"nannos is imported from {root}, not {REPO}")
    return nannos


def tonp(x):
    """numpy array from an array of any backend (recursively for lists)."""
    import numpy as np

    if isinstance(x, (list, tuple)):
        return np.array([tonp(v) for v in x])
    if hasattr(x, "detach"):
        x = x.detach().cpu().numpy()
    if hasattr(x, "_value") and not hasattr(x, "__array__"):  # autograd boxes
        x = x._value
    return np.asarray(x)


def fnum(x):
    """python number from a 0-d array of any backend; Violation if it is not one."""
    a = tonp(x)
    if a.size != 1:
        raise Violation(f"expected a scalar, got an array of shape {a.shape}")
    return a.reshape(())[()]


def want_shape(name, x, shape):
    a = tonp(x)
    if tuple(a.shape) != tuple(shape):
        raise Violation(f"{name} has shape {tuple(a.shape)}, expected {tuple(shape)}")
    return a


def close(name, got, want, tol, scale=None, stats=None):
    """|got - want| <= tol * max(1, scale) elementwise, else Violation."""
    import numpy as np

    got, want = np.asarray(tonp(got)), np.asarray(tonp(want))
    if got.shape != want.shape and got.size != want.size:
        raise Violation(f"{name}: shape {got.shape} instead of {want.shape}")
    if got.shape != want.shape:
        if got.ndim == 0 or want.ndim == 0 or got.squeeze().shape == want.squeeze().shape:
            got, want = got.reshape(-1), want.reshape(-1)
        else:
            raise Violation(f"{name}: shape {got.shape} instead of {want.shape}")
    if got.size == 0:
        return 0.0
    if not np.all(np.isfinite(got)):
        raise Violation(f"{name}: non-finite value")
    err = float(np.max(np.abs(got - want)))
    s = max(1.0, float(np.max(np.abs(want)))) if scale is None else max(1e-300, scale)
    rel = err / s
    if stats is not None:
        stats[name.split(":")[0]] = max(stats.get(name.split(":")[0], 0.0), rel)
    if not rel <= tol:
        k = int(np.argmax(np.abs(got - want)))
        g, w = got.reshape(-1)[k], want.reshape(-1)[k]
        raise Violation(f"{name}: got {g!r}, expected {w!r} (error {rel:.3e} > {tol:.1e})")
    return rel


def require(cond, msg):
    if not bool(cond):
        raise Violation(msg)


def from_code_under_test(exc):
    """True when the exception passed through a frame of the library."""
    root = os.path.join(os.path.abspath(REPO), "nannos") + os.sep
    tb = exc.__traceback__
    while tb is not None:
        if os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


class Lane:
    """One generator with its oracle.

    strategy: hypothesis strategy of JSON-able cases
    run(case) -> dict(nontrivial=bool, labels=[...], sample=..., stats={...})
    quick/thorough: number of cases per tier over all shards
    backends: list of (backend, share of the cases)
    """

    def __init__(self, name, strategy, run, quick, thorough=None, backends=None, shards=8):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick = quick
        self.thorough = thorough or quick * 12
        self.backends = backends or [("numpy", 1.0)]
        self.shards = shards

    def tasks(self, tier):
        """[(backend, shard, n cases)]"""
        total = self.quick if tier == "quick" else self.thorough
        out = []
        wsum = sum(w for _, w in self.backends)
        for b, w in self.backends:
            n = max(1, int(round(total * w / wsum)))
            ns = max(1, min(self.shards, int(round(self.shards * w / wsum)) or 1, n))
            for i in range(ns):
                k = n // ns + (1 if i < n % ns else 0)
                if k:
                    out.append((b, i, k))
        return out


def default_backends(*extra):
    return [("numpy", 0.5), ("scipy", 0.1), ("autograd", 0.15), ("torch", 0.25)]


class Outcome:
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = {}
        self.skips = {}
        self.stats = {}
        self.samples = []
        self.failure = None
        self.error = None

    def as_dict(self):
        return dict(
            evaluations=self.evaluations,
            nontrivial=sorted(self.nontrivial),
            labels=self.labels,
            skips=self.skips,
            stats=self.stats,
            samples=self.samples,
            failure=self.failure,
            error=self.error,
        )


def run_one(lane, case):
    """Run one case: returns its report dict, raises Violation / Skip / others."""
    try:
        return lane.run(case) or {}
    except (Violation, Skip):
        raise
    except Exception as e:
        if from_code_under_test(e):
            tb = traceback.extract_tb(e.__traceback__)
            where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-4:])
            raise Violation(f"raised {type(e).__name__}: {str(e)[:200]} ({where})") from e
        raise


def search(lane, seed, n):
    """Generated-input search of one lane shard; returns an Outcome."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    out = Outcome()
    failing = {}
    state = {"after": 0, "last": None}

    def outcome(case, key):
        """(report, message): message is None when the case passes."""
        if failing:
            state["after"] += 1
            if state["after"] > SHRINK_BUDGET and key not in failing:
                return None, None
        if key in failing:
            return None, failing[key]
        out.evaluations += 1
        try:
            return run_one(lane, case), None
        except Skip as s:
            r = str(s.args[0]) if s.args else "?"
            out.skips[r] = out.skips.get(r, 0) + 1
        except Violation as v:
            failing[key] = str(v)
        return None, failing.get(key)

    def body(case):
        key = canon(case)
        rep, msg = outcome(case, key)
        if msg is not None:
            state["last"] = (case, msg)
            raise Violation(msg)  # the only place: one failure for the shrinker
        if rep is None:
            return
        for lab in rep.get("labels", []):
            out.labels[str(lab)] = out.labels.get(str(lab), 0) + 1
        for k, v in rep.get("stats", {}).items():
            out.stats[k] = max(out.stats.get(k, 0.0), float(v))
        if rep.get("nontrivial", True):
            out.nontrivial.add(digest(case))
            c = len(out.nontrivial)
            if c in (3, 40, 300) and len(out.samples) < 3:
                out.samples.append({"case": case, "observed": rep.get("sample")})

    test = given(lane.strategy)(body)
    test = settings(
        max_examples=n,
        deadline=None,
        database=None,
        suppress_health_check=list(HealthCheck),
        phases=[Phase.generate, Phase.shrink],
        print_blob=False,
        report_multiple_bugs=False,
    )(test)
    test = hypothesis.seed(seed)(test)
    try:
        test()
    except Violation as v:
        case, msg = state["last"] if state["last"] else (None, str(v))
        out.failure = {"case": case, "message": msg}
    except Exception as e:  # harness error (also hypothesis errors)
        if failing and type(e).__name__ in ("FlakyFailure", "Flaky", "FlakyReplay"):
            case, msg = state["last"]
            out.failure = {"case": case, "message": msg + " [not deterministic]"}
        else:
            out.error = "".join(traceback.format_exception(e))[-4000:]
    return out
