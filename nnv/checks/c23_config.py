"""C23: configuration switches select exactly what they say."""
import io
import os
import pickle
import select
import signal
import struct
import sys
import time
import traceback

import numpy as np
from hypothesis import strategies as st

from .. import common, gen
from ..common import Lane, Skip, Violation, close, require, tonp

NO_IMPORT = True  # the workers do not import nannos: every case does it in a process of its own
RULE = (
    "A case is a fresh process: environment defaults (NANNOS_BACKEND valid, invalid or absent, NANNOS_GPU), then up to "
    "ten switches (set_backend valid or invalid, use_32_bit, use_gpu, set_log_level) with problems solved in between, each compared "
    "with the last valid values requested and with a fresh process in that configuration.  Non-trivial: at least two "
    "effective switches and one problem solved after them."
)
ASSUMPTIONS = ["no GPU in the sandbox: asking for one must fall back to the CPU (jax with a GPU request is not generated)",
               "permittivity maps are given in the precision selected"]
BACKENDS = ["numpy", "scipy", "autograd", "torch", "jax"]
BAD = ["Numpy", "", "pytorch", "cupy", "tensorflow", "autograd ", "jax.numpy", None]
MODULE = {"numpy": "numpy", "scipy": "numpy", "autograd": "autograd.numpy", "torch": "torch", "jax": "jax.numpy"}


def preload():
    """Third-party modules are loaded once; the library itself is imported in each process."""
    if "torch" not in sys.modules or "pyvista" not in sys.modules:
        for m in ("numpy", "scipy", "autograd", "torch", "jax"):
            try:
                __import__(m)
            except ImportError:
                pass
        pid = os.fork()  # does the import work at all?
        if pid == 0:
            try:
                common.import_nannos()
                os._exit(0)
            except BaseException:
                os._exit(1)
        if os.waitpid(pid, 0)[1] == 0:
            env = {k: os.environ.pop(k, None) for k in ("NANNOS_BACKEND", "NANNOS_GPU")}
            common.import_nannos()
            for k in [k for k in sys.modules if k == "nannos" or k.startswith("nannos.")]:
                del sys.modules[k]
            os.environ.update({k: v for k, v in env.items() if v is not None})


def in_child(f, *args, timeout=120):
    """f(*args) in a forked process: ('ok', value) / ('library', message) / ('harness', traceback)"""
    preload()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            try:
                out = ("ok", f(*args))
            except Violation as v:
                out = ("violation", str(v))
            except Exception as e:
                if common.from_code_under_test(e):
                    tb = traceback.extract_tb(e.__traceback__)
                    where = "; ".join(f"{os.path.basename(k.filename)}:{k.lineno}" for k in tb[-3:])
                    out = ("library", f"{type(e).__name__}: {str(e)[:200]} ({where})")
                else:
                    out = ("harness", traceback.format_exc()[-2000:])
            b = pickle.dumps(out)
            b = struct.pack("<q", len(b)) + b
            while b:
                b = b[os.write(w, b):]
        except BaseException:
            code = 1
        os._exit(code)
    os.close(w)
    buf, end = b"", time.time() + timeout
    while True:
        ok, _, _ = select.select([r], [], [], max(0, end - time.time()))
        if not ok:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            raise RuntimeError("child timed out")
        c = os.read(r, 1 << 20)
        if not c:
            break
        buf += c
    os.close(r)
    st_ = os.waitpid(pid, 0)[1]
    if len(buf) < 8:
        raise RuntimeError(f"child ended with status {st_}")
    kind, val = pickle.loads(buf[8:])
    if kind == "harness":
        raise RuntimeError(val)
    return kind, val


def tname(t):
    return str(getattr(t, "__name__", t)).replace("torch.", "")


def state(nn):
    return dict(
        backend=nn.get_backend(), BACKEND=nn.BACKEND, module=nn.backend.__name__, device=nn.get_device(),
        DEVICE=nn.DEVICE, types=[tname(t) for t in nn.get_types()], attr=[tname(nn.FLOAT), tname(nn.COMPLEX)],
        available=sorted(nn.available_backends),
    )


LEVELS = ["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"]


def emitted(nn):
    """how many times a message of each level is written"""
    n0 = len(sys.stderr.getvalue())
    for l in LEVELS:
        getattr(nn.logger, l.lower())(f"nnv-{l}-probe")
    text = sys.stderr.getvalue()[n0:]
    return [text.count(f"nnv-{l}-probe") for l in LEVELS]


def dtype(a):
    return tname(getattr(a, "dtype", type(a)))


def compute(nn, sc):
    """a bit of everything, as numpy arrays with the type of the original"""
    kw = {"tangent_field_type": "fft"} if sc["form"] != "original" else {}
    sim = gen.make_sim(nn, sc, layer_kw=kw)
    R, T = sim.diffraction_efficiencies(orders=True)
    r, t = sim.diffraction_efficiencies(orders=True, complex=True)
    out = {"R": R, "T": T, "r": r, "t": t, "field": sim.get_field_fourier(len(sc["layers"]) - 1, 0.1),
           "kx": sim.kx, "x": sim.lattice.grid, "k": sim.excitation.wavevector}
    d = gen.to_backend(nn, np.linspace(0.1, 0.9, 48).reshape(8, 6))
    out["projected"] = nn.optimize.project(d, 3.0)
    out["filtered"] = nn.utils.apply_filter(d, 1.5)
    out["ones"] = sim.lattice.ones()
    out = {k: (dtype(v), tonp(v)) for k, v in out.items()}
    out["harmonics"] = ("float64", gen.harmonics_of(sim))
    return out


def slope(nn, sc):
    lattice = gen.make_lattice(nn, sc)

    def f(x):
        layers = [gen.make_layer(nn, lattice, sc, L) for L in sc["layers"]]
        layers[0] = lattice.Layer(sc["layers"][0]["name"], epsilon=x[0])
        s = nn.Simulation(layers, gen.make_pw(nn, sc), nh=sc["nh"])
        R, T = s.diffraction_efficiencies()
        return R

    try:
        return tonp(nn.grad(f)(nn.backend.array([1.3])))
    except NotImplementedError:
        return None


def history(env, ops, scenes):
    for k in ("NANNOS_BACKEND", "NANNOS_GPU"):
        os.environ.pop(k, None)
    os.environ.update(env)
    sys.stderr = io.StringIO()
    nn = common.import_nannos()
    out = [dict(state=state(nn))]
    for op in ops:
        rec = {}
        k = op[0]
        try:
            if k == "backend":
                nn.set_backend(op[1])
            elif k == "bits":
                nn.use_32_bit(op[1])
            elif k == "gpu":
                nn.use_gpu(op[1])
            elif k == "log":
                nn.set_log_level(op[1])
            elif k == "solve":
                rec["value"] = compute(nn, scenes[op[1]])
            elif k == "grad":
                rec["value"] = slope(nn, scenes[op[1]])
        except (ValueError, KeyError, TypeError) as e:
            if k != "log" and (k != "backend" or not isinstance(e, ValueError)):
                raise
            rec["refused"] = str(e)
        rec["state"] = state(nn)
        rec["log"] = emitted(nn)
        out.append(rec)
    return out


def run(case):
    env = {}
    if case["env"] is not None:
        env["NANNOS_BACKEND"] = case["env"]
    if case["gpu"] is not None:
        env["NANNOS_GPU"] = case["gpu"]
    backend = case["env"] if case["env"] in BACKENDS else "numpy"
    ops = []
    # requests for a GPU with jax are outside what can be explored here
    b = backend
    if env.get("NANNOS_GPU") and b == "jax":
        raise Skip("GPU with jax")
    for op in case["ops"]:
        if op[0] == "gpu" and op[1] and b == "jax":
            op = ["gpu", False]
        if op[0] == "backend" and op[1] in BACKENDS:
            b = op[1]
        ops.append(op)
    kind, got = in_child(history, env, ops, case["scenes"])
    if kind != "ok":
        raise Violation(f"history raised {got}" if kind == "library" else got)
    single, level = False, "WARNING"
    stats, labs, switches, solved = {}, ["env=%s" % case["env"], "NANNOS_GPU" if case["gpu"] is not None else "no NANNOS_GPU"], 0, 0
    fresh = {}
    for i, rec in enumerate(got):
        what = f"after {[env] + ops[:i]}"
        if i:
            op = ops[i - 1]
            if op[0] == "backend":
                bad = op[1] not in BACKENDS
                require(bad == ("refused" in rec), f"{what}: set_backend({op[1]!r}) {'accepted' if bad else 'refused'}")
                if not bad:
                    switches += op[1] != backend
                    backend = op[1]
                labs.append("invalid backend" if bad else "to " + op[1])
            elif op[0] == "bits":
                switches += op[1] != single
                single = op[1]
                labs.append("32 bit" if single else "64 bit")
            elif op[0] == "gpu":
                labs.append("use_gpu")
            elif op[0] == "log":
                require((op[1] not in LEVELS) == ("refused" in rec), f"{what}: level {op[1]!r} {'refused' if 'refused' in rec else 'accepted'}")
                if op[1] in LEVELS:
                    level = op[1]
                labs.append("log level")
            n = [int(l >= LEVELS.index(level)) for l in range(len(LEVELS))]
            require(rec["log"] == n, f"{what}: messages of {LEVELS} written {rec['log']} times with level {level}")
        s = rec["state"]
        types = ["float32", "complex64"] if single else ["float64", "complex128"]
        want = dict(backend=backend, BACKEND=backend, module=MODULE[backend], device="cpu", DEVICE="cpu", types=types,
                    attr=types, available=sorted(BACKENDS))
        for k in want:
            if k == "available":
                continue
            require(s[k] == want[k], f"{what}: {k} is {s[k]!r}, expected {want[k]!r}")
        if i and op[0] in ("solve", "grad"):
            solved += switches >= 2
            fops = ([["bits", True]] if single else []) + [op]
            key = (backend, single, op[0], op[1])
            if key not in fresh:
                kind, ref = in_child(history, {"NANNOS_BACKEND": backend}, fops, case["scenes"])
                if kind != "ok":
                    raise Violation(f"fresh process with {backend}, {types}: {ref}")
                fresh[key] = ref[-1]["value"]
            ref, val = fresh[key], rec["value"]
            labs.append(op[0] + " " + backend + (" 32" if single else ""))
            if op[0] == "grad":
                if backend in ("autograd", "torch"):
                    require(val is not None, f"{what}: gradient not available with {backend}")
                    if np.all(np.isfinite(ref)):  # degenerate modes otherwise
                        close("gradient", val, ref, 1e-4 if single else 1e-11, stats=stats)
                else:
                    require(val is None, f"{what}: gradient with {backend} instead of NotImplementedError")
                continue
            for k in val:
                require(val[k][0] == ref[k][0], f"{what}: {k} has type {val[k][0]}, {ref[k][0]} in a fresh process")
                require(single or val[k][0] in ("float64", "complex128"), f"{what}: {k} has type {val[k][0]}")
                close(f"same as fresh: {what}: {k}", val[k][1], ref[k][1], 1e-5 if single else 1e-11)
            if single:
                key = (backend, False, "solve", op[1])
                if key not in fresh:
                    kind, ref = in_child(history, {"NANNOS_BACKEND": backend}, [op], case["scenes"])
                    if kind != "ok":
                        raise Violation(f"fresh process with {backend}: {ref}")
                    fresh[key] = ref[-1]["value"]
                ref = fresh[key]
                rows = [[tuple(map(int, h)) for h in v["harmonics"][1].T] for v in (val, ref)]
                # equal lengths may be sorted differently in single precision
                require(sorted(rows[0]) == sorted(rows[1]), f"{what}: other harmonics than in double precision")
                perm = [rows[1].index(h) for h in rows[0]]
                for k in ("R", "T"):
                    close(f"single precision: {what}: {k}", val[k][1], ref[k][1][perm], 2e-3)
    return dict(nontrivial=switches >= 2 and solved > 0, labels=sorted(set(labs)), stats=stats, sample=[r["state"]["backend"] for r in got])


@st.composite
def cases(draw, jax):
    pool = BACKENDS if jax else BACKENDS[:4]
    env = draw(st.sampled_from([None, None] + pool + (["nonsense", ""])))
    gpu = draw(st.sampled_from([None, None, None, "1", "0"]))
    ops = []
    for _ in range(draw(st.integers(3, 12))):
        k = draw(st.sampled_from(["backend", "backend", "bits", "solve"] if jax else ["backend", "backend", "backend", "bits", "bits", "gpu", "log", "solve", "grad"]))
        if k == "backend":
            ops.append([k, draw(st.sampled_from(pool * 4 + BAD))])
        elif k == "log":
            ops.append([k, draw(st.sampled_from(LEVELS * 3 + ["info", "", "NOTSET"]))])
        elif k in ("bits", "gpu"):
            ops.append([k, draw(st.booleans())])
        else:
            ops.append([k, draw(st.integers(0, 1))])
    if jax:
        ops.insert(draw(st.integers(0, len(ops))), ["backend", "jax"])
    ops.append(["solve", draw(st.integers(0, 1))])
    sc = [draw(gen.scenes(inner=(1, 2), need_pattern=True, nh=(2, 9), nh1d=(3, 7), forms=("original", "original", "tangent"),
                          kinds=["smooth"], lossless=True, thick=gen.fl(0.05, 0.6), user_harm=False)) for _ in range(2)]
    for s in sc:
        s["ang"] = [draw(gen.fl(5, 40)), draw(gen.fl(5, 85)), draw(gen.fl(5, 85))]
        s["wl"] = round(draw(gen.fl(1.3, 2.5)) * gen.extent(s["lat"]), 9)
    return {"env": env, "gpu": gpu, "ops": ops, "scenes": sc}


def lanes():
    b = [("", 1.0)]
    a = Lane("switches", cases(False), run, 320, backends=b)
    j = Lane("switches with jax", cases(True), run, 16, backends=b)
    j.cost = 12.0
    return [a, j]
