"""C29: plots show the structure that is simulated."""
import matplotlib

matplotlib.use("agg")
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..common import Lane, Skip, close, default_backends, import_nannos, require, tonp

nn = import_nannos()
RULE = (
    "A case is a generated stack with a lattice and plot options.  Lane structure: the meshes received by a recording "
    "plotter are turned into boxes in lattice coordinates; at the centre of every cell of every repetition, at random "
    "points inside and around, they give the permittivity (and colour) the model of the stack has there, none in "
    "vacuum, never two, and the volumes agree.  Lane layer: the quadrilaterals of the axes (data, corners, "
    "transformation, outline of the cell).  Non-trivial: a patterned layer (lane structure), a pattern (lane layer)."
)
ASSUMPTIONS = ["scalar permittivities", "vacuum is judged by the real part, which is what is drawn", "permittivities differ by more than 1e-6 (the plot selects the cells within 1e-7)", "meshes and artists are compared, not pixels"]


class Camera:
    azimuth = elevation = roll = 0.0


class Recorder:
    """Stand-in for a plotter: keeps what it is asked to draw."""

    def __init__(self):
        self.meshes, self.camera = [], Camera()

    def add_mesh(self, mesh, *args, **kw):
        self.meshes.append((mesh.copy(), dict(kw)))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: None


def boxes(rec, B):
    """(low corners, high corners, values, options) in lattice coordinates."""
    lo, hi, val, opt = [], [], [], []
    M = np.eye(3)
    M[:2, :2] = np.linalg.inv(B)
    for mesh, kw in rec.meshes:
        data = [np.asarray(mesh.cell_data[k]) for k in mesh.cell_data if k.startswith("permittivity")]
        require(len(data) == 1, "a mesh without permittivity")
        vals = data[0].reshape(-1)
        if type(mesh).__name__ == "PolyData":  # surface of one box
            groups = [np.asarray(mesh.points)]
            require(np.ptp(vals) == 0, "a box with several permittivities")
            vals = vals[:1]
        else:
            groups = [np.asarray(mesh.get_cell(c).points) for c in range(mesh.n_cells)]
        for pts, v in zip(groups, vals):
            q = pts @ M.T
            lo.append(q.min(axis=0))
            hi.append(q.max(axis=0))
            # every corner of the box is a point of the mesh: the cell is the image of a box
            c = np.array([[(lo[-1], hi[-1])[b][k] for k, b in enumerate(bits)] for bits in np.ndindex(2, 2, 2)])
            d = np.abs(c[:, None] - q[None]).max(axis=2).min(axis=1).max()
            require(d < 1e-4, "a cell that is not a parallelepiped along the lattice vectors")
            val.append(float(v))
            opt.append(kw)
    return np.array(lo).reshape(-1, 3), np.array(hi).reshape(-1, 3), np.array(val), opt


def run_structure(case):
    sc = case["sc"]
    lat = gen.make_lattice(nn, sc)
    layers = [gen.make_layer(nn, lat, sc, L) for L in sc["layers"]]
    sim = nn.Simulation(layers, gen.make_pw(nn, sc), nh=sc["nh"])
    B = gen.basis(sc["lat"]).T  # columns
    nper = tuple(case["nper"])
    dz = case["dz"]
    h0 = max(L["h"] for L in sc["layers"])
    nt = case["null"]
    if nt is None and h0 == 0:
        nt = 0.5
    kw = {} if nt is None else {"null_thickness": nt}
    shape = tuple(lat.discretization)
    eps = [np.asarray(gen.eps_of(L["eps"], shape)).real for L in sc["layers"]]
    for e in eps:
        u = np.unique(np.append(e, 1.0))
        if np.any(np.diff(u) < 1e-6 * np.abs(u[1:])):
            raise Skip("permittivities that the plot does not tell apart")
    opts = {}
    for k in case["opts"]:
        opts["layer_" + k] = [
            (("c", i) if e.ndim == 0 else [("c", i, j) for j in range(len(np.unique(e)))]) for i, e in enumerate(eps)]
    rec = Recorder()
    out = sim.plot_structure(plotter=rec, nper=nper, dz=dz, opacity=0.5, **kw, **opts) if case["nper_given"] else sim.plot_structure(
        plotter=rec, dz=dz, opacity=0.5, **kw, **opts)
    require(out is rec, "the plotter given is not the one returned")
    if not case["nper_given"]:
        nper = (1, 1)
    lo, hi, val, opt = boxes(rec, B)
    # model of the stack
    z, slabs = 0.0, []
    for L in sc["layers"]:
        h = L["h"] or (h0 if nt is None else nt)
        slabs.append((z, z + h))
        z += h + dz
    if min(b - a for a, b in slabs) < 1e-3:
        raise Skip("layer too thin for the single precision of the meshes")
    r = np.random.default_rng(case["s"])
    pts, want, cells, vol = [], [], [], 0.0
    for i, e in enumerate(eps):
        a, b = slabs[i]
        n = (1, 1) if e.ndim == 0 else shape
        for jx in range(nper[0]):
            for jy in range(nper[1]):
                for ix, iy in np.ndindex(n):
                    v = float(e) if e.ndim == 0 else float(e[ix, iy])
                    u = ((ix + np.array([0.5, r.uniform(0.05, 0.95)])) / n[0], (iy + np.array([0.5, r.uniform(0.05, 0.95)])) / n[1])
                    for k in range(2):
                        pts.append([jx + u[0][k], jy + u[1][k], a + (b - a) * (0.5 if k == 0 else r.uniform(0.05, 0.95))])
                        want.append(v)
                        key = (i,) if e.ndim == 0 else (i, int(np.searchsorted(np.unique(e), v)))
                        cells.append(key)
                    vol += (b - a) / (n[0] * n[1]) * (v != 1)
        if dz > 1e-3 and i + 1 < len(eps):
            pts.append([r.uniform(0, 1), r.uniform(0, 1), b + dz / 2])
            want.append(1.0)
            cells.append(None)
    for _ in range(12):  # around
        p = [r.uniform(-0.5, nper[0] + 0.5), r.uniform(-0.5, nper[1] + 0.5), r.uniform(-0.3, z + 0.3)]
        if (-0.02 < p[0] < nper[0] + 0.02) and (-0.02 < p[1] < nper[1] + 0.02) and (-0.02 < p[2] < z + 0.02):
            continue
        pts.append(p)
        want.append(1.0)
        cells.append(None)
    pts = np.array(pts)
    inside = np.all((pts[:, None] > lo[None]) & (pts[:, None] < hi[None]), axis=2) if len(lo) else np.zeros((len(pts), 0), bool)
    count = inside.sum(axis=1)
    for k in range(len(pts)):
        what = f"{np.round(pts[k], 3).tolist()} (lattice coordinates)"
        if want[k] == 1:
            require(count[k] == 0, f"something is drawn at {what}, where there is vacuum")
            continue
        require(count[k] == 1, f"{count[k]} boxes drawn at {what}, where the permittivity is {want[k]}")
        b = int(np.argmax(inside[k]))
        close(f"permittivity drawn at {what}", val[b], want[k], 1e-6)
        require(opt[b].get("opacity") == 0.5, "options of the plot are lost")
        for o in case["opts"]:
            got = opt[b].get(o[:-1] if o == "colors" else o)
            require(tuple(got or ()) == ("c",) + cells[k], f"{o} {got} of layer {cells[k]}")
    close("volume drawn", np.prod(hi - lo, axis=1).sum() if len(lo) else 0.0, vol, 1e-4)
    return dict(nontrivial=gen.has_pattern(sc), labels=[sc["lat"]["kind"], "nper=%dx%d" % nper, "dz" if dz else "no dz", "colors" if case["opts"] else "plain"],
                stats={}, sample={"boxes": len(lo), "points": len(pts)})


def run_layer(case):
    sc = case["sc"]
    lat = gen.make_lattice(nn, sc)
    L = [L for L in sc["layers"] if isinstance(L["eps"], dict)]
    if not L:
        raise Skip("no pattern")
    layer = gen.make_layer(nn, lat, sc, L[0])
    eps = np.asarray(gen.eps_of(L[0]["eps"], tuple(lat.discretization)))
    B = gen.basis(sc["lat"])
    fig = plt.figure()
    try:
        ax = fig.add_subplot(1, 2, 2)
        fig.add_subplot(1, 2, 1) if case["other"] else plt.sca(ax)
        kw = {} if not case["other"] else {"ax": ax}
        nper = case["nper"]
        if case["int"]:
            nper = [nper[0]] * 2
        if nper != [1, 1] or case["s"] % 2:
            kw["nper"] = (nper[0] if case["s"] % 3 else np.int64(nper[0])) if case["int"] else tuple(nper)
        if case["comp"] != "re" or case["s"] % 3:
            kw["comp"] = case["comp"]
        if case["cmap"]:
            kw["cmap"] = case["cmap"]
        if case["vmin"]:
            kw["vmin"] = -3.25
        ims = layer.plot(show_cell=case["cell"], **kw)
        data = eps.real if case["comp"] == "re" else eps.imag
        require(len(ims) == nper[0] * nper[1] and all(im.axes is ax for im in ims), f"{len(ims)} artists for nper={nper}")
        n = tuple(lat.discretization)
        u = np.stack(np.meshgrid(*[np.linspace(0, 1, k) if k > 1 else np.zeros(1) for k in n], indexing="ij"), -1)
        grid = u @ B
        todo = {(i, j) for i in range(nper[0]) for j in range(nper[1])}
        for im in ims:
            close("permittivity of the cells", np.asarray(im.get_array()).reshape(n), data, 1e-15)
            T = (im.get_transform() - ax.transData).get_matrix()
            close("transformation", T[:2, :2], np.eye(2), 1e-9)
            close("transformation", T[2], [0, 0, 1], 1e-12)
            ij = np.linalg.solve(B.T, T[:2, 2])
            key = tuple(int(x) for x in np.round(ij))
            require(key in todo and np.abs(ij - key).max() < 1e-6, f"a cell at {np.round(ij, 4).tolist()} lattice vectors from the first")
            todo.discard(key)
            c = im.get_coordinates()
            require(c.shape == (n[0] + 1, n[1] + 1, 2), f"corners of shape {c.shape} for {n} cells")
            mid = 0.25 * (c[1:, 1:] + c[1:, :-1] + c[:-1, 1:] + c[:-1, :-1])
            close("centres of the cells", mid, grid, 1e-9)
            require(im.get_cmap().name == (case["cmap"] or "tab20c"), "colour map is lost")
            if case["vmin"]:
                require(im.norm.vmin == -3.25, "options are lost")
        V = np.array([[i, j] for i in (0, nper[0]) for j in (0, nper[1])]) @ B
        size = 1e-9 * np.abs(B).max()
        for k, lim in enumerate((ax.get_xlim(), ax.get_ylim())):
            require(lim[0] <= V[:, k].min() + size and V[:, k].max() - size <= lim[1], f"limits {lim} of axis {k} cut the structure ({V[:, k].min()} to {V[:, k].max()})")
            require(lim[1] - lim[0] <= 2 * (np.ptp(V[:, k]) + np.abs(B).sum()), f"limits {lim} of axis {k} for {V[:, k].min()} to {V[:, k].max()}")
        require(ax.get_aspect() in ("equal", 1.0, 1), "axes of different scales")
        seg = [np.array(l.get_xydata()) for l in ax.lines]
        if case["cell"]:
            o, a, b = np.zeros(2), B[0], B[1]
            for p, q in [(o, a), (a, a + b), (o, b), (b, a + b)]:
                m = [s for s in seg if len(s) == 2 and (np.abs(s - [p, q]).max() < 1e-9 or np.abs(s - [q, p]).max() < 1e-9)]
                require(len(m) >= 1, f"no edge of the cell from {p} to {q}")
            require(len(seg) <= 4, "lines that are no edges of the cell")
        else:
            require(not seg, "the cell is outlined although this was not asked")
    finally:
        plt.close(fig)
    return dict(nontrivial=np.ptp(data) > 0, labels=[sc["lat"]["kind"], "nper=%dx%d" % tuple(nper), case["comp"], "cell" if case["cell"] else "no cell"],
                stats={}, sample={"shape": n})


def lanes():
    kinds = ["two", "rect", "rect", "disk", "noise"]
    sc = gen.scenes(inner=(0, 4), nh=(1, 6), nh1d=(1, 7), kinds=kinds, user_harm=False, outer_thickness=True, thick=st.one_of(gen.fl(0.05, 1.2), gen.fl(0.05, 1.2), st.just(0.0)))
    per = st.tuples(st.integers(1, 3), st.integers(1, 3)).map(list)
    s = st.fixed_dictionaries(dict(
        sc=sc, s=gen.seeds, nper=per, nper_given=st.booleans(), dz=st.one_of(st.just(0.0), gen.fl(0.05, 1)), null=st.one_of(st.none(), gen.fl(0.1, 2)),
        opts=st.sampled_from([[], [], ["colors"], ["metallic"], ["roughness"], ["colors", "roughness", "metallic"]])))
    l = st.fixed_dictionaries(dict(
        sc=gen.scenes(inner=(1, 2), need_pattern=True, nh=(1, 8), nh1d=(1, 9), kinds=kinds + ["smooth"], user_harm=False), s=gen.seeds, nper=per, int=st.booleans(),
        comp=st.sampled_from(["re", "im"]), cmap=st.sampled_from([None, None, "viridis"]), vmin=st.booleans(), cell=st.booleans(), other=st.booleans()))
    b = default_backends()
    return [Lane("structure", s, run_structure, 640, backends=b), Lane("layer", l, run_layer, 720, backends=b)]
