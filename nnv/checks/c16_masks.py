"""C16: shape masks are the points of the lattice grid that lie inside the shape."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..common import Lane, close, default_backends, import_nannos, require, tonp

nn = import_nannos()
RULE = (
    "A case is a lattice, a discretization and a shape (circle, ellipse, square, rectangle, star polygon, with "
    "rotation, any position relative to the cell; shapely geometries with holes and several parts).  Oracle: "
    "closed-form inside test at every grid point; points within 1e-7 (circles: the 0.13 % of the polygonal "
    "approximation) of the boundary are left out.  Non-trivial: the mask has both values."
)


@st.composite
def shapes(draw, rich=True):
    t = draw(st.sampled_from(["circle", "ellipse", "square", "rectangle", "polygon", "geometry"]))
    c = [draw(gen.fl(-0.3, 1.3)), draw(gen.fl(-0.3, 1.3))]
    s = {"t": t, "c": c, "r": [draw(gen.fl(0.03, 0.9)), draw(gen.fl(0.03, 0.9))], "rot": draw(st.one_of(st.just(0.0), gen.fl(-180, 360)))}
    if t in ("polygon", "geometry"):
        n = draw(st.integers(3, 7))
        s["rad"] = [draw(gen.fl(0.1, 0.8)) for _ in range(n)]
        s["hole"] = draw(gen.fl(0.1, 0.9))
        s["two"] = draw(st.booleans())
    return s


@st.composite
def cases(draw):
    lat = draw(gen.lattices_2d(kinds=("square", "rect", "hex", "oblique", "general")))
    return {"lat": lat, "disc": [draw(st.integers(1, 34)), draw(st.integers(1, 34))], "shape": draw(shapes())}


def inside_polygon(P, x, y):
    """even-odd rule and distance to the boundary"""
    inside = np.zeros(x.shape, bool)
    dist = np.full(x.shape, np.inf)
    n = len(P)
    for k in range(n):
        (x1, y1), (x2, y2) = P[k], P[(k + 1) % n]
        with np.errstate(all="ignore"):
            cross = ((y1 > y) != (y2 > y)) & (x < (x2 - x1) * (y - y1) / (y2 - y1) + x1)
        inside ^= cross
        L2 = (x2 - x1) ** 2 + (y2 - y1) ** 2
        t = np.clip(((x - x1) * (x2 - x1) + (y - y1) * (y2 - y1)) / L2, 0, 1)
        dist = np.minimum(dist, np.hypot(x - x1 - t * (x2 - x1), y - y1 - t * (y2 - y1)))
    return inside, dist


def run(case):
    import shapely.geometry as sg

    lat, s = case["lat"], case["shape"]
    B = gen.basis(lat)
    N = tuple(case["disc"])
    L = nn.Lattice(tuple(map(tuple, lat["v"])), discretization=N)
    x, y = np.linspace(0, 1, N[0]), np.linspace(0, 1, N[1])
    X, Y = np.meshgrid(x, y, indexing="ij")
    px, py = B[0, 0] * X + B[1, 0] * Y, B[0, 1] * X + B[1, 1] * Y
    sz = gen.extent(lat)
    c = s["c"][0] * B[0] + s["c"][1] * B[1]
    r = [sz * v for v in s["r"]]
    al = np.deg2rad(s["rot"])
    # coordinates in the frame of the rotated shape
    qx = np.cos(al) * (px - c[0]) + np.sin(al) * (py - c[1])
    qy = -np.sin(al) * (px - c[0]) + np.cos(al) * (py - c[1])
    cc = tuple(float(v) for v in c)
    t = s["t"]
    eps = (1e-6 if nn.get_backend() == "torch" else 1e-9) * sz
    if t == "circle":
        m = L.circle(cc, r[0])
        d = np.hypot(px - c[0], py - c[1])
        yes, no = d < r[0] * 0.9986 - eps, d > r[0] + eps
    elif t == "ellipse":
        m = L.ellipse(cc, tuple(r), rotate=s["rot"])
        d = np.hypot(qx / r[0], qy / r[1])
        e = eps / min(r)
        yes, no = d < 0.9986 - e, d > 1 + e
    elif t in ("square", "rectangle"):
        w = (r[0], r[0]) if t == "square" else tuple(r)
        m = L.square(cc, r[0], rotate=s["rot"]) if t == "square" else L.rectangle(cc, w, rotate=s["rot"])
        d = np.maximum(np.abs(qx) - w[0] / 2, np.abs(qy) - w[1] / 2)
        yes, no = d < -eps, d > eps
    else:
        n = len(s["rad"])
        P = [(float(c[0] + sz * ra * np.cos(al + 2 * np.pi * k / n)), float(c[1] + sz * ra * np.sin(al + 2 * np.pi * k / n)))
             for k, ra in enumerate(s["rad"])]
        ins, dist = inside_polygon(P, px, py)
        if t == "polygon":
            m = L.polygon(P)
        else:
            H = [(float(c[0] + s["hole"] * (p[0] - c[0])), float(c[1] + s["hole"] * (p[1] - c[1]))) for p in P]
            hin, hd = inside_polygon(H, px, py)
            ins, dist = ins & ~hin, np.minimum(dist, hd)
            g = sg.Polygon(P, [H])
            if s["two"]:
                sh = 2.1 * sz * max(s["rad"])
                g2 = sg.Polygon([(p[0] + sh, p[1]) for p in P])
                i2, d2 = inside_polygon([(p[0] + sh, p[1]) for p in P], px, py)
                ins, dist = ins | i2, np.minimum(dist, d2)
                g = sg.MultiPolygon([g, g2])
            m = L.geometry_mask(g)
        yes, no = ins & (dist > eps), ~ins & (dist > eps)
    m = tonp(m)
    require(m.shape == N, f"mask has shape {m.shape}, expected {N}")
    require(m.dtype == bool or set(np.unique(m)) <= {0, 1}, "mask is not boolean")
    m = m.astype(bool)
    bad = (yes & ~m) | (no & m)
    if bad.any():
        i, j = map(int, np.argwhere(bad)[0])
        require(False, f"{t}: grid point ({i}, {j}) of {N} is {'inside' if yes[i, j] else 'outside'} but the mask says {bool(m[i, j])} ({int(bad.sum())} such points)")
    return dict(nontrivial=bool(m.any() and not m.all()), labels=[t, "rotated" if s["rot"] else "not rotated", "Nx==Ny" if N[0] == N[1] else "Nx!=Ny"],
                sample={"inside": int(m.sum()), "of": int(m.size)})


def lanes():
    return [Lane("shapes", cases(), run, 2400, backends=default_backends())]
