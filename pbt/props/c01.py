"""C01: meshes built from descriptions tile the described domain."""

import itertools

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Test, check

RULE = (
    "Descriptions of every mesh family that can be built offline (cross, pygmsh rectangle, "
    "polygon, circle, spline, extruded polygon, twist, Barboteu, cube, ball) with generated "
    "sizes, element sizes and initial positions. Non-trivial: at least 8 elements and, for "
    "scalable families, unequal extents."
)
ASSUMPTIONS = [
    "families that need meshzoo or dmsh are not installable offline and are not exercised",
    "sizes of pygmsh families between 0.2 and 6; of cross meshes also 1e-5 to 1e5 times that",
]
SHARDS = 2

BARBOTEU = [(0, 1), (1, 0), (3, 0), (3, 1), (1.5, 1), (1, 1.5), (1, 4), (0, 4)]
PRISM = [(0.0, 0.0), (1.0, -0.2), (1.1, 1.2), (0.1, 0.7)]


def area(polygon):
    p = np.array(polygon, dtype=float)
    q = np.roll(p, -1, axis=0)
    return abs(np.sum(p[:, 0] * q[:, 1] - p[:, 1] * q[:, 0])) / 2


def perimeter(polygon):
    p = np.array(polygon, dtype=float)
    return float(np.linalg.norm(p - np.roll(p, -1, axis=0), axis=1).sum())


@st.composite
def cases(draw):
    kind = draw(
        st.sampled_from(
            ["cross"] * 4
            + ["rectangle"] * 2
            + ["polygon", "circle", "spline", "barboteu", "prism", "twist", "cube", "ball"]
        )
    )
    dim = 3 if kind in ("prism", "twist", "cube", "ball") else 2
    case = {"kind": kind, "dim": dim}
    low, high = 0.25, 4.0
    if kind == "cross":
        low, high = 0.1, 6.0
    case["scale"] = [draw(gen.floats(low, high, 2)) for _ in range(2)]
    longest = max(case["scale"])
    if kind == "cross":
        case["h"] = max(0.04, round(draw(gen.floats(0.14, 1.3, 3)) * longest, 3))
    elif kind in ("rectangle", "polygon", "spline"):
        case["h"] = max(0.05, round(draw(gen.floats(0.15, 0.6, 3)) * min(case["scale"]), 3))
    elif kind == "circle":
        case["radius"] = draw(gen.floats(0.2, 3, 2))
        case["h"] = round(draw(gen.floats(0.2, 0.7, 3)) * case["radius"], 3)
    elif kind == "barboteu":
        case["h"] = draw(gen.floats(0.3, 1.0, 2))
    elif kind in ("prism", "twist"):
        case["h"] = draw(gen.floats(0.35, 0.8, 2))
    case["position"] = draw(
        st.one_of(st.none(), st.lists(gen.floats(-3, 3, 2), min_size=dim, max_size=dim))
    )
    if kind == "cross":
        unit = draw(st.sampled_from([1, 1, 1, 1e-3, 1e-5, 1e3, 1e5]))
        case["scale"] = [unit * s for s in case["scale"]]
        case["h"] *= unit
        if case["position"] is not None:
            case["position"] = [unit * x for x in case["position"]]
    return case


def describe(case, position):
    from conmech.properties import mesh_description as md

    position = None if position is None else np.array(position, dtype=float)
    kind = case["kind"]
    if kind == "cross":
        return md.CrossMeshDescription(
            initial_position=position, max_element_perimeter=case["h"], scale=case["scale"]
        )
    if kind == "cube":
        return md.CubeMeshDescription(initial_position=position)
    if kind == "ball":
        return md.BallMeshDescription(initial_position=position)
    if kind == "circle":
        return md.CircleMeshDescription(
            initial_position=position, max_element_perimeter=case["h"], radius=case["radius"]
        )
    if kind in ("rectangle", "polygon", "spline"):
        cls = {
            "rectangle": md.PgmshRectangleMeshDescription,
            "polygon": md.PolygonMeshDescription,
            "spline": md.SplineMeshDescription,
        }[kind]
        return cls(
            initial_position=position, max_element_perimeter=case["h"], scale=case["scale"]
        )
    cls = {
        "barboteu": md.Barboteu2008MeshDescription,
        "prism": md.Polygon3DMeshDescription,
        "twist": md.TwistMeshDescription,
    }[kind]
    return cls(initial_position=position, max_element_perimeter=case["h"])


def build(case, position):
    from conmech.mesh.boundaries_description import BoundariesDescription
    from conmech.mesh.mesh import Mesh

    return Mesh(describe(case, position), BoundariesDescription())


def on_polygon(points, polygon, tol):
    polygon = np.array(polygon, dtype=float)
    for p in points:
        best = np.inf
        for a, b in zip(polygon, np.roll(polygon, -1, axis=0)):
            t = np.clip((p - a) @ (b - a) / ((b - a) @ (b - a)), 0, 1)
            best = min(best, float(np.linalg.norm(p - a - t * (b - a))))
        if best > tol:
            return False
    return True


def body(case, ctx):
    mesh = build(case, case["position"])
    dim = case["dim"]
    nodes, elements = np.asarray(mesh.nodes), np.asarray(mesh.elements)
    ctx.label(case["kind"], "placed" if case["position"] else "default position")
    ctx.nontrivial(
        len(elements) >= 8 and (case["kind"] not in ("cross",) or len(set(case["scale"])) == 2)
    )

    # -- a conforming simplicial complex
    check(nodes.ndim == 2 and nodes.shape[1] == dim, f"nodes have shape {nodes.shape}")
    check(elements.shape[1] == dim + 1, f"elements have shape {elements.shape}")
    check(np.all(np.isfinite(nodes)), "non-finite coordinates")
    check(
        set(np.unique(elements)) == set(range(len(nodes))),
        "elements do not use exactly the nodes of the mesh",
    )
    fem = ref.P1(nodes, elements)
    size = float(np.max(nodes.max(axis=0) - nodes.min(axis=0)))
    check(fem.volumes.min() > 1e-9 * size**dim, f"degenerate element {fem.volumes.min():.2e}")
    check(
        len({tuple(sorted(e)) for e in elements.tolist()}) == len(elements), "duplicated element"
    )
    closest = min(
        (
            float(np.linalg.norm(nodes[i] - nodes[j]))
            for i, j in itertools.combinations(range(min(len(nodes), 120)), 2)
        ),
        default=1.0,
    )
    check(closest > 1e-7 * size, "two nodes in the same place")
    count = {}
    for element in elements.tolist():
        for face in itertools.combinations(sorted(element), dim):
            count[face] = count.get(face, 0) + 1
    check(max(count.values()) <= 2, "a face belongs to three elements")
    surface = [f for f, c in count.items() if c == 1]
    ridge = {}
    for face in surface:
        for edge in itertools.combinations(face, dim - 1):
            ridge[edge] = ridge.get(edge, 0) + 1
    check(all(c == 2 for c in ridge.values()), "the boundary is not a closed simple surface")
    # elements on both sides of an inner face do not overlap
    opposite = {}
    for element in elements.tolist():
        for k in range(dim + 1):
            face = tuple(sorted(n for i, n in enumerate(element) if i != k))
            opposite.setdefault(face, []).append(element[k])
    for face, tips in opposite.items():
        if len(tips) == 2:
            normal = fem.outward_normal(face, tips[0])
            check(
                normal @ (nodes[tips[1]] - nodes[list(face)].mean(axis=0)) > 0,
                "two elements overlap",
            )

    # -- list of edges
    edges = sorted({tuple(sorted(p)) for e in elements.tolist() for p in itertools.combinations(e, 2)})
    check(
        sorted(tuple(e) for e in np.asarray(mesh.edges).tolist()) == edges,
        "edges of the mesh are not the edges of its elements",
    )

    # -- placement
    origin = nodes.min(axis=0)
    if case["position"] is not None:
        # (the spline and the circle carry construction points, which are not part of the mesh)
        if case["kind"] not in ("spline", "circle"):
            check(
                np.allclose(origin, case["position"], atol=1e-9 * size),
                f"lower corner {origin} instead of {case['position']}",
            )
        plain = build(case, None)
        moved = nodes - nodes[0]
        check(
            plain.nodes.shape == nodes.shape
            and np.allclose(plain.nodes - plain.nodes[0], moved, atol=1e-9 * size),
            "the initial position changes more than the position",
        )
        nodes = np.asarray(plain.nodes)
        check(
            np.array_equal(np.asarray(plain.elements), elements), "translation changes elements"
        )
    fem = ref.P1(nodes, elements)

    # -- the described domain
    volume = float(fem.volumes.sum())
    border = sorted({n for f in surface for n in f})
    length = sum(fem.face_measure(f) for f in surface)
    kind = case["kind"]
    tol = 1e-6
    if kind in ("cross", "rectangle", "polygon", "barboteu"):
        sx, sy = case["scale"]
        polygon = {
            "cross": [(0, 0), (sx, 0), (sx, sy), (0, sy)],
            "rectangle": [(0, 0), (sx, 0), (sx, sy), (0, sy)],
            "polygon": [
                (0, sy * 0.2 / 1.4),
                (sx / 1.4, 0),
                (sx * 1.1 / 1.4, sy),
                (sx * 0.1 / 1.4, sy * 0.9 / 1.4),
            ],
            "barboteu": BARBOTEU,
        }[kind]
        check(abs(volume - area(polygon)) < tol * area(polygon), f"area {volume}")
        check(abs(length - perimeter(polygon)) < tol * perimeter(polygon), f"perimeter {length}")
        check(on_polygon(nodes[border], polygon, tol * size), "boundary is not on the polygon")
        if kind != "cross":
            ok = all(np.min(np.linalg.norm(nodes - np.array(p), axis=1)) < tol * size for p in polygon)
            check(ok, "a corner of the polygon is missing")
    elif kind == "circle":
        r = case["radius"]
        distances = np.linalg.norm(nodes[border] - r, axis=1)
        check(np.allclose(distances, r, rtol=1e-6), "boundary nodes are not on the circle")
        check(volume <= np.pi * r * r, "area above that of the circle")
        angles = np.sort(np.arctan2(nodes[border, 1] - r, nodes[border, 0] - r))
        gaps = np.diff(np.concatenate((angles, angles[:1] + 2 * np.pi)))
        inscribed = 0.5 * r * r * np.sin(gaps).sum()
        check(abs(volume - inscribed) < 1e-6 * inscribed, "area is not that of the polygon")
        check(gaps.max() * r < 2.2 * case["h"] , f"boundary step {gaps.max() * r} for {case['h']}")
    elif kind == "prism":
        expected = area(PRISM) / (1.1 * 1.7)
        check(abs(volume - expected) < tol, f"volume {volume} instead of {expected}")
        check(np.allclose(nodes.min(axis=0), 0) and np.allclose(nodes.max(axis=0), 1), "not in the unit box")
    elif kind == "twist":
        check(np.allclose(nodes.min(axis=0), 0) and np.allclose(nodes.max(axis=0), 1), "not in the unit box")
    elif kind == "cube":
        check(abs(volume - 1) < tol and abs(length - 6) < tol, f"volume {volume} area {length}")
        check(np.allclose(nodes.min(axis=0), 0) and np.allclose(nodes.max(axis=0), 1), "not in the unit box")
    elif kind == "ball":
        radii = np.linalg.norm(nodes[border], axis=1)
        check(np.ptp(radii) < 1e-5, "boundary of the ball is not a sphere")
        check(0.7 < volume / (4 / 3 * np.pi * radii[0] ** 3) < 1, "ball is not filled")
    elif kind == "spline":
        sx, sy = case["scale"]
        for corner in ((0, 0), (sx, sy)):
            check(
                np.min(np.linalg.norm(nodes - np.array(corner), axis=1)) < 1e-6 * size,
                f"the spline domain does not reach {corner}",
            )
        check(0.6 * sx * sy < volume < 1.1 * sx * sy, f"area {volume}")

    # -- requested element size
    if "h" in case:
        longest = max(float(np.linalg.norm(nodes[i] - nodes[j])) for i, j in edges)
        if kind == "cross":
            nx, ny = (int(np.ceil(s / case["h"])) for s in case["scale"])
            check(longest <= case["h"] * (1 + 1e-9), f"edge {longest} with size {case['h']}")
            check(
                len(elements) == 4 * nx * ny and len(nodes) == 2 * nx * ny + nx + ny + 1,
                f"{len(elements)} elements for a grid {nx} x {ny}",
            )
        elif kind in ("prism", "twist"):
            pass  # rescaled to the unit box, and layered
        else:
            check(longest <= 2.5 * case["h"], f"edge {longest} with size {case['h']}")


TESTS = [Test("described", cases, body, quick=160, thorough=2500)]
