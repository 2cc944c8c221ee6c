"""C02: a mesh written to a file and imported is the same mesh."""

import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Test, check

RULE = (
    "Generated conforming 2D and 3D meshes (holes, jitter, shuffled numbering, unused points, "
    "extra cells of lower dimension) written by meshio in a generated format and imported. "
    "Non-trivial: at least 4 elements."
)
ASSUMPTIONS = ["writing by meshio is right; coordinates compared to 1e-9 relative"]
SHARDS = 2

FORMATS = {
    "gmsh": ".msh",
    "gmsh22": ".msh",
    "vtk": ".vtk",
    "vtu": ".vtu",
    "abaqus": ".inp",
    "medit": ".mesh",
}


@st.composite
def cases(draw):
    dim = draw(st.sampled_from([2, 2, 3]))
    base = gen.mesh2d(unused=True) if dim == 2 else gen.mesh3d(unused=True)
    mesh = draw(gen.affine(base, dim))
    return {
        "dim": dim,
        "mesh": mesh,
        "format": draw(st.sampled_from(sorted(FORMATS))),
        "flat": draw(st.booleans()),
        "lines": draw(st.booleans()),
        "blocks": draw(st.sampled_from([1, 1, 2, 3])),
        "scale": draw(st.sampled_from([1.0, 1.0, 1e-3, 1e3])),
        "position": draw(
            st.one_of(st.none(), st.lists(gen.floats(-3, 3, 2), min_size=dim, max_size=dim))
        ),
    }


def simplices(nodes, elements, digits=7):
    nodes = np.round(np.asarray(nodes, dtype=float), digits) + 0.0
    return sorted(
        tuple(sorted(tuple(float(c) for c in nodes[n]) for n in element)) for element in elements
    )


def write(case, path):
    import meshio

    dim = case["dim"]
    points = np.array(case["mesh"]["nodes"], dtype=float) * case.get("scale", 1.0)
    elements = np.array(case["mesh"]["elements"], dtype=np.int64)
    fmt = case["format"]
    if dim == 2 and (not case["flat"] or fmt in ("gmsh", "gmsh22", "vtk", "vtu")):
        points = np.hstack((points, np.zeros((len(points), 1))))
    cells = []
    if case["lines"] and fmt != "gmsh":  # (meshio cannot write it)
        lower = "line" if dim == 2 else "triangle"
        cells.append((lower, np.array([sorted(e)[:dim] for e in elements.tolist()])))
    kind = "triangle" if dim == 2 else "tetra"
    blocks = 1 if fmt == "gmsh" else case.get("blocks", 1)  # e.g. parts of different materials
    cells += [(kind, elements[k::blocks]) for k in range(blocks) if len(elements[k::blocks])]
    meshio.write(path, meshio.Mesh(points, cells), file_format=fmt)


def body(case, ctx):
    from conmech.mesh.boundaries_description import BoundariesDescription
    from conmech.mesh.mesh import Mesh
    from conmech.properties.mesh_description import ImportedMeshDescription

    with tempfile.TemporaryDirectory() as folder:
        path = os.path.join(folder, "mesh" + FORMATS[case["format"]])
        write(case, path)
        position = None if case["position"] is None else np.array(case["position"], dtype=float)
        raw = ImportedMeshDescription(initial_position=None, path=path).build()
        mesh = Mesh(
            ImportedMeshDescription(initial_position=position, path=path), BoundariesDescription()
        )
    scale = case.get("scale", 1.0)
    nodes = np.array(case["mesh"]["nodes"], dtype=float) * scale
    elements = case["mesh"]["elements"]
    ctx.label(case["format"], f"{case['dim']}D", "extra cells" if case["lines"] else "plain")
    ctx.label(f"blocks {case.get('blocks', 1)}", f"scale {scale:g}")
    ctx.nontrivial(len(elements) >= 4)
    check(
        simplices(raw.nodes / scale, raw.elements) == simplices(nodes / scale, elements),
        "imported elements differ from the written ones",
    )
    expected = nodes
    used = sorted({n for e in elements for n in e})
    if case["position"] is not None:
        if len(used) < len(nodes):
            # placement with unused points: only the shape is determined
            shift = mesh.nodes.min(axis=0) - nodes[used].min(axis=0)
            expected = nodes + shift
        else:
            expected = nodes - nodes.min(axis=0) + np.array(case["position"])
    check(len(mesh.nodes) == len(used), f"{len(mesh.nodes)} nodes instead of {len(used)}")
    check(len(mesh.elements) == len(elements), "number of elements")
    # compare without rounding at a grid boundary: match every node with its own
    order = [int(np.argmin(np.linalg.norm(mesh.nodes - expected[n], axis=1))) for n in used]
    check(len(set(order)) == len(used), "nodes of the imported mesh do not match the file")
    check(
        np.allclose(mesh.nodes[order], expected[used], rtol=1e-9, atol=1e-8 * min(scale, 1.0)),
        "coordinates of the imported mesh do not match the file",
    )
    where = dict(zip(used, order))
    check(
        sorted(tuple(sorted(where[n] for n in e)) for e in elements)
        == sorted(tuple(sorted(e)) for e in np.asarray(mesh.elements).tolist()),
        "elements of the imported mesh do not match the file",
    )


TESTS = [Test("round_trip", cases, body, quick=160, thorough=3000)]
