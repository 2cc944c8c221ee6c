"""C04: unit outward normals of boundary faces."""

import numpy as np
from hypothesis import strategies as st

from pbt import cm, gen, ref
from pbt.core import Finding, Test, check

RULE = (
    "Generated 2D meshes (holes, fans, sheared, mirrored) with generated contact and dirichlet "
    "predicates, and 3D meshes whose whole boundary has one class. Non-trivial: 2D with at least "
    "two classes of faces, or 3D with at least 4 elements."
)
ASSUMPTIONS = ["3D meshes with several classes of faces are a recorded finding (KF-a)"]
SHARDS = 3


@st.composite
def cases2(draw, large=False):
    base = st.one_of(gen.mesh2d(), gen.mesh2d(max_cells=3), gen.fan(), gen.simplex(2))
    if large:
        base = gen.large(2)
    return {
        "dim": 2,
        "mesh": draw(gen.affine(base, 2)),
        "contact": draw(gen.predicate(2)),
        "dirichlet": draw(gen.predicate(2)),
    }


@st.composite
def cases3(draw, large=False):
    base = gen.large(3) if large else st.one_of(gen.mesh3d(), gen.mesh3d(), gen.simplex(3))
    kind = draw(st.sampled_from(["contact", "neumann", "dirichlet"]))
    return {
        "dim": 3,
        "mesh": draw(gen.affine(base, 3)),
        "contact": ["all"] if kind == "contact" else ["none"],
        "dirichlet": ["all"] if kind == "dirichlet" else ["none"],
    }


def inspect(case):
    nodes = np.array(case["mesh"]["nodes"], dtype=float)
    mesh = cm.make_mesh(
        case["mesh"],
        contact=gen.make_predicate(case["contact"], nodes),
        dirichlet=gen.make_predicate(case["dirichlet"], nodes),
    )
    fem = ref.P1(mesh.nodes, mesh.elements)
    return mesh, fem, fem.boundary_faces()


def body(case, ctx):
    mesh, fem, owner = inspect(case)
    dim = case["dim"]
    kinds = sum(
        len(b) > 0 for b in (mesh.contact_boundary, mesh.neumann_boundary, mesh.dirichlet_boundary)
    )
    ctx.label(f"{dim}D", f"{kinds} classes")
    ctx.nontrivial(kinds >= 2 or dim == 3 and len(mesh.elements) >= 4)
    surfaces = np.asarray(mesh.boundary_surfaces)
    normals = np.asarray(mesh.boundaries.surface_normals)
    check(normals.shape == (len(surfaces), dim), f"{normals.shape} normals, {len(surfaces)} faces")
    compare(fem, owner, surfaces, normals, "boundary")
    compare(fem, owner, mesh.contact_boundary, mesh.boundaries.contact_normals, "contact")
    if len({tuple(sorted(s)) for s in surfaces.tolist()}) == len(owner) == len(surfaces):
        # divergence theorem
        total, moment = np.zeros(dim), 0.0
        for face, normal in zip(surfaces, normals):
            measure = fem.face_measure(face)
            total += measure * normal
            moment += measure * normal @ fem.nodes[face].mean(axis=0)
        size = sum(fem.face_measure(f) for f in owner)
        check(np.linalg.norm(total) < 1e-9 * size, f"normals of a closed surface sum to {total}")
        volume = dim * fem.volumes.sum()
        scale = volume + size * np.abs(fem.nodes).max()
        check(abs(moment - volume) < 1e-9 * scale, f"flux of x is {moment}, not {volume}")


def compare(fem, owner, faces, normals, name):
    faces, normals = np.asarray(faces), np.asarray(normals)
    check(len(faces) == len(normals), f"{len(normals)} normals for {len(faces)} {name} faces")
    for face, normal in zip(faces, normals):
        face = tuple(sorted(int(n) for n in face))
        expected = fem.outward_normal(face, owner[face])
        check(
            np.allclose(normal, expected, atol=1e-9),
            f"normal of {name} face {fem.nodes[list(face)].tolist()} is {normal}, not {expected}",
        )


def mixed_3d():
    """KF-a: unit cube of Kuhn tetrahedra, contact z = 0, dirichlet x = 0."""
    points = [[float(i), float(j), float(k)] for k in (0, 1) for j in (0, 1) for i in (0, 1)]
    index = {tuple(p): i for i, p in enumerate(points)}
    elements = [[index[tuple(map(float, p))] for p in tet] for tet in gen._KUHN]
    mesh = cm.make_mesh(
        {"nodes": points, "elements": elements},
        contact=lambda x: abs(x[2]) < 1e-9 and abs(x[0]) > 1e-9,
        dirichlet=lambda x: abs(x[0]) < 1e-9,
    )
    fem = ref.P1(mesh.nodes, mesh.elements)
    owner = fem.boundary_faces()
    for face, normal in zip(mesh.boundary_surfaces, mesh.boundaries.surface_normals):
        face = tuple(sorted(int(n) for n in face))
        if not np.allclose(normal, fem.outward_normal(face, owner[face])):
            return True
    return False


FINDINGS = [Finding("KF-a", mixed_3d)]
TESTS = [
    Test("normals_2d", cases2, body, quick=300, thorough=6000),
    Test("normals_3d", cases3, body, quick=80, thorough=1500),
    Test("large_2d", lambda: cases2(large=True), body, quick=12, thorough=200),
    Test("large_3d", lambda: cases3(large=True), body, quick=6, thorough=100),
]
