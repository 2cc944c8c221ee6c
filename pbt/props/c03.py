"""C03: classification of the boundary and renumbering of nodes."""

import itertools

import numpy as np
from hypothesis import strategies as st

from pbt import cm, gen
from pbt.core import Test, check

RULE = (
    "Generated meshes (2D with holes and fans, 3D) with shuffled numbering and unused points, and "
    "generated predicates (sides, half-spaces, balls, their combinations) for contact, dirichlet "
    "and named boundaries with prescribed values. Non-trivial: at least two of the classes "
    "contact / neumann / dirichlet are non-empty."
)
ASSUMPTIONS = [
    "in 3D a face is not described as both contact and dirichlet (recorded limitation)",
]
SHARDS = 3


@st.composite
def cases(draw, large=False):
    dim = draw(st.sampled_from([2, 2, 2, 3]))
    if large:
        base = gen.large(dim)
    elif dim == 2:
        base = st.one_of(
            gen.mesh2d(unused=True), gen.mesh2d(unused=True), gen.fan(), gen.simplex(2)
        )
    else:
        base = st.one_of(gen.mesh3d(unused=True), gen.mesh3d(unused=True), gen.simplex(3))
    extra = draw(st.integers(0, 2))
    value = st.lists(gen.floats(-2, 2, 2), min_size=dim + 1, max_size=dim + 1)
    return {
        "dim": dim,
        "mesh": draw(gen.affine(base, dim)),
        "contact": draw(gen.predicate(dim)),
        "dirichlet": draw(gen.predicate(dim)),
        "value": [draw(gen.floats(-2, 2, 2)) for _ in range(dim + 1)],
        "named": [
            [
                draw(gen.predicate(dim)),
                draw(st.one_of(st.none(), value, value)),  # named boundaries need no values
            ]
            for _ in range(extra)
        ],
    }


def condition(coefficients):
    c = np.array(coefficients, dtype=float)
    return lambda x: c[0] + np.asarray(x) @ c[1:]


def face_set(array):
    return sorted(tuple(sorted(int(n) for n in face)) for face in np.asarray(array))


def body(case, ctx):
    dim = case["dim"]
    nodes = np.array(case["mesh"]["nodes"], dtype=float)
    elements = case["mesh"]["elements"]
    is_dirichlet = gen.make_predicate(case["dirichlet"], nodes)
    contact = gen.make_predicate(case["contact"], nodes)
    is_contact = contact if dim == 2 else (lambda x: contact(x) and not is_dirichlet(x))
    kwargs = {
        "contact": is_contact,
        "dirichlet": (is_dirichlet, condition(case["value"])),
    }
    named = {}
    for k, (spec, value) in enumerate(case["named"]):
        predicate = gen.make_predicate(spec, nodes)
        named[f"extra_{k}"] = (predicate, None if value is None else condition(value))
        kwargs[f"extra_{k}"] = predicate if value is None else named[f"extra_{k}"]
    mesh = cm.make_mesh(case["mesh"], **kwargs)

    # -- same geometry
    used = sorted({n for e in elements for n in e})
    got = [tuple(x) for x in np.asarray(mesh.nodes).tolist()]
    where = {tuple(nodes[n].tolist()): n for n in used}
    check(
        sorted(got) == sorted(where) and len(got) == len(used),
        "reordering loses, adds or moves nodes",
    )
    old = {i: where[x] for i, x in enumerate(got)}
    check(
        sorted(tuple(sorted(old[int(n)] for n in e)) for e in mesh.elements)
        == sorted(tuple(sorted(e)) for e in elements),
        "reordering changes which nodes form elements",
    )
    check(mesh.nodes_count == len(used) and mesh.dimension == dim, "counts of the mesh")

    # -- order and classes of nodes
    fem, groups, contact_nodes, dirichlet_nodes = cm.classes(mesh, is_contact, is_dirichlet)
    border = {n for f in fem.boundary_faces() for n in f}
    neumann_nodes = sorted(border - set(contact_nodes) - set(dirichlet_nodes))
    c, m, d, n = len(contact_nodes), len(neumann_nodes), len(dirichlet_nodes), len(used)
    ctx.label(f"{dim}D")
    for name, k in (("contact", c), ("neumann", m), ("dirichlet", d), ("inner", n - c - m - d)):
        if k:
            ctx.label(name)
    ctx.nontrivial((c > 0) + (m > 0) + (d > 0) >= 2)
    check(contact_nodes == list(range(c)), f"contact nodes {contact_nodes} are not the first")
    check(
        neumann_nodes == list(range(c, c + m)),
        f"neumann nodes {neumann_nodes} do not follow the contact ones",
    )
    check(
        dirichlet_nodes == list(range(n - d, n)), f"dirichlet nodes {dirichlet_nodes} are not last"
    )
    everything = np.arange(n)
    for name, expected in (
        ("contact_nodes_count", c),
        ("neumann_nodes_count", m),
        ("dirichlet_nodes_count", d),
        ("boundary_nodes_count", c + m + d),
        ("inner_nodes_count", n - c - m - d),
        ("independent_nodes_count", n - d),
        ("free_nodes_count", n - c - d),
        ("boundary_surfaces_count", None),
    ):
        if expected is not None:
            check(getattr(mesh, name) == expected, f"{name} {getattr(mesh, name)}, not {expected}")
    for name, expected in (
        ("contact_indices", list(range(c))),
        ("neumann_indices", list(range(c, c + m))),
        ("dirichlet_indices", list(range(n - d, n))),
        ("independent_indices", list(range(n - d))),
        ("free_indices", list(range(c, n - d))),
        ("boundary_indices", sorted(border)),
    ):
        value = everything[getattr(mesh, name)].tolist()
        check(sorted(value) == expected, f"{name} gives {value} instead of {expected}")
    check(
        np.array_equal(mesh.initial_boundary_nodes, mesh.nodes[mesh.boundary_indices]),
        "initial_boundary_nodes",
    )

    # -- faces
    for name in ("contact", "neumann", "dirichlet"):
        value = face_set(getattr(mesh, name + "_boundary"))
        check(value == groups[name], f"{name} faces {value} instead of {groups[name]}")
    if not set(groups["contact"]) & set(groups["dirichlet"]):
        check(
            face_set(mesh.boundary_surfaces) == sorted(fem.boundary_faces()), "boundary surfaces"
        )
        check(mesh.boundary_surfaces_count == len(fem.boundary_faces()), "count of surfaces")

    # -- prescribed values
    boundaries = mesh.boundaries.boundaries
    check_boundary(
        mesh, boundaries["dirichlet"], "dirichlet", dirichlet_nodes, condition(case["value"])
    )
    for name, (predicate, value) in named.items():
        faces = [
            f for f in fem.boundary_faces() if predicate(fem.nodes[list(f)].mean(axis=0))
        ]
        indices = sorted({node for f in faces for node in f})
        if not faces:
            check(name not in boundaries, f"empty boundary {name} is present")
            continue
        ctx.label("named boundary")
        check(name in boundaries, f"boundary {name} is missing")
        check(face_set(boundaries[name].surfaces) == sorted(faces), f"faces of {name}")
        check_boundary(mesh, boundaries[name], name, indices, value)


def check_boundary(mesh, boundary, name, indices, value):
    n, dim = mesh.nodes_count, mesh.dimension
    got = np.arange(n)[boundary.node_indices].tolist()
    check(got == indices and boundary.node_count == len(indices), f"nodes of {name}: {got}")
    if value is None:
        check(boundary.node_condition is None, f"values prescribed on {name} without any")
        return
    expected = value(mesh.nodes[indices]) if indices else np.zeros(0)
    check(np.allclose(boundary.node_condition, expected), f"values prescribed on {name}")
    # every degree of freedom of the boundary exactly once, with its own value
    for components in range(1, dim + 1):
        vector = np.full(n * components, np.nan)
        hits = np.zeros(n * components, dtype=int)
        for i, j in mesh.boundaries.get_all_boundary_indices(name, n, components):
            vector[i] = np.asarray(boundary.node_condition)[j]
            hits[i] += 1
        target = np.full(n * components, np.nan)
        for k in range(components):
            target[np.array(indices, dtype=int) + k * n] = expected
        check(
            np.allclose(vector, target, equal_nan=True) and hits.max(initial=0) <= 1,
            f"degrees of freedom of {name} with {components} components",
        )


def body_edges(case, ctx):
    mesh = cm.make_mesh(case["mesh"])
    edges = sorted(
        {
            tuple(sorted((int(a), int(b))))
            for e in mesh.elements
            for a, b in itertools.combinations(e, 2)
        }
    )
    ctx.nontrivial(len(edges) > 5)
    check(sorted(map(tuple, np.asarray(mesh.edges).tolist())) == edges, "edges")
    check(mesh.edges_number == len(edges), "number of edges")
    points = np.asarray(mesh.nodes, dtype=float)
    size = np.ptp(points, axis=0)
    check(np.allclose(mesh.scale, size, rtol=1e-9), lambda: f"scale {mesh.scale}, not {size}")
    for centred in (mesh.normalized_initial_nodes, mesh.input_initial_nodes):
        check(
            np.allclose(centred, points - points.mean(axis=0), atol=1e-9 * size.max()),
            "nodes about their mean",
        )


def edge_cases():
    return st.fixed_dictionaries(
        {"mesh": st.one_of(gen.mesh2d(unused=True), gen.mesh3d(unused=True), gen.fan())}
    )


def large_edge_cases():
    return st.fixed_dictionaries({"mesh": st.one_of(gen.large(2), gen.large(3))})


TESTS = [
    Test("partition", cases, body, quick=240, thorough=5000),
    Test("edges", edge_cases, body_edges, quick=60, thorough=1000),
    Test("large", lambda: cases(large=True), body, quick=12, thorough=200),
    Test("large_edges", large_edge_cases, body_edges, quick=6, thorough=100),
]
