"""C05: assembled finite element matrices are the exact P1 integrals on any mesh."""

import numpy as np
from hypothesis import strategies as st

from pbt import cm, gen, ref
from pbt.core import Test, check

RULE = (
    "Generated 2D and 3D meshes (single simplices, fans, grids with holes, sheared, mirrored, "
    "shifted, any orientation of elements), generated densities and wave speeds. Non-trivial: at "
    "least 2 elements and volumes that differ."
)
ASSUMPTIONS = ["well-shaped simplices (no angle close to 0); comparison relative 1e-9"]
SHARDS = 3


@st.composite
def cases(draw, large=False):
    dim = draw(st.sampled_from([2, 3]))
    if large:
        base = gen.large(dim)
    elif dim == 2:
        base = st.one_of(gen.mesh2d(max_cells=3), gen.fan(), gen.simplex(2))
    else:
        base = st.one_of(gen.mesh3d(), gen.mesh3d(), gen.simplex(3))
    return {
        "dim": dim,
        "mesh": draw(gen.affine(base, dim)),
        "density": draw(gen.floats(0.1, 5, 2)),
        "propagation": draw(gen.floats(0.2, 3, 2)),
        "contact": draw(gen.predicate(dim)) if dim == 2 else ["none"],
        "dirichlet": draw(gen.predicate(dim)),
    }


def make_body(mesh, properties):
    from conmech.dynamics.dynamics import Dynamics
    from conmech.simulations.problem_solver import Body

    body = Body(properties, mesh)
    Dynamics(body)
    return body


def same(value, expected, what):
    data = np.asarray(getattr(value, "data", value), dtype=float)
    check(data.shape == expected.shape, f"{what} has shape {data.shape}, not {expected.shape}")
    scale = np.abs(expected).max() + 1e-300
    error = np.abs(data - expected).max() / scale
    check(error < 1e-9, lambda: f"{what} is off by {error:.2e} (relative)")


def body(case, ctx):
    from conmech.properties.body_properties import ElasticProperties, MembraneProperties

    nodes = np.array(case["mesh"]["nodes"], dtype=float)
    mesh = cm.make_mesh(
        case["mesh"],
        contact=gen.make_predicate(case["contact"], nodes),
        dirichlet=gen.make_predicate(case["dirichlet"], nodes),
    )
    dim, n = case["dim"], mesh.nodes_count
    fem = ref.P1(mesh.nodes, mesh.elements)
    ctx.label(f"{dim}D")
    ctx.nontrivial(len(fem.volumes) > 1 and np.ptp(fem.volumes) > 1e-9)
    density, c = case["density"], case["propagation"]
    membrane = make_body(mesh, MembraneProperties(mass_density=density, propagation=c)).dynamics

    same(membrane.element_initial_volume, fem.volumes, "volume of elements")
    mass = fem.mass()
    same(membrane.acceleration_operator, density * fem.block_diagonal(mass), "mass matrix")
    same(membrane.acceleration_operator.SM1, density * mass, "scalar mass matrix")
    same(membrane.poisson_operator, c**2 * fem.laplacian(), "Laplacian")

    # weights of nodes in loads: exact for constants, per node
    weights = np.asarray(membrane.volume_at_nodes, dtype=float) @ np.ones(n)
    same(weights, mass @ np.ones(n), "integral of basis functions")
    # ... and exact in total for affine functions
    total = membrane.volume_at_nodes @ mesh.nodes
    same(total.sum(axis=0) + 1.0, (mass @ mesh.nodes).sum(axis=0) + 1.0, "integral of x")

    # kernel of the Laplacian, energy of affine and integral of quadratic functions
    lap = np.asarray(membrane.poisson_operator.data)
    scale = np.abs(lap).max()
    check(np.abs(lap @ np.ones(n)).max() < 1e-9 * scale * n, "constants have gradient")
    slope = np.arange(1, dim + 1) * 0.7
    affine = mesh.nodes @ slope
    energy = affine @ lap @ affine
    expected = c**2 * slope @ slope * fem.volumes.sum()
    check(abs(energy - expected) < 1e-7 * expected * (1 + np.abs(mesh.nodes).max() ** 2), "energy")

    # the same matrices whichever material is asked for
    elastic = make_body(mesh, ElasticProperties(mass_density=density, mu=1.3, lambda_=0.4)).dynamics
    same(elastic.acceleration_operator, density * fem.block_diagonal(mass), "mass (elastic)")


TESTS = [
    Test("matrices", cases, body, quick=240, thorough=5000),
    Test("large", lambda: cases(large=True), body, quick=12, thorough=200),
]
