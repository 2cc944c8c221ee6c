"""C09: static problems: the solution is the equilibrium of the loaded body in contact."""

import numpy as np
from hypothesis import strategies as st

from pbt import cm, gen, laws, model, ref, sim
from pbt.core import Test, check

RULE = (
    "Generated 2D bodies (meshes with holes, rotated, mirrored; boundary parts; prescribed "
    "values; Lame coefficients; smooth contact laws with and without friction; affine loads) and "
    "3D boxes with voids (contact not reached), Schur and global method, generated initial "
    "guess. Compared with the minimiser found by semismooth Newton on independently assembled "
    "matrices, and by equilibrium of every free node. Non-trivial: the body deforms."
)
ASSUMPTIONS = [
    "contact laws are C1 and convex; faces whose end nodes are not contact nodes are excluded",
    "global optimization only where contact faces have no dirichlet node (KF-d)",
    "3D: contact that responds is excluded (KF-a, KF-b)",
]
SHARDS = 4


def prepare():
    cm.speed_up()


@st.composite
def cases(draw, large=False):
    method = "schur" if large else draw(st.sampled_from(["schur", "schur", "global"]))
    case = draw(
        sim.body2d(
            law_pool=laws.STATIC,
            max_cells=3,
            mesh=gen.large(2, 6, 14) if large else None,
            touching=False if method == "global" else None,
            contact_required=draw(st.integers(0, 3)) > 0,
        )
    )
    case["method"] = method
    case["guess"] = draw(st.one_of(st.none(), sim.vector_field(2, size=0.2)))
    return case


def solve(case):
    from conmech.scenarios import problems as pr
    from conmech.simulations.problem_solver import StaticSolver

    setup = sim.Setup(case)
    problem = cm.make_problem(
        pr.StaticDisplacementProblem,
        setup.description(),
        setup.boundaries(),
        {"inner_forces": setup.inner, "outer_forces": setup.outer},
        mu_coef=case["mu"],
        la_coef=case["lam"],
        contact_law=setup.law_class,
    )
    solver = StaticSolver(problem, case["method"])
    setup.look_at(solver.body.mesh)
    state = solver.solve(initial_displacement=model.affine(case["guess"]))
    return setup, solver, state


def body(case, ctx):
    setup, solver, state = solve(case)
    if setup.straddling:
        ctx.label("straddling face, skipped")
        return
    fem = setup.fem
    matrix, load, contact = fem.elasticity(case["mu"], case["lam"]), setup.load(0), setup.contact()
    expected, residual = ref.minimise(matrix, load, contact, setup.fixed, setup.values)
    if residual > 1e-7:
        ctx.label("reference did not converge")
        return
    got = ref.stacked(state.displacement)
    active = contact.active_samples(expected)[0]
    ctx.label(case["method"], f"law {case['law']}", "contact" if active else "no contact")
    if setup.touching:
        ctx.label("contact meets dirichlet")
    if case["value"] is not None:
        ctx.label("prescribed values")
    ctx.nontrivial(np.linalg.norm(expected) > 1e-4)
    where = f"{case['method']}, law {case['law']}"
    rtol = ref.tolerance(model.RTOL, matrix, contact, expected, setup.fixed)
    check(
        cm.close(got, expected, rtol, model.atol(rtol - model.RTOL, len(got))),
        lambda: f"displacement ({where}) is off by {cm.distance(got, expected)}",
    )
    # nothing has less energy; forces balance in every free node
    gap = ref.energy_of(matrix, load, contact, got) - ref.energy_of(
        matrix, load, contact, expected
    )
    scale = abs(expected @ matrix @ expected) + abs(load @ expected) + 1e-9
    check(abs(gap) <= (1e-5 + rtol**2) * scale + 1e-9, lambda: f"energy ({where}) exceeds minimum by {gap:.2e}")
    forces = matrix @ got - load + contact.evaluate(got)[1]
    free = np.setdiff1d(np.arange(len(got)), setup.fixed)
    size = np.abs(matrix).max() * (np.abs(got).max() + 0.01) + np.abs(load).max()
    check(
        np.abs(forces[free]).max(initial=0) <= 3e-3 * size,
        lambda: f"unbalanced force ({where}): {np.abs(forces[free]).max():.2e}",
    )
    nodes = fem.nodes + state.displacement
    check(np.abs(state.displaced_nodes - nodes).max() < 1e-12, "displaced nodes")


# ------------------------------------------------------------------------------------- 3D


@st.composite
def cases3(draw):
    mesh = draw(gen.mesh3d(max_cells=2))
    sides = [[a, e, None] for a in range(3) for e in ("min", "max")]
    chosen = draw(st.permutations(sides))
    field = {
        "c": [draw(gen.floats(-3, 3, 2)) for _ in range(3)],
        "a": None,
        "t": [0, 0],
    }
    return {
        "mesh": mesh,
        "dirichlet": [chosen[0]],
        "contact": [chosen[1]] if draw(st.booleans()) else [],
        "mu": draw(gen.floats(1, 8, 1)),
        "lam": draw(gen.floats(0.5, 8, 1)),
        "inner": field,
        "outer": {**field, "c": [draw(gen.floats(-3, 3, 2)) for _ in range(3)]},
        "value": [draw(gen.floats(-0.2, 0.2, 2)) for _ in range(4)]
        if draw(st.booleans())
        else None,
        "method": draw(st.sampled_from(["schur", "global"])),
    }


def body3(case, ctx):
    from conmech.scenarios import problems as pr
    from conmech.simulations.problem_solver import StaticSolver

    nodes = np.array(case["mesh"]["nodes"], dtype=float)
    size = nodes.max(axis=0)

    def on(spec):
        def predicate(x):
            return any(abs(x[a] - (0.0 if e == "min" else size[a])) < 1e-9 for a, e, _ in spec)

        return predicate

    on_dirichlet = on(case["dirichlet"])
    on_contact = on(case["contact"])
    value = case["value"]
    c = np.array(value if value else [0.0] * 4)
    condition = lambda x: c[0] + np.asarray(x) @ c[1:]
    inner, outer = cm.field(case["inner"]), cm.field(case["outer"])
    law_class, _ = laws.law("far")
    problem = cm.make_problem(
        pr.StaticDisplacementProblem,
        cm.mesh_description(case["mesh"]),
        cm.boundaries(
            contact=on_contact, dirichlet=(on_dirichlet, condition) if value else on_dirichlet
        ),
        {"inner_forces": inner, "outer_forces": outer},
        mu_coef=case["mu"],
        la_coef=case["lam"],
        contact_law=law_class,
    )
    solver = StaticSolver(problem, case["method"])
    state = solver.solve(initial_displacement=lambda x: np.zeros((len(x), 3)))
    fem, groups, contact_nodes, dirichlet = cm.classes(solver.body.mesh, on_contact, on_dirichlet)
    matrix = fem.elasticity(case["mu"], case["lam"])
    load = ref.stacked(
        fem.body_load(np.array([inner(x, 0) for x in fem.nodes]))
        + fem.surface_load(np.array([outer(x, 0) for x in fem.nodes]), groups["neumann"])
    )
    fixed = cm.dofs(dirichlet, fem.n, 3)
    values = np.tile(condition(fem.nodes[dirichlet]), 3)
    expected, _ = ref.minimise(matrix, load, None, fixed, values)
    got = ref.stacked(state.displacement)
    ctx.label(case["method"], "contact nodes" if contact_nodes else "no contact nodes")
    ctx.nontrivial(np.linalg.norm(expected) > 1e-4)
    check(
        cm.close(got, expected, 3e-3, 1e-5 * np.sqrt(len(got))),
        lambda: f"3D displacement ({case['method']}) is off by {cm.distance(got, expected)}",
    )


TESTS = [
    Test("plane", cases, body, quick=240, thorough=5000),
    Test("space", cases3, body3, quick=24, thorough=400),
    Test("large", lambda: cases(large=True), body, quick=12, thorough=200),
]
