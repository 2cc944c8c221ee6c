"""C18: bodies with element-wise density of material; updates of the density."""

import numpy as np
from hypothesis import strategies as st

from pbt import cm, gen, model, ref, sim
from pbt.core import Test, check

RULE = (
    "Generated 2D bodies and laws, and histories of 1 to 4 operations on one solver: update the "
    "density of elements (generated positive values, uniform, back to one, the same values in "
    "other elements, one element only), choose the method again or just solve; every solve is "
    " compared with the reference for the density in force. Non-trivial: a solve after a "
    "non-uniform update. time: simulations in time with given densities, by solvers used or not "
    "used before (non-trivial: two steps with motion)."
)
ASSUMPTIONS = ["2D only (conmech assembles densities only in 2D)", "densities in [0.05, 5]"]
SHARDS = 4


def prepare():
    cm.speed_up()


@st.composite
def cases(draw):
    method = draw(st.sampled_from(["schur", "global", "direct"]))
    case = draw(
        sim.body2d(
            law_pool=["relu5", "gap", "early"] if method != "direct" else ["relu5"],
            touching=None if method == "schur" else False,
            max_cells=2,
        )
    )
    case["method"] = method
    ops = []
    for _ in range(draw(st.integers(1, 4))):
        kind = draw(
            st.sampled_from(
                ["vary", "vary", "vary", "uniform", "one", "none", "turn", "turn", "slightly",
                 "same", "method"]
            )
        )
        if kind == "vary":
            ops.append([draw(gen.floats(0.05, 5, 2)) for _ in range(draw(st.integers(2, 5)))])
        elif kind == "uniform":
            ops.append([draw(gen.floats(0.05, 5, 2))])
        elif kind == "one":
            ops.append([1.0])
        elif kind == "none":
            ops.append(None)
        else:
            ops.append(kind)
    case["ops"] = ops
    return case


def body(case, ctx):
    from conmech.scenarios import problems as pr
    from conmech.simulations.problem_solver import NonHomogenousSolver

    setup = sim.Setup(case)
    problem = cm.make_problem(
        pr.StaticDisplacementProblem,
        setup.description(),
        setup.boundaries(),
        {"inner_forces": setup.inner, "outer_forces": setup.outer},
        mu_coef=case["mu"],
        la_coef=case["lam"],
        contact_law=setup.law_class,
    )
    solver = NonHomogenousSolver(problem, case["method"])
    setup.look_at(solver.body.mesh)
    if setup.straddling:
        ctx.label("straddling face, skipped")
        return
    fem = setup.fem
    count = len(fem.elements)
    weights = np.ones(count)
    varied = False
    ctx.label(case["method"], f"{len(case['ops'])} operations")
    for op in case["ops"]:
        if op == "method":
            solver.solving_method = case["method"]
        elif op is not None:
            if op == "turn":  # the same values, in other elements
                weights = np.roll(weights, 1)
            elif op == "slightly":  # one element only
                weights = weights.copy()
                weights[-1] *= 1.2
            elif op != "same":
                weights = np.array(op)[np.arange(count) % len(op)]
            given = weights.copy()
            solver.update_density(given)
            given[:] = 9.0  # belongs to the caller
            varied = varied or np.ptp(weights) > 0
        state = solver.solve(initial_displacement=lambda x: np.zeros_like(x))
        matrix = fem.elasticity(case["mu"], case["lam"], weights)
        expected, residual = ref.minimise(
            matrix, setup.load(0), setup.contact(), setup.fixed, setup.values
        )
        if residual > 1e-7:
            ctx.label("reference did not converge")
            return
        got = ref.stacked(state.displacement)
        rtol = ref.tolerance(2 * model.RTOL, matrix, setup.contact(), expected, setup.fixed)
        check(
            cm.close(got, expected, rtol, model.atol(rtol - 2 * model.RTOL, len(got))),
            lambda: f"displacement is off by {cm.distance(got, expected)} for density {op}",
        )
        if varied:
            ctx.nontrivial(np.linalg.norm(expected) > 1e-4)


# --------------------------------------------------------------------- simulations in time


@st.composite
def time_cases(draw):
    kind = draw(st.sampled_from(["quasistatic", "dynamic", "relaxation", "relaxation", "wave"]))
    case = draw(model.history_case(kind, methods=("schur", "global"), steps=2, touching=False))
    case["densities"] = [
        [draw(gen.floats(0.3, 3, 1)) for _ in range(draw(st.integers(1, 4)))]
        for _ in range(draw(st.integers(1, 2)))
    ]
    case["used"] = draw(st.booleans())
    return case


def time_body(case, ctx):
    simulation = model.Simulation(case)
    setup = simulation.setup
    if setup.straddling:
        ctx.label("straddling face, skipped")
        return
    if case["used"]:  # operators of the homogeneous body were used before
        simulation.run()
    for density in case["densities"]:
        weights = np.array(density)[np.arange(len(setup.fem.elements)) % len(density)]
        simulation.solver.body.dynamics.reinitialize_matrices(weights.copy())
        simulation.solver.refresh_solvers()
        simulation.prepare(weights)
        model.verify_history(simulation, simulation.run(), ctx)


TESTS = [
    Test("density", cases, body, quick=160, thorough=3000),
    Test("time", time_cases, time_body, quick=60, thorough=1200),
]
