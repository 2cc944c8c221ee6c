"""C08: prescribed (dirichlet) values are met exactly in every kind of problem."""

import numpy as np
from hypothesis import strategies as st

from pbt import cm, gen, model, ref, sim
from pbt.core import Test, check
from pbt.props import c09

RULE = (
    "Every kind of problem (static, Poisson, quasistatic, dynamic, relaxation, membrane, thermo- "
    "and electro-mechanical), generated bodies and prescribed values (zero, constant, affine in "
    "position; one or several electrodes), Schur / global / direct method. Non-trivial: "
    "prescribed values are not all zero."
)
ASSUMPTIONS = [
    "one condition per node; values are numbers per node, applied to each component",
    "conditions of time-dependent problems are on the unknown of the step (velocity, or "
    "displacement for relaxation)",
]
SHARDS = 4


def prepare():
    cm.speed_up()


OPERATORS = (
    "elasticity",
    "viscosity",
    "acceleration_operator",
    "thermal_expansion",
    "thermal_conductivity",
    "piezoelectricity",
    "permittivity",
    "poisson_operator",
)


def operators(body):
    result = {}
    for name in OPERATORS:
        value = getattr(body.dynamics, name, None)
        if value is not None:
            result[name] = np.array(getattr(value, "data", value), dtype=float)
    return result


def untouched(before, body):
    after = operators(body)
    for name, value in before.items():
        check(
            name in after and np.array_equal(value, after[name]),
            f"solving changed the operator {name} of the body",
        )


def values_met(field, nodes, expected, what):
    field = np.asarray(field, dtype=float)
    for k, node in enumerate(nodes):
        difference = np.abs(field[node] - expected[k]).max()
        check(difference <= 1e-10, lambda: f"{what}: prescribed value is missed by {difference}")


def force_value(case, draw):
    if case["value"] is None or not any(case["value"]):
        case["value"] = [draw(gen.nonzero(0.02, 0.2, 2)) for _ in range(3)]
    return case


@st.composite
def histories(draw):
    kind = draw(st.sampled_from(model.KINDS))
    case = draw(model.history_case(kind, steps=3))
    return force_value(case, draw) if draw(st.integers(0, 4)) else case


def history_body(case, ctx):
    simulation = model.Simulation(case)
    setup = simulation.setup
    before = operators(simulation.solver.body)
    history = simulation.run()
    untouched(before, simulation.solver.body)
    n = len(setup.dirichlet_nodes)
    prescribed = setup.values[:n]
    ctx.label(case["kind"], case["method"], "fixed nodes" if n else "no fixed nodes")
    ctx.nontrivial(n and np.abs(prescribed).max() > 1e-6)
    start = history[0]
    for k, new in enumerate(history[1:]):
        what = f"{case['kind']}, {case['method']}, step {k + 1}"
        comps = simulation.comps
        if case["kind"] == "relaxation":
            values_met(new["u"], setup.dirichlet_nodes, prescribed, what)
        else:
            values_met(new["v"][:, :comps], setup.dirichlet_nodes, prescribed, what)
            moved = start["u"][:, :comps].copy()
            for node, value in zip(setup.dirichlet_nodes, prescribed):
                moved[node] += (k + 1) * simulation.dt * value
            check(
                np.abs((new["u"][:, :comps] - moved)[setup.dirichlet_nodes]).max(initial=0)
                < 1e-9,
                f"{what}: displacement of nodes with prescribed velocity",
            )
        if case["kind"] == "temperature":
            values_met(new["t"], setup.dirichlet_nodes, prescribed, what + ", temperature")
        if "piezo" in case["kind"]:
            values_met(new["p"], simulation.p_fixed, simulation.p_values, what + ", potential")
            ctx.nontrivial(len(simulation.p_fixed))


@st.composite
def static_cases(draw):
    case = draw(c09.cases())
    return force_value(case, draw) if draw(st.integers(0, 4)) else case


def static_body(case, ctx):
    setup, solver, state = c09.solve(case)
    n = len(setup.dirichlet_nodes)
    prescribed = setup.values[:n]
    ctx.label("static", case["method"])
    ctx.nontrivial(n and np.abs(prescribed).max() > 1e-6)
    values_met(state.displacement, setup.dirichlet_nodes, prescribed, "static")
    dynamics = solver.body.dynamics
    check(
        cm.close(
            np.asarray(dynamics.elasticity.data),
            setup.fem.elasticity(case["mu"], case["lam"]),
            1e-9,
        ),
        "solving changed the elasticity operator",
    )
    # again, with the same solver: nothing was used up
    again = solver.solve(initial_displacement=model.affine(case["guess"]))
    check(
        cm.close(again.displacement, state.displacement, 1e-4, 1e-6),
        lambda: f"second solve differs: {cm.distance(again.displacement, state.displacement)}",
    )


# -------------------------------- rigid translation: a condition must not deform the body


@st.composite
def translations(draw):
    case = draw(
        sim.body2d(law_pool=["relu5", "far"], max_cells=3, prescribed=False)
    )
    shift = draw(gen.nonzero(0.05, 2, 2))
    case["value"] = [shift, 0.0, 0.0]
    case["law"] = "far"
    case["method"] = draw(st.sampled_from(["schur", "global", "direct"]))
    case["guess"] = None
    zero = {"c": [0.0, 0.0], "a": None, "t": [0, 0]}
    case["inner"] = case["outer"] = zero
    return case


def translation_body(case, ctx):
    if case["method"] == "direct":
        case = {**case, "law": None}
    setup, _, state = c09.solve(case)
    ctx.label(case["method"])
    ctx.nontrivial(len(setup.dirichlet_nodes) >= 2)
    if len(setup.dirichlet_nodes) < 2:
        return
    shift = case["value"][0]
    check(
        np.abs(state.displacement - shift).max() < 1e-4 * abs(shift) + 1e-6,
        lambda: f"unloaded body pushed by {shift} deforms by "
        f"{np.abs(state.displacement - shift).max():.2e} ({case['method']})",
    )


TESTS = [
    Test("histories", histories, history_body, quick=200, thorough=3500),
    Test("static", static_cases, static_body, quick=100, thorough=2000),
    Test("translation", translations, translation_body, quick=60, thorough=1000),
]
