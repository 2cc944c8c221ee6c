"""C10: solving methods: any name, optimiser and initial guess lead to the same solution."""

import numpy as np
from hypothesis import strategies as st

from pbt import cm, gen, laws, model, ref, sim
from pbt.core import Finding, Test, check
from pbt.props import c09

RULE = (
    "Generated static bodies solved several times with different names of methods (any case), "
    "optimisers and initial guesses, by one solver switched between methods or by separate ones; "
    "direct solver against the reference; constrained optimisation for "
    "feasibility, and exactness where the constraint is not active; time-dependent histories under alternative names; unknown names. "
    "Non-trivial: two or more different configurations solve a problem that deforms."
)
ASSUMPTIONS = [
    "contact laws are C1 and convex; optimisers BFGS, CG, L-BFGS-B, SLSQP, Powell (the derivative-"
    "free simplex methods and TNC stop early, and are outside the claim)",
    "global / direct only where contact faces have no dirichlet node (KF-d)",
]
SHARDS = 4


def prepare():
    cm.speed_up()


NAMES = {
    "schur": ["schur", "schur complement", "schur complement method"],
    "global": ["global", "global optimization"],
}
OPTIMISERS = [None, "BFGS", "CG", "L-BFGS-B", "SLSQP"]
# with the gradient of the contact law: for laws which provide it (subderivative)
# options of solve which change nothing but the effort and what is printed
OPTIONS = [{}, {}, {}, {"tol": 1e-13}, {"maxiter": 10**6}, {"disp": False}, {"verbose": True}]
GRADIENTED = ["gradiented BFGS", "gradiented CG", "gradiented L-BFGS-B"]


@st.composite
def spelled(draw, method):
    name = draw(st.sampled_from(NAMES[method]))
    style = draw(st.integers(0, 3))
    return [name, name.upper(), name.title(), name.capitalize()][style]


@st.composite
def cases(draw):
    case = draw(
        sim.body2d(
            law_pool=laws.STATIC,
            max_cells=3,
            touching=False,
            contact_required=draw(st.integers(0, 3)) > 0,
        )
    )
    case["configs"] = []
    for _ in range(draw(st.integers(2, 3))):
        method = draw(st.sampled_from(["schur", "global"]))
        optimisers = OPTIMISERS + ["Powell"] * (method == "schur")
        if case["law"].startswith("relu"):
            optimisers = optimisers + GRADIENTED
        case["configs"].append(
            {
                "name": draw(spelled(method)),
                "optimiser": draw(st.sampled_from(optimisers)),
                "guess": draw(st.one_of(st.none(), sim.vector_field(2, size=0.5))),
                "array": draw(st.booleans()),
                "options": draw(st.sampled_from(OPTIONS)),
            }
        )
    case["switch"] = draw(st.booleans())
    case["method"] = case["configs"][0]["name"]
    return case


def make(case, setup, name):
    from conmech.scenarios import problems as pr
    from conmech.simulations.problem_solver import StaticSolver

    problem = cm.make_problem(
        pr.StaticDisplacementProblem,
        setup.description(),
        setup.boundaries(),
        {"inner_forces": setup.inner, "outer_forces": setup.outer},
        mu_coef=case["mu"],
        la_coef=case["lam"],
        contact_law=setup.law_class,
    )
    solver = StaticSolver(problem, name)
    setup.look_at(solver.body.mesh)
    return solver


def body(case, ctx):
    setup = sim.Setup(case)
    solver = make(case, setup, case["configs"][0]["name"])
    if setup.straddling:
        ctx.label("straddling face, skipped")
        return
    fem = setup.fem
    matrix, contact = fem.elasticity(case["mu"], case["lam"]), setup.contact()
    expected, residual = ref.minimise(matrix, setup.load(0), contact, setup.fixed, setup.values)
    if residual > 1e-7:
        ctx.label("reference did not converge")
        return
    ctx.label("one solver switched" if case["switch"] else "separate solvers")
    results = []
    rtol = ref.tolerance(model.RTOL, matrix, contact, expected, setup.fixed)
    for k, config in enumerate(case["configs"]):
        if k and case["switch"]:
            solver.solving_method = config["name"]
        elif k:
            solver = make(case, setup, config["name"])
        kwargs = {} if config["optimiser"] is None else {"method": config["optimiser"]}
        guess = model.affine(config["guess"])
        if config["array"]:
            guess = guess(np.asarray(solver.body.mesh.nodes))
        state = solver.solve(initial_displacement=guess, **kwargs, **config.get("options", {}))
        got = ref.stacked(state.displacement)
        ctx.label(config["optimiser"] or "default optimiser", str(solver.solving_method))
        check(
            cm.close(got, expected, rtol, 2e-5 * np.sqrt(len(got))),
            lambda: f"{config['name']} / {config['optimiser']} is off by "
            f"{cm.distance(got, expected)}",
        )
        results.append(got)
    different = {(c["name"].lower(), c["optimiser"], str(c["guess"])) for c in case["configs"]}
    ctx.nontrivial(len(different) > 1 and np.linalg.norm(expected) > 1e-4)


# ------------------------------------------------------------------------------ direct


@st.composite
def direct_cases(draw):
    case = draw(
        sim.body2d(
            law_pool=["relu5", "relu80"],
            max_cells=2,
            touching=False,
            contact_required=draw(st.integers(0, 3)) > 0,
        )
    )
    if draw(st.integers(0, 3)) == 0:
        case["law"] = None
    case["method"] = draw(st.sampled_from(["direct", "Direct", "DIRECT"]))
    case["guess"] = draw(st.one_of(st.none(), sim.vector_field(2, size=0.2)))
    return case


def direct_body(case, ctx):
    setup, _, state = c09.solve(case)
    if setup.straddling:
        ctx.label("straddling face, skipped")
        return
    fem = setup.fem
    matrix, load = fem.elasticity(case["mu"], case["lam"]), setup.load(0)
    got = ref.stacked(state.displacement)
    contact = setup.contact()
    expected, residual = ref.minimise(matrix, load, contact, setup.fixed, setup.values)
    if residual > 1e-7:
        ctx.label("reference did not converge")
        return
    active = contact.active_samples(expected)[0] if contact is not None else 0
    ctx.label("law" if case["law"] else "no law", "contact" if active else "no contact")
    ctx.nontrivial(np.linalg.norm(expected) > 1e-4)
    check(
        cm.close(got, expected, 1e-4, 1e-6 * np.sqrt(len(got))),
        lambda: f"direct, law {case['law']}: off by {cm.distance(got, expected)}",
    )


# ------------------------------------------------------------------------- constrained


@st.composite
def constrained_cases(draw):
    case = draw(
        sim.body2d(
            law_pool=["relu5", "far"],
            max_cells=2,
            touching=False,
            contact_required=True,
        )
    )
    case["method"] = draw(st.sampled_from(["schur", "global"]))
    case["guess"] = None
    return case


def constrained_body(case, ctx):
    setup = sim.Setup(case)
    solver = make(case, setup, case["method"])
    if setup.straddling or not setup.contact_nodes:
        ctx.label("skipped")
        return
    state = solver.solve(
        initial_displacement=lambda x: np.zeros_like(x), method="constrained"
    )
    fem = setup.fem
    matrix, load, contact = fem.elasticity(case["mu"], case["lam"]), setup.load(0), setup.contact()
    bounded = np.array(setup.contact_nodes) + fem.n
    expected, residual = ref.minimise_bounded(
        matrix, load, contact, setup.fixed, setup.values, bounded
    )
    got = ref.stacked(state.displacement)
    scale = np.abs(expected).max() + np.abs(got).max() + 1e-3
    check(got[bounded].min() >= -1e-5 * scale, lambda: f"constraint broken: {got[bounded].min()}")
    if residual > 1e-7:
        ctx.label("reference did not converge")
        return
    held = int(np.sum(np.abs(expected[bounded]) < 1e-6))
    ctx.label(case["method"], "constraint active" if held else "constraint inactive")
    ctx.nontrivial(np.linalg.norm(expected) > 1e-4)
    if held:  # SLSQP with the (non-smooth) minimum as the constraint: feasibility is all it gives
        return
    check(
        cm.close(
            got,
            expected,
            ref.tolerance(1e-3, matrix, contact, expected, setup.fixed),
            1e-5 * np.sqrt(len(got)),
        ),
        lambda: f"constrained ({case['method']}): off by {cm.distance(got, expected)}",
    )


# ------------------------------------------------------------- names in every kind


@st.composite
def name_cases(draw):
    kind = draw(st.sampled_from(model.KINDS))
    case = draw(model.history_case(kind, steps=2, touching=False))
    case["name"] = draw(spelled(case["method"]))
    case["bad"] = draw(
        st.sampled_from(["", "schur ", "newton", "directt", "optimization", "globall", "none"])
    )
    return case


def name_body(case, ctx):
    base = model.Simulation(case)
    other = model.Simulation({**case, "method": case["name"]})
    ctx.label(case["kind"], case["name"].lower())
    ctx.nontrivial(case["name"] != case["method"])
    for a, b in zip(base.run(), other.run()):
        for key in a:
            check(
                cm.close(np.atleast_1d(a[key]), np.atleast_1d(b[key]), 1e-6, 1e-9),
                f"{case['kind']}: {case['name']!r} and {case['method']!r} differ in {key}",
            )
    try:
        model.Simulation({**case, "method": case["bad"]})
    except Exception:  # pylint: disable=broad-except
        return
    check(False, f"unknown method {case['bad']!r} accepted")


# ------------------------------------------------------- optimisers of simulations in time


@st.composite
def history_cases(draw):
    kind = draw(st.sampled_from(["quasistatic", "dynamic", "relaxation", "wave"]))
    case = draw(model.history_case(kind, steps=2, touching=False))
    optimisers = ["BFGS", "CG", "L-BFGS-B", "SLSQP"]
    if case["law"] is not None and case["law"].startswith("relu"):
        optimisers += GRADIENTED
    case["options"] = {"method": draw(st.sampled_from(optimisers))}
    case["options"].update(draw(st.sampled_from(OPTIONS)))
    return case


def history_body(case, ctx):
    simulation = model.Simulation(case)
    ctx.label(case["options"]["method"])
    if simulation.setup.straddling:
        ctx.label("straddling face, skipped")
        return
    model.verify_history(simulation, simulation.run(), ctx)


# ---------------------------------------------------------------------- recorded findings

SQUARE = {
    "nodes": [[0.0, 0.0], [1.0, 0.0], [1.0, 1.0], [0.0, 1.0], [0.5, 0.5]],
    "elements": [[0, 1, 4], [1, 2, 4], [2, 3, 4], [3, 0, 4]],
}
STILL = {"c": [0.0, 0.0], "a": None, "t": [0, 0]}
BLOCK = {
    "mesh": SQUARE,
    "frame": {"angle": 0.0, "mirror": False, "shift": [0.0, 0.0]},
    "dirichlet": [[0, "min", None]],
    "contact": [[1, "min", None]],
    "law": "relu80",
    "mu": 4.0,
    "lam": 4.0,
    "inner": {"c": [0.0, -3.0], "a": None, "t": [0, 0]},
    "outer": STILL,
    "value": None,
    "guess": None,
}


def floating_dirichlet():
    """KF-d: global optimisation of a body whose contact side meets the dirichlet one."""
    case = {**BLOCK, "method": "global", "value": [-0.1, 0.0, 0.0]}
    setup, _, state = c09.solve(case)
    matrix = setup.fem.elasticity(case["mu"], case["lam"])
    expected, _ = ref.minimise(
        matrix, setup.load(0), setup.contact(), setup.fixed, setup.values
    )
    return not cm.close(ref.stacked(state.displacement), expected, 2e-3, 1e-5)


def stale_direct():
    """KF-c: two steps of a dynamic problem without contact by the direct method."""
    case = {**BLOCK, "kind": "dynamic", "method": "direct", "dt": 0.1, "steps": 3}
    case.update(u0=None, v0=None, th=1.0, ze=1.0, contact=[], law=None)
    simulation = model.Simulation(case)
    history = simulation.run()
    expected = simulation.step(history[1])
    return not cm.close(history[2]["v"], expected["v"], 2e-3, 1e-5)


FINDINGS = [Finding("KF-c", stale_direct), Finding("KF-d", floating_dirichlet)]
TESTS = [
    Test("configurations", cases, body, quick=120, thorough=2500),
    Test("direct", direct_cases, direct_body, quick=80, thorough=1500),
    Test("constrained", constrained_cases, constrained_body, quick=48, thorough=600),
    Test("names", name_cases, name_body, quick=60, thorough=1000),
    Test("histories", history_cases, history_body, quick=60, thorough=1000),
]
