"""C11: the contact functional and the contact laws which the package provides."""

import contextlib
import sys

import numpy as np
from hypothesis import strategies as st

from pbt import cm, gen, laws, model, ref, sim
from pbt.core import Finding, Test, check

RULE = (
    "functional: generated static / quasistatic / dynamic / relaxation / membrane problems with "
    "any law of the pool (also non-smooth ones and bounds that depend on displacement); the "
    "function handed to the optimiser is compared with the reference energy at generated points "
    "(differences between points, so constants do not matter). laws: generated coefficients and "
    "arguments against their formulas. Non-trivial: contact responds at one of the points / the "
    "argument is on the side where the law responds."
)
ASSUMPTIONS = [
    "the functional is observed where it is handed to scipy.optimize.minimize; if it is not "
    "handed there the functional test observes nothing (C09 and C12-C16 still check solutions)",
]
SHARDS = 4


def prepare():
    cm.speed_up()


class Captured(Exception):
    pass


@contextlib.contextmanager
def capture(found, after=0):
    """Records the (after + 1)-th minimisation and stops there."""
    import scipy.optimize

    original = scipy.optimize.minimize
    count = [0]

    def recorder(fun, x0, args=(), *others, **kwargs):
        if count[0] == after:
            args = args if isinstance(args, tuple) else (args,)
            jac = kwargs.get("jac", others[1] if len(others) > 1 else None)
            found.append((fun, np.array(x0, dtype=float), args, jac))
            raise Captured()
        count[0] += 1
        return original(fun, x0, args, *others, **kwargs)

    # wherever it was imported to
    places = [(scipy.optimize, "minimize")] + [
        (module, name)
        for key, module in list(sys.modules.items())
        if key.startswith("conmech.")
        for name, value in list(vars(module).items())
        if value is original
    ]
    for module, name in places:
        setattr(module, name, recorder)
    try:
        yield
    finally:
        for module, name in places:
            setattr(module, name, original)


GRADIENTED = ["gradiented BFGS", "gradiented L-BFGS-B"]


@st.composite
def functional_cases(draw):
    kind = draw(st.sampled_from(["static", "quasistatic", "dynamic", "relaxation", "wave"]))
    pool = list(laws.SCALAR) + ["damped"] if kind == "wave" else list(laws.POINTWISE)
    if kind == "static":
        pool = [x for x in pool if x not in ("implicit", "damped")]  # divide by the time step
    if kind == "wave" and draw(st.integers(0, 3)) == 0:
        case = draw(
            model.history_case("wave", methods=("global",), law_pool=("interior",), steps=2)
        )
        case["interior"] = True
    else:
        case = draw(
            model.history_case(
                "quasistatic" if kind == "static" else kind, law_pool=pool, steps=2, max_cells=3
            )
        )
    case["kind"] = kind
    if case["law"] is None or case["law"].startswith("relu"):  # laws which give their derivative
        if draw(st.booleans()):
            case["options"] = {"method": draw(st.sampled_from(GRADIENTED))}
    case["points"] = [
        [draw(gen.floats(-0.3, 0.3, 3)) for _ in range(draw(st.integers(3, 8)))]
        for _ in range(draw(st.integers(1, 3)))
    ]
    return case


def observe(case):
    """The captured function, its arguments, and reference matrix, vector, contact, setup."""
    found = []
    if case["kind"] == "static":
        from conmech.scenarios import problems as pr
        from conmech.simulations.problem_solver import StaticSolver

        setup = sim.Setup(case)
        problem = cm.make_problem(
            pr.StaticDisplacementProblem,
            setup.description(),
            setup.boundaries(),
            {"inner_forces": setup.inner, "outer_forces": setup.outer},
            mu_coef=case["mu"],
            la_coef=case["lam"],
            contact_law=setup.law_class,
        )
        solver = StaticSolver(problem, case["method"])
        setup.look_at(solver.body.mesh)
        start = model.affine(case["u0"])
        with capture(found), contextlib.suppress(Captured):
            solver.solve(initial_displacement=start, **case.get("options", {}))
        static = start(setup.fem.nodes)
        matrix = setup.fem.elasticity(case["mu"], case["lam"])
        return found, setup, (matrix, setup.load(0), setup.contact(static=static, dt=0.0))
    simulation = model.Simulation(case)
    with capture(found), contextlib.suppress(Captured):
        simulation.solve(case["steps"], **case.get("options", {}))
    return found, simulation.setup, simulation.system(simulation.start())


def functional_body(case, ctx):
    found, setup, (matrix, rhs, contact) = observe(case)
    if setup.straddling:
        ctx.label("straddling face, skipped")
        return
    ctx.label(case["kind"], case["method"], f"law {case['law']}")
    if not found:
        ctx.label("nothing to minimise")
        return
    fun, x0, args, jac = found[0]
    x0 = np.atleast_1d(x0)
    n, comps = setup.fem.n, setup.comps
    size = n * comps
    free_contact = cm.dofs(setup.contact_nodes, n, comps)
    schur = case["method"] == "schur"
    unknown = free_contact if schur else np.setdiff1d(np.arange(size), setup.fixed)
    if schur and len(x0) != len(unknown):
        ctx.label("different unknowns")
        return
    rest = np.setdiff1d(np.arange(size), np.concatenate((unknown, setup.fixed)))
    values = []
    for point in [[0.0], *case["points"]]:
        v = np.zeros(size)
        v[setup.fixed] = setup.values
        v[unknown] = np.array(point)[np.arange(len(unknown)) * 7 % len(point)]
        if len(rest):
            v[rest] = np.linalg.solve(
                matrix[np.ix_(rest, rest)], rhs[rest] - np.delete(matrix, rest, 1)[rest] @ np.delete(v, rest)
            )
        x = v[unknown] if schur else np.zeros(len(x0))
        if not schur:
            x[:size] = v
        got = float(np.asarray(fun(x, *args)).ravel()[0])
        expected = ref.energy_of(matrix, rhs, contact, v)
        scale = abs(v @ matrix @ v) + abs(rhs @ v) + abs(expected) + 1e-3
        values.append((got, expected, scale, contact.active_samples(v)[0] if contact else 0))
        if callable(jac):
            slope = np.asarray(jac(x, *args), dtype=float).ravel()
            check(slope.shape == x.shape, lambda: f"gradient has shape {slope.shape}")
            wanted = matrix @ v - rhs + (contact.evaluate(v)[1] if contact else 0.0)
            size_ = np.linalg.norm(np.abs(matrix) @ np.abs(v)) + np.linalg.norm(rhs) + 1e-3
            off = np.linalg.norm((slope if schur else slope[unknown]) - wanted[unknown])
            ctx.label("gradient")
            check(
                off <= 1e-7 * (size_ + np.linalg.norm(wanted)),
                lambda: f"gradient ({case['kind']}, {case['method']}) is off by {off:.3e}",
            )
    ctx.nontrivial(any(a for *_, a in values))
    for got, expected, scale, _ in values[1:]:
        difference = (got - values[0][0]) - (expected - values[0][1])
        check(
            abs(difference) <= 1e-6 * (scale + values[0][2]),
            lambda: f"energy ({case['kind']}, {case['method']}, law {case['law']}) differs by "
            f"{difference:.3e} between two points (scale {scale:.1e})",
        )


# --------------------------------------------------------------------- laws, point by point


@st.composite
def law_cases(draw):
    return {
        "slope": draw(gen.floats(0.1, 500, 2)),
        "resistance": draw(gen.floats(0.1, 50, 2)),
        "obstacle": draw(gen.floats(-1, 1, 2)),
        "kappa": draw(gen.floats(0, 100, 2)),
        "beta": draw(gen.floats(0, 100, 2)),
        "interior": draw(st.booleans()),
        "points": draw(
            st.lists(
                st.tuples(gen.floats(-2, 2, 3), gen.floats(-2, 2, 3), gen.floats(0.001, 1, 3)).map(
                    list
                ),
                min_size=1,
                max_size=12,
            )
        ),
    }


def equal(got, expected, what):
    check(
        abs(float(got) - expected) <= 1e-9 * (1 + abs(expected)), lambda: f"{what}: {got}, not {expected}"
    )


def law_body(case, ctx):
    from conmech.dynamics.contact.constant_constact_law import make_const_contact_law
    from conmech.dynamics.contact.contact_law import PotentialOfContactLaw
    from conmech.dynamics.contact.damped_normal_compliance import make_damped_norm_compl
    from conmech.dynamics.contact.interior_contact_law import InteriorContactLaw
    from conmech.dynamics.contact.relu_slope_contact_law import make_slope_contact_law

    slope, resistance = case["slope"], case["resistance"]
    g, kappa, beta = case["obstacle"], case["kappa"], case["beta"]
    relu, const = make_slope_contact_law(slope), make_const_contact_law(resistance)
    other = make_slope_contact_law(slope + 1)  # laws do not share coefficients
    damped = make_damped_norm_compl(g, kappa, beta, interior=case["interior"])
    instance = damped()
    check(
        isinstance(instance, InteriorContactLaw) == case["interior"]
        and isinstance(instance, PotentialOfContactLaw),
        "class of damped normal compliance",
    )
    equal(instance.kappa, kappa, "kappa")
    equal(instance.beta, beta, "beta")
    equal(instance.obstacle_level, g, "obstacle level")
    ctx.label("interior" if case["interior"] else "boundary")
    for v, u, dt in case["points"]:
        inside = max(v, 0.0)
        ctx.nontrivial(v > 0)
        equal(relu.potential_normal_direction(v, u, dt), 0.5 * slope * inside**2, "relu potential")
        equal(relu.subderivative_normal_direction(v, u, dt), slope * inside, "relu response")
        equal(other.subderivative_normal_direction(v, u, dt), (slope + 1) * inside, "relu response")
        equal(relu.normal_bound(v, u, dt), 1.0, "relu normal bound")
        equal(relu.tangential_bound(v, u, dt), 1.0, "relu tangential bound")
        equal(relu.potential_tangential_direction(v, u, dt), 0.0, "relu friction")
        equal(relu.subderivative_tangential_direction(v, u, dt), 0.0, "relu friction")
        equal(const.potential_normal_direction(v, u, dt), resistance * inside * u, "const potential")
        equal(
            const.subderivative_normal_direction(v, u, dt),
            resistance if v > 0 else 0.0,
            "const response",
        )
        reached = u + v * dt
        if abs(reached - g) < 1e-9:
            continue
        expected = kappa * (reached - g) + beta * v if reached > g else 0.0
        equal(damped.potential_normal_direction(v, u, dt), expected, "damped normal compliance")
        equal(damped.normal_bound(v, u, dt), 0.5 * v, "damped normal compliance, bound")
        ctx.nontrivial(reached > g)


# ----------------------------------------------------------------------- recorded finding


def face_measure_3d():
    """KF-b: unit cube pressed by 0.1 into a foundation under its face z = 0."""
    from conmech.scenarios import problems as pr
    from conmech.simulations.problem_solver import StaticSolver

    points = [[float(i), float(j), float(k)] for k in (0, 1) for j in (0, 1) for i in (0, 1)]
    index = {tuple(p): i for i, p in enumerate(points)}
    elements = [[index[tuple(map(float, p))] for p in tet] for tet in gen._KUHN]
    zero = lambda x, t=None: np.zeros(3)
    problem = cm.make_problem(
        pr.StaticDisplacementProblem,
        cm.mesh_description({"nodes": points, "elements": elements}),
        cm.boundaries(contact=lambda x: abs(x[2]) < 1e-9, dirichlet=lambda x: x[2] == 1.0),
        {"inner_forces": zero, "outer_forces": zero},
        mu_coef=1.0,
        la_coef=1.0,
        contact_law=laws.law("relu5")[0],
    )
    solver = StaticSolver(problem, "global")
    found = []
    with capture(found), contextlib.suppress(Captured):
        solver.solve(initial_displacement=lambda x: np.zeros((len(x), 3)))
    fun, x0, args, _ = found[0]
    x0 = np.atleast_1d(x0)
    n = len(points)
    pressed = np.zeros(len(x0))
    pressed[2 * n : 3 * n] = -0.1
    energy = [float(np.asarray(fun(x, *args)).ravel()[0]) for x in (pressed, 0 * pressed)]
    return abs(energy[0] - energy[1] - 0.5 * 5.0 * 0.1**2) > 1e-6


FINDINGS = [Finding("KF-b", face_measure_3d)]
TESTS = [
    Test("functional", functional_cases, functional_body, quick=200, thorough=4000),
    Test("laws", law_cases, law_body, quick=300, thorough=6000),
]
