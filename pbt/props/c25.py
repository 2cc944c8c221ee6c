"""C25: simulations do not interfere with each other or with what they are given."""

import threading

import numpy as np
from hypothesis import strategies as st

from pbt import cm, gen, model, sim
from pbt.core import Test, check
from pbt.props.c19 import same

RULE = (
    "Two or three generated simulations of any kind (also of one problem object, of one problem "
    "class with other places and materials, or on the same mesh) alive at once: built and run in threads which a "
    "generated schedule switches inside the user's callbacks (loads, conditions, boundary "
    "selection, initial fields), or started inside callbacks of each other; each must make the "
    "steps which its own equations give and agree with a run alone. Everything a simulation is "
    "given (arrays of nodes and elements, tensors, arrays returned by callbacks, lists) is "
    "compared with copies made before. Non-trivial: all move, and switches happened (or "
    "something was given as a shared array)."
)
ASSUMPTIONS = [
    "switches happen in callbacks only, one thread runs at a time",
    "a solver object runs one simulation at a time",
]
SHARDS = 4
KINDS = (*model.KINDS, "quasistatic", "dynamic")


def prepare():
    cm.speed_up()


# --------------------------------------------------------------------------------- schedules


class Switch:
    """Runs jobs in threads, one at a time; which one goes on is decided by the schedule."""

    def __init__(self, schedule, every):
        self.schedule, self.every = schedule, every
        self.back = threading.Event()
        self.current = None
        self.jobs, self.switches, self.calls = {}, 0, 0

    def wrap(self, function):
        def callback(*args, **kwargs):
            self.pause()
            return function(*args, **kwargs)

        return callback

    def pause(self):
        job = self.jobs.get(threading.get_ident())
        if job is None:
            return
        job["calls"] += 1
        if job["calls"] % self.every == 0:
            self.back.set()
            job["go"].wait()
            job["go"].clear()

    def run(self, functions):
        results, jobs = [None] * len(functions), []

        def work(index, job, function):
            self.jobs[threading.get_ident()] = job
            job["go"].wait()
            job["go"].clear()
            try:
                results[index] = (function(), None)
            except BaseException as error:  # given to the caller below
                results[index] = (None, error)
            job["done"] = True
            self.back.set()

        for index, function in enumerate(functions):
            job = {"go": threading.Event(), "calls": 0, "done": False}
            job["thread"] = threading.Thread(target=work, args=(index, job, function), daemon=True)
            jobs.append(job)
            job["thread"].start()
        number, last = 0, None
        while not all(job["done"] for job in jobs):
            alive = [job for job in jobs if not job["done"]]
            job = alive[self.schedule[number % len(self.schedule)] % len(alive)]
            number += 1
            self.switches += last is not None and last is not job
            last = job
            self.back.clear()
            job["go"].set()
            self.back.wait()
        for job in jobs:
            job["thread"].join()
        for _, error in results:
            if error is not None:
                raise error
        return [result for result, _ in results]


@st.composite
def together(draw):
    kinds = [draw(st.sampled_from(KINDS)) for _ in range(draw(st.integers(2, 3)))]
    if draw(st.integers(0, 2)) == 0:  # of the same kind
        kinds = [kinds[0]] * len(kinds)
    cases = [draw(model.history_case(kind, steps=2)) for kind in kinds]
    plain = cases[0]["dirichlet"] and not any("piezo" in kind for kind in kinds)
    if plain and draw(st.integers(0, 1)) == 0:  # the same mesh and parts, other data
        for case in cases[1:]:
            for key in ("mesh", "frame", "dirichlet", "contact"):
                case[key] = cases[0][key]
            case["method"] = "schur"  # touching parts: KF-d
    return {
        "cases": cases,
        "schedule": draw(st.lists(st.integers(0, 5), min_size=1, max_size=12)),
        "every": draw(st.sampled_from([1, 2, 3, 5, 11, 40])),
        "share": draw(st.sampled_from([None, None, "problem"])),
        "alone first": draw(st.booleans()),
    }


def alone(case):
    simulation = model.Simulation(case)
    return simulation, simulation.run()


def together_body(case, ctx):
    cases = case["cases"]
    if case["share"] == "problem":
        methods = [c["method"] for c in cases]
        cases = [{**cases[0], "method": m} for m in methods]
        if cases[0]["method"] == "schur":  # others may be excluded by KF-d
            cases = [cases[0]] * len(cases)
    straddling = [model.Simulation(c).setup.straddling for c in cases]
    if any(straddling):
        ctx.label("straddling face, skipped")
        return
    expected = [alone(c)[1] for c in cases] if case["alone first"] else None
    switch = Switch(case["schedule"], case["every"])
    shared = None
    if case["share"] == "problem":
        shared = model.Simulation(cases[0], wrap=switch.wrap).problem

    def job(own):
        def run():
            simulation = model.Simulation(own, wrap=switch.wrap, problem=shared)
            return simulation, simulation.run()

        return run

    results = switch.run([job(c) for c in cases])
    if expected is None:
        expected = [alone(c)[1] for c in cases]
    ctx.label(*(c["kind"] for c in cases), f"share {case['share']}")
    moved = True
    for own, (simulation, got), wanted in zip(cases, results, expected):
        where = f"{own['kind']}, {own['method']}, together with others"
        check(len(got) == len(wanted), f"{where}: {len(got)} states, alone {len(wanted)}")
        for k, (a, b) in enumerate(zip(got, wanted)):
            same(a, b, f"{where}: state {k} and that of a run alone")
        moved = moved and np.linalg.norm(got[-1]["u"]) > 1e-6
        model.verify_history(simulation, got, _Quiet())
    ctx.nontrivial(moved and switch.switches >= 3)


@st.composite
def twins(draw):
    case = draw(model.history_case(draw(st.sampled_from(model.KINDS)), steps=2))
    for key in ("inner", "outer"):  # loads depend on the position
        if case[key]["a"] is None:
            comps = len(case[key]["c"])
            case[key]["a"] = [[draw(gen.floats(-1.5, 1.5, 1)) for _ in range(2)] for _ in range(comps)]
    others = []
    for _ in range(draw(st.integers(1, 2))):
        other = {"frame": {**case["frame"], "shift": [draw(gen.floats(-3, 3, 1)) for _ in range(2)]}}
        if draw(st.booleans()):
            other["mu"] = draw(gen.floats(1, 8, 1))
        if draw(st.booleans()):
            other["lam"] = draw(gen.floats(0.5, 8, 1))
        others.append(other)
    return {
        "case": case,
        "others": others,
        "schedule": draw(st.lists(st.integers(0, 5), min_size=1, max_size=12)),
        "every": draw(st.sampled_from([1, 3, 11, 10**6])),
    }


def twins_body(case, ctx):
    """Bodies in other places, or of other materials, of one problem class."""
    first = case["case"]
    family = [first] + [{**first, **other} for other in case["others"]]
    switch = Switch(case["schedule"], case["every"])
    pattern = model.Simulation(first, wrap=switch.wrap)
    if pattern.setup.straddling:
        ctx.label("straddling face, skipped")
        return

    def job(own):
        def run():
            simulation = model.Simulation(own, wrap=switch.wrap, cls=type(pattern.problem))
            return simulation, simulation.run()

        return run

    results = switch.run([job(own) for own in family])
    ctx.label(first["kind"], f"{len(family)} bodies")
    moved = True
    for own, (simulation, got) in zip(family, results):
        model.verify_history(simulation, got, _Quiet())
        moved = moved and np.linalg.norm(got[-1]["u"]) > 1e-6
    ctx.nontrivial(moved)


class _Quiet:
    def label(self, *_):
        pass

    def nontrivial(self, *_):
        pass


# ------------------------------------------------------------ one simulation inside another


@st.composite
def nested(draw):
    outer, inner = (
        draw(model.history_case(draw(st.sampled_from(KINDS)), steps=2)) for _ in range(2)
    )
    return {
        "outer": outer,
        "inner": inner if draw(st.integers(0, 3)) else None,  # None: the same as the outer one
        "call": draw(st.integers(0, 200)),
        "times": draw(st.integers(1, 3)),
    }


def nested_body(case, ctx):
    outer, inner = case["outer"], case["inner"] or case["outer"]
    plain_outer, expected_outer = alone(outer)
    plain_inner, expected_inner = alone(inner)
    if plain_outer.setup.straddling or plain_inner.setup.straddling:
        ctx.label("straddling face, skipped")
        return
    count, found, active = [0], [], [False]

    def wrap(function):
        def callback(*args, **kwargs):
            result = function(*args, **kwargs)
            if not active[0]:
                count[0] += 1
                if count[0] > case["call"] and len(found) < case["times"]:
                    active[0] = True
                    found.append(alone(inner)[1])
                    active[0] = False
                    count[0] = 0
            return result

        return callback

    simulation = model.Simulation(outer, wrap=wrap)
    got = simulation.run()
    for k, (a, b) in enumerate(zip(got, expected_outer)):
        same(a, b, f"{outer['kind']} with {inner['kind']} run inside a callback: state {k}")
    for history in found:
        for k, (a, b) in enumerate(zip(history, expected_inner)):
            same(a, b, f"{inner['kind']} run inside a callback of {outer['kind']}: state {k}")
    ctx.label(f"{inner['kind']} in {outer['kind']}")
    ctx.nontrivial(
        found
        and np.linalg.norm(got[-1]["u"]) > 1e-6
        and np.linalg.norm(expected_inner[-1]["u"]) > 1e-6
    )


# ------------------------------------------------------------------- what the user passes in


class Keeper:
    """Remembers copies of arrays which were handed over."""

    def __init__(self):
        self.kept = []

    def keep(self, what, array):
        self.kept.append((what, array, np.array(array)))
        return array

    def verify(self, when):
        for what, array, copy in self.kept:
            check(
                np.array_equal(array, copy),
                lambda: f"{when} changed {what} which the user passed in",
            )

    def wrap(self, function, what="an array returned by a callback"):
        """Gives the same array whenever the values are the same."""
        given = {}

        def callback(*args, **kwargs):
            result = function(*args, **kwargs)
            if not isinstance(result, np.ndarray):
                return result
            key = (result.shape, result.tobytes())
            if key not in given:
                given[key] = self.keep(what, result)
            return given[key]

        return callback


class Lending(model.Simulation):
    """Passes in arrays of its own, which it keeps an eye on."""

    def __init__(self, case, keeper):
        self.keeper = keeper
        super().__init__(case, wrap=keeper.wrap)

    def description(self):
        from conmech.mesh.zoo.raw_mesh import RawMesh
        from conmech.properties.mesh_description import MeshDescription

        mesh = self.setup.frame.mesh
        nodes = self.keeper.keep("nodes", np.array(mesh["nodes"], dtype=float))
        elements = self.keeper.keep("elements", np.array(mesh["elements"], dtype=np.int64))
        position = None
        if self.case["position"]:
            position = self.keeper.keep("initial_position", nodes.min(axis=0))

        class Lent(MeshDescription):
            def build(self):
                return RawMesh(nodes, elements)

        return Lent(initial_position=position)

@st.composite
def lending(draw):
    case = draw(model.history_case(draw(st.sampled_from(model.KINDS)), steps=3))
    case["position"] = draw(st.booleans())
    case["again"] = draw(st.booleans())
    return case


def lending_body(case, ctx):
    keeper = Keeper()
    simulation = Lending(case, keeper)
    if simulation.setup.straddling:
        ctx.label("straddling face, skipped")
        return
    for name, value in simulation.attributes.items():
        if isinstance(value, np.ndarray):
            keeper.keep(name, value)
    keeper.verify("building the body")
    steps = case["steps"]
    output = list(range(1, steps + 1))
    initial = simulation.initial()
    arguments = dict(initial)
    states = list(simulation.solver.solve(n_steps=steps, output_step=output, **arguments))
    check(output == list(range(1, steps + 1)), "solving changed the list of output steps")
    check(arguments == initial, "solving changed the keyword arguments")
    keeper.verify("solving")
    history = [simulation.start()] + [simulation.read(state) for state in states]
    model.verify_history(simulation, history, ctx)
    if case["again"]:
        for state in states:
            state.displacement[:] = 1e3
            state.velocity[:] = 1e3
        keeper.verify("writing into returned states")
        other = Lending(case, keeper)
        again = list(other.solver.solve(n_steps=steps, output_step=output, **initial))
        keeper.verify("solving again")
        for k, (a, b) in enumerate(zip(again, history[1:])):
            same(other.read(a), b, f"{case['kind']}: state {k + 1} of a second simulation")
    ctx.nontrivial(len(keeper.kept) > 4 and np.linalg.norm(history[-1]["u"]) > 1e-6)


# ------------------------------------------------------ static problems and element densities


@st.composite
def statics(draw):
    count = draw(st.integers(2, 3))
    method = draw(st.sampled_from(["schur", "global", "direct"]))
    bodies = []
    for _ in range(count):
        body = draw(
            sim.body2d(
                law_pool=["relu5", "gap"] if method != "direct" else ["relu5"],
                touching=None if method == "schur" else False,
                max_cells=2,
            )
        )
        body["method"] = method
        bodies.append(body)
    ops = draw(
        st.lists(
            st.tuples(
                st.integers(0, count - 1),
                st.sampled_from(["solve", "density", "solve", "method"]),
                st.lists(gen.floats(0.2, 4, 2), min_size=1, max_size=4),
            ).map(list),
            min_size=3,
            max_size=9,
        )
    )
    return {"bodies": bodies, "ops": ops}


def statics_body(case, ctx):
    """Solvers of one class alive together, some with densities, used in any order."""
    from conmech.scenarios import problems as pr
    from conmech.simulations.problem_solver import NonHomogenousSolver

    from pbt import ref

    setups, solvers, weights = [], [], []
    keeper = Keeper()
    for body in case["bodies"]:
        setup = sim.Setup(body)
        problem = cm.make_problem(
            pr.StaticDisplacementProblem,
            setup.description(),
            setup.boundaries(),
            {"inner_forces": setup.inner, "outer_forces": setup.outer},
            mu_coef=body["mu"],
            la_coef=body["lam"],
            contact_law=setup.law_class,
        )
        solvers.append(NonHomogenousSolver(problem, body["method"]))
        setup.look_at(solvers[-1].body.mesh)
        if setup.straddling:
            ctx.label("straddling face, skipped")
            return
        setups.append(setup)
        weights.append(np.ones(len(setup.fem.elements)))
    seen, states = set(), []
    for number, kind, values in case["ops"] + [[k, "solve", []] for k in range(len(setups))]:
        setup, solver, body = setups[number], solvers[number], case["bodies"][number]
        if kind == "density":
            count = len(weights[number])
            weights[number] = np.array(values)[np.arange(count) % len(values)]
            solver.update_density(keeper.keep("density", weights[number].copy()))
        elif kind == "method":
            solver.solving_method = body["method"]
        else:
            state = solver.solve(initial_displacement=lambda x: np.zeros_like(x))
            matrix = setup.fem.elasticity(body["mu"], body["lam"], weights[number])
            expected, residual = ref.minimise(
                matrix, setup.load(0), setup.contact(), setup.fixed, setup.values
            )
            if residual > 1e-7:
                ctx.label("reference did not converge")
                return
            got = ref.stacked(state.displacement)
            rtol = ref.tolerance(2 * model.RTOL, matrix, setup.contact(), expected, setup.fixed)
            check(
                cm.close(got, expected, rtol, model.atol(rtol - 2 * model.RTOL, len(got))),
                lambda: f"body {number} of {len(setups)}: displacement is off by "
                f"{cm.distance(got, expected)}",
            )
            seen.add(number)
            states.append((state, np.array(state.displacement)))
    keeper.verify("solving")
    for state, copy in states:
        check(np.array_equal(state.displacement, copy), "a later solve changed an earlier state")
    ctx.label(case["bodies"][0]["method"])
    ctx.nontrivial(len(seen) > 1 and any(k == "density" for _, k, _ in case["ops"]))


TESTS = [
    Test("together", together, together_body, quick=60, thorough=1200),
    Test("twins", twins, twins_body, quick=80, thorough=1600),
    Test("nested", nested, nested_body, quick=48, thorough=800),
    Test("lending", lending, lending_body, quick=120, thorough=2400),
    Test("statics", statics, statics_body, quick=48, thorough=900),
]
