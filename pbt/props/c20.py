"""C20: saving, loading and resuming simulations."""

import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from pbt import cm, model
from pbt.core import Test, check
from pbt.props import c09, c17
from pbt.props.c19 import FIELDS, same

RULE = (
    "Every kind of time-dependent simulation with generated bodies: states saved, loaded and "
    "compared; membranes stopped after generated numbers of steps, saved, loaded and resumed "
    "with the same or a fresh solver (chains of up to 3 interruptions, also from states before the last one), compared with the "
    "uninterrupted run; saves which fail at generated points; states of static and Poisson "
    "problems. Non-trivial: the state is not at "
    "rest (and at least one resume, or one failed save)."
)
ASSUMPTIONS = [
    "files are written in a scratch directory; failures: missing directory, path of a "
    "directory, product or nothing that cannot be pickled",
    "only WaveSolver can resume from a state",
]
SHARDS = 4


def prepare():
    cm.speed_up()


class Unpicklable:
    """A product which cannot be pickled."""

    name = "unpicklable"

    def __init__(self):
        self.data = {}

    def update(self, state):
        self.data[state.time] = 0

    def copy(self):
        return self

    def __reduce__(self):
        raise RuntimeError("cannot be pickled")


def observed(simulation, state):
    result = simulation.read(state)
    result["x"] = np.array(state.displaced_nodes, dtype=float)
    return result


def equal(a, b, what):
    for key in (*FIELDS, "x"):
        if key in a:
            check(np.array_equal(a[key], b[key]), f"{what}: {key} differs")
    check(a["time"] == b["time"], f"{what}: time {b['time']}, saved {a['time']}")


def outcome(simulation):
    steps = simulation.case["steps"]
    return [simulation.read(s) for s in simulation.solve(steps, output_step=(1, steps))]


@st.composite
def round_cases(draw):
    kind = draw(st.sampled_from(model.KINDS))
    case = draw(model.history_case(kind, steps=3))
    case["faults"] = draw(
        st.lists(st.sampled_from(["missing", "directory", "product", "body"]), max_size=2)
    )
    case["product"] = draw(st.booleans())
    case["law_after"] = draw(st.booleans())
    case["over"] = draw(st.booleans())  # save over the file of an earlier state
    return case


def stress_law(**kwargs):
    """Depends on everything that the state promises to pass."""
    total = kwargs["displacement"].sum() + 2 * kwargs["velocity"].sum() + kwargs["time"]
    return np.full((3, 2, 2), float(total) + (kwargs["setup"] is not None))


def round_body(case, ctx):
    from conmech.state.products.penetration import Penetration

    simulation = model.Simulation(case)
    expected = outcome(simulation)
    states = simulation.solve(case["steps"], output_step=(1, case["steps"]))
    state = states[-1]
    if case["product"]:
        state.inject_product(Penetration())
        state.update_products()
    if case["law_after"]:
        state.constitutive_law, state.setup = stress_law, simulation.problem
    before = observed(simulation, state)
    stress = None if state.stress is None else np.array(state.stress)
    force = simulation.solver.body.dynamics.force
    sources = force.inner.source, force.outer.source
    with tempfile.TemporaryDirectory() as folder:
        path = os.path.join(folder, "state")
        for fault in case["faults"]:
            failing_save(state, fault, folder, simulation)
        if case["over"]:
            states[0].save(path)
        state.save(path)
        loaded = type(state).load(path)
        equal(before, observed(simulation, loaded), f"{case['kind']}: loaded state")
        check(type(loaded) is type(state), f"loaded {type(loaded)}")
        check(
            set(loaded.products) == set(state.products),
            f"products {set(loaded.products)}, saved {set(state.products)}",
        )
        for name, product in state.products.items():
            check(
                loaded.products[name].data == product.data,
                f"product {name}: {loaded.products[name].data}, saved {product.data}",
            )
        check(
            np.array_equal(loaded.body.mesh.nodes, state.body.mesh.nodes)
            and np.array_equal(loaded.body.mesh.elements, state.body.mesh.elements),
            "the loaded state has another mesh",
        )
        # the loaded state is on its own
        loaded.displacement[:] = 11.0
        equal(before, observed(simulation, state), f"{case['kind']}: state after saving")
    check(
        (force.inner.source, force.outer.source) == sources,
        "saving lost the sources of forces",
    )
    if case["law_after"]:
        check(
            state.constitutive_law is stress_law and state.setup is simulation.problem,
            "saving lost the constitutive law or the setup of the state",
        )
        check(np.array_equal(state.stress, stress), "saving changed the stress")
    again = outcome(simulation)
    for a, b in zip(expected, again):
        same(b, a, f"{case['kind']}: solver used again after saving {case['faults']}")
    ctx.label(case["kind"], *case["faults"])
    ctx.nontrivial(np.linalg.norm(before["u"]) > 1e-4)


def failing_save(state, fault, folder, simulation):
    path = os.path.join(folder, "failed")
    if fault == "missing":
        path = os.path.join(folder, "no", "such", "directory", "state")
    elif fault == "directory":
        path = folder
    elif fault == "product":
        state.products["unpicklable"] = Unpicklable()
    else:
        state.body.mark = Unpicklable()
    failed = False
    try:
        state.save(path)
    except Exception:  # pylint: disable=broad-except
        failed = True
    finally:
        state.products.pop("unpicklable", None)
        if hasattr(state.body, "mark"):
            del state.body.mark
    check(failed, f"save reported no failure ({fault})")


@st.composite
def resume_cases(draw):
    interior = draw(st.integers(0, 3)) == 0
    case = draw(
        model.history_case(
            "wave",
            methods=("global",) if interior else ("schur", "global"),
            law_pool=("interior",) if interior else None,
            steps=8,
        )
    )
    if interior:
        case["interior"] = True
    case["steps"] = draw(st.integers(2, 8))
    cuts = draw(
        st.lists(st.integers(1, case["steps"] - 1), min_size=1, max_size=3, unique=True)
    )
    case["cuts"] = [
        [
            cut,
            draw(st.sampled_from(["file", "file", "copy", "same"])),
            draw(st.booleans()),
            draw(st.sampled_from([0, 0, 1, 3])),
        ]
        for cut in sorted(cuts)
    ]
    case["product"] = draw(st.sampled_from([None, "kept", "new"]))
    case["one file"] = draw(st.booleans())
    return case


def resume_body(case, ctx):
    from conmech.state.products.penetration import Penetration
    from conmech.state.state import State

    def products():
        return None if case["product"] is None else [Penetration()]

    simulation = model.Simulation(case)
    steps = case["steps"]
    every = tuple(range(1, steps + 1))
    full = simulation.solve(steps, output_step=every, products=products())
    history = [simulation.start()] + [simulation.read(s) for s in full]

    solver = model.Simulation(case)
    done, state, collected = 0, None, {}
    with tempfile.TemporaryDirectory() as folder:
        cuts = [*case["cuts"], [steps, "same", False, 0]]
        for number, (until, way, fresh, beyond) in enumerate(cuts):
            count = until - done
            # the run goes on after the state which the next one resumes from
            beyond = min(beyond, steps - until)
            inject = products() if case["product"] == "new" or state is None else None
            states = solver.solve(
                count + beyond,
                output_step=tuple(range(1, count + beyond + 1)),
                state=state,
                products=inject,
            )
            for k, new in enumerate(states):
                same(
                    solver.read(new),
                    history[done + k + 1],
                    f"{case['cuts']}: step {done + k + 1} of the resumed run",
                )
            state, done = states[count - 1], until
            if case["product"] == "new":
                collected.update(state.products["penetration"].data)
            elif case["product"] == "kept":
                collected = dict(state.products["penetration"].data)
            if way == "file":
                path = os.path.join(folder, "state" if case["one file"] else str(number))
                state.save(path)
                state = State.load(path)
            elif way == "copy":
                state = state.copy()
            if fresh:
                solver = model.Simulation(case)
    if case["product"] is not None:
        expected = full[-1].products["penetration"].data
        check(
            len(collected) == len(expected)
            and np.allclose(sorted(collected), sorted(expected), atol=1e-9)
            and np.allclose(
                [collected[k] for k in sorted(collected)],
                [expected[k] for k in sorted(expected)],
                rtol=1e-7,
                atol=1e-9,
            ),
            lambda: f"{case['cuts']}: product of the resumed run {collected}, "
            f"of the uninterrupted one {expected}",
        )
    if any(c[3] for c in case["cuts"]):
        ctx.label("back to an earlier state")
    ctx.label(*[c[1] for c in case["cuts"]], f"product {case['product']}")
    ctx.nontrivial(np.linalg.norm(history[-1]["u"]) > 1e-4)


# ------------------------------------------------- states of problems without time


@st.composite
def still_cases(draw):
    if draw(st.booleans()):
        case = {"kind": "poisson", **draw(c17.cases())}
    else:
        case = {"kind": "static", **draw(c09.cases())}
    case["law_after"] = draw(st.booleans())
    return case


def still_body(case, ctx):
    if case["kind"] == "poisson":
        solver, *_ = c17.make(case)
        state = solver.solve()
        field = "temperature"
    else:
        _, solver, state = c09.solve(case)
        field = "displacement"
    kept = np.array(getattr(state, field))
    older = type(state)(solver.body)
    older.time = 3.0
    if case["law_after"]:
        state.constitutive_law, state.setup = stress_law, solver.problem
    force = solver.body.dynamics.force
    heat = solver.body.dynamics.temperature
    sources = force.inner.source, force.outer.source, heat.inner.source, heat.outer.source
    with tempfile.TemporaryDirectory() as folder:
        path = os.path.join(folder, "state")
        for value, time in ((older, 3.0), (state, 0.0), (older.copy(), 3.0), (state, 0.0)):
            value.save(path)
            loaded = type(value).load(path)
            check(type(loaded) is type(value), f"loaded {type(loaded)}, saved {type(value)}")
            check(loaded.time == time, f"loaded time {loaded.time}, saved {time}")
            expected = kept if value is state else np.zeros_like(kept)
            check(
                np.array_equal(getattr(loaded, field), expected),
                f"{case['kind']}: loaded {field} differs from the saved one",
            )
            check(
                np.array_equal(loaded.body.mesh.nodes, solver.body.mesh.nodes)
                and np.array_equal(loaded.body.mesh.elements, solver.body.mesh.elements),
                "the loaded state has another mesh",
            )
    check(
        sources == (force.inner.source, force.outer.source, heat.inner.source, heat.outer.source),
        "saving lost sources of the problem",
    )
    if case["law_after"]:
        check(
            state.constitutive_law is stress_law and state.setup is solver.problem,
            "saving lost the constitutive law or the setup of the state",
        )
    if case["kind"] == "poisson":
        again = solver.solve().temperature
    else:
        again = solver.solve(initial_displacement=model.affine(case["guess"])).displacement
    check(
        cm.close(again, kept, 1e-7, 1e-9),
        lambda: f"{case['kind']}: solver used after saving differs: {cm.distance(again, kept)}",
    )
    ctx.label(case["kind"])
    ctx.nontrivial(np.linalg.norm(kept) > 1e-4)


TESTS = [
    Test("still", still_cases, still_body, quick=80, thorough=1200),
    Test("round trip", round_cases, round_body, quick=160, thorough=2500),
    Test("resume", resume_cases, resume_body, quick=160, thorough=2500),
]
