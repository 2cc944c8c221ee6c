"""C19: output steps, independent snapshots and repeatable simulations."""

import numpy as np
from hypothesis import strategies as st

from pbt import cm, model
from pbt.core import Test, check
from pbt.props import c09

RULE = (
    "Every kind of time-dependent simulation, generated bodies, and generated histories on one "
    "solver: output steps (absent, or non-decreasing lists), earlier solves of other lengths and "
    "initial fields, snapshots overwritten by the caller; compared with a run of a fresh solver "
    "which outputs every step. Non-trivial: motion, and some step is skipped, or a solve is "
    "repeated."
)
ASSUMPTIONS = ["the same sequence of steps is compared, so agreement is to rounding"]
SHARDS = 4
FIELDS = ("u", "v", "b", "t", "p")


def prepare():
    cm.speed_up()


def same(a, b, what, rtol=1e-7, atol=1e-9):
    for key in FIELDS:
        if key in a and key in b:
            check(
                cm.close(a[key], b[key], rtol, atol),
                lambda: f"{what}: {key} differs by {cm.distance(a[key], b[key])}",
            )
    check(abs(a["time"] - b["time"]) < 1e-9, lambda: f"{what}: time {a['time']}, not {b['time']}")


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(model.KINDS))
    case = draw(model.history_case(kind, steps=6))
    steps = case["steps"]
    case["output"] = draw(
        st.one_of(
            st.none(),
            st.lists(st.integers(1, steps), min_size=1, max_size=4).map(sorted),
        )
    )
    if case["output"] and case["output"][-1] != steps and draw(st.booleans()):
        case["output"].append(steps)
    # what was done with the solver before: [steps, use other initial fields]
    case["before"] = draw(
        st.lists(st.tuples(st.integers(1, 3), st.booleans()).map(list), max_size=2)
    )
    case["spoil"] = draw(st.booleans())
    case["between"] = draw(st.booleans())
    return case


def body(case, ctx):
    steps = case["steps"]
    full = model.Simulation(case).run()
    used = model.Simulation(case)
    for count, other in case["before"]:
        kwargs = {}
        if other:
            kwargs["initial_displacement"] = lambda x: np.full((len(x), 2), 0.03)
        used.solve(count, **kwargs)
    if case["between"]:  # another body with the same problem class, in the meantime
        model.Simulation({**case, "method": "schur", "mu": case["mu"] + 1}).solve(1)
    output = case["output"]
    expected = output if output else [steps]
    initial = used.initial()
    states = used.solver.solve(
        n_steps=steps, output_step=None if output is None else tuple(output), **initial
    )
    seen = []
    got = []
    for state in states:
        seen.append(state)
        got.append(used.read(state))
        if case["spoil"]:  # the caller owns what it was given
            state.displacement[:] = 77.0
            state.velocity[:] = -77.0
            state.absement[:] = 55.0
            state.displaced_nodes[:] = 3.0
            if case["kind"] == "temperature":
                state.temperature[:] = 1e3
            if "piezo" in case["kind"]:
                state.electric_potential[:] = 1e3
    ctx.label(case["kind"], case["method"])
    check(len(got) == len(expected), f"{len(got)} states for output steps {expected}")
    where = f"{case['kind']}, {case['method']}, output {output}, before {case['before']}"
    for k, (number, new) in enumerate(zip(expected, got)):
        same(new, full[number], f"{where}: state of step {number}")
    if not case["spoil"]:
        for number, state in zip(expected, seen):
            same(used.read(state), full[number], f"{where}: kept state of step {number}")
        check(len({id(s) for s in seen}) == len(seen), f"{where}: states are shared")
    moved = np.linalg.norm(full[-1]["u"]) > 1e-4
    if case["before"]:
        ctx.label("solver used before")
    if case["spoil"]:
        ctx.label("snapshots overwritten")
    if list(expected) != list(range(1, steps + 1)):
        ctx.label("skipped or repeated outputs")
    ctx.nontrivial(moved and (case["before"] or steps > len(expected)))


@st.composite
def static_cases(draw):
    case = draw(c09.cases())
    case["guesses"] = [
        draw(st.sampled_from(["callable", "array", "list"])) for _ in range(draw(st.integers(2, 3)))
    ]
    return case


def static_body(case, ctx):
    """Static problems: one solver, several solves, initial guess as function or as values."""
    _, solver, first = c09.solve(case)
    guess = model.affine(case["guess"])
    nodes = np.asarray(solver.body.mesh.nodes, dtype=float)
    kept = np.array(first.displacement)
    states = []
    for form in case["guesses"]:
        given = guess if form == "callable" else guess(nodes)
        if form == "list":
            given = given.tolist()
        state = solver.solve(initial_displacement=given)
        states.append(state)
        check(
            cm.close(state.displacement, kept, 1e-7, 1e-9),
            lambda: f"solve with guess as {form} differs: {cm.distance(state.displacement, kept)}",
        )
        state.displacement[:] = 5.0
        check(np.array_equal(first.displacement, kept), "a later solve changed an earlier state")
    ctx.label(case["method"], *case["guesses"])
    ctx.nontrivial(np.linalg.norm(kept) > 1e-4)


TESTS = [
    Test("outputs", cases, body, quick=200, thorough=3500),
    Test("static", static_cases, static_body, quick=60, thorough=1000),
]
