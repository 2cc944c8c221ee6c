"""C22: a state is consistent after any history of updates, and copies are independent."""

import numpy as np
from hypothesis import strategies as st

from pbt import cm, gen, model
from pbt.core import Test, check
from pbt.props.c05 import make_body

RULE = (
    "Generated 2D and 3D bodies, the three kinds of state, and histories of up to 10 operations "
    "(set displacement / velocity with and without integration, set temperature / potential, "
    "copy and go on with the copy or the original, read the stress), against a model of the "
    "state; stresses of states returned by simulations. Non-trivial: at least 3 operations which "
    "change the state."
)
ASSUMPTIONS = ["vectors given to a state are not changed by the caller afterwards"]
SHARDS = 4
KINDS = ("plain", "temperature", "piezo")


def prepare():
    cm.speed_up()


@st.composite
def cases(draw):
    dim = draw(st.sampled_from([2, 2, 3]))
    mesh = draw(gen.mesh2d(max_cells=2) if dim == 2 else gen.mesh3d(max_cells=1))
    values = st.lists(gen.floats(-2, 2, 2), min_size=1, max_size=6)
    ops = []
    for _ in range(draw(st.integers(1, 10))):
        op = draw(
            st.sampled_from(
                ["displacement", "displacement", "velocity", "velocity", "scalar", "copy", "stress"]
            )
        )
        if op in ("displacement", "velocity"):
            ops.append([op, draw(values), draw(st.booleans()), draw(gen.floats(0, 0.5, 2))])
        elif op == "scalar":
            ops.append([op, draw(values)])
        elif op == "copy":
            ops.append([op, draw(st.booleans())])
        else:
            ops.append([op])
    return {
        "dim": dim,
        "mesh": mesh,
        "kind": draw(st.sampled_from(KINDS)),
        "ops": ops,
        "shape": draw(st.sampled_from(["flat", "rows"])),
    }


class Model:
    def __init__(self, nodes):
        self.nodes = nodes
        self.u, self.v, self.b = (np.zeros_like(nodes) for _ in range(3))
        self.scalar = np.zeros(len(nodes))
        self.time = 0.0

    def copy(self):
        other = Model(self.nodes)
        other.u, other.v, other.b = self.u.copy(), self.v.copy(), self.b.copy()
        other.scalar, other.time = self.scalar.copy(), self.time
        return other


def fill(values, count):
    return np.array(values)[np.arange(count) % len(values)] + 0.01 * np.arange(count)


def tensor(u, v, b, time, elements, nodes):
    """A stress which depends on everything, d x d per element."""
    d = nodes.shape[1]
    base = (u + 2 * v + 3 * b)[elements].mean(axis=1) + nodes[elements].mean(axis=1) + time
    return base[:, :, None] * np.arange(1, d + 1)[None, None, :] + 0.5


def verify(state, expected, kind, what):
    pairs = {
        "displacement": (state.displacement, expected.u),
        "velocity": (state.velocity, expected.v),
        "absement": (state.absement, expected.b),
        "displaced nodes": (state.displaced_nodes, expected.nodes + expected.u),
        "state['displacement']": (state["displacement"], expected.u),
        "state['velocity']": (state["velocity"], expected.v),
        "state[0]": (state[0], expected.u),
        "state[1]": (state[1], expected.v),
    }
    if kind == "temperature":
        pairs["temperature"] = (state.temperature, expected.scalar)
        pairs["state['temperature']"] = (state["temperature"], expected.scalar)
    if kind == "piezo":
        pairs["electric potential"] = (state.electric_potential, expected.scalar)
    for name, (got, value) in pairs.items():
        check(
            cm.close(got, value, 1e-10, 1e-10),
            lambda: f"{what}: {name} is off by {cm.distance(got, value)}",
        )
    check(abs(state.time - expected.time) < 1e-12, lambda: f"{what}: time {state.time}")


def body(case, ctx):
    from conmech.properties.body_properties import ElasticProperties
    from conmech.state import state as module

    mesh = cm.make_mesh(case["mesh"], contact=lambda x: False, dirichlet=lambda x: x[0] == 0)
    owner = make_body(mesh, ElasticProperties(mass_density=1.0, mu=1.0, lambda_=1.0))
    cls = {
        "plain": module.State,
        "temperature": module.TemperatureState,
        "piezo": module.PiezoelectricState,
    }[case["kind"]]
    nodes = np.array(mesh.nodes, dtype=float)
    elements = np.array(mesh.elements)
    n, dim = nodes.shape
    marker = object()

    def law(*, velocity, displacement, absement, setup, elements, nodes, time):
        check(setup is marker, "the constitutive law got another setup")
        return tensor(
            np.array(displacement), np.array(velocity), np.array(absement), time, elements, nodes
        )

    state, expected = cls(owner), Model(nodes)
    state.constitutive_law, state.setup = law, marker
    verify(state, expected, case["kind"], "new state")
    kept = []  # states left behind, with what they must look like
    changes = 0
    for k, op in enumerate(case["ops"]):
        what = f"operation {k + 1} ({op[0]})"
        if op[0] in ("displacement", "velocity"):
            _, values, integrate, dt = op
            field = fill(values, n * dim).reshape(n, dim)
            vector = field.T.ravel().copy()
            if case["shape"] == "rows":
                vector = vector.reshape(dim, n)
            time = expected.time + dt
            changes += 1
            if op[0] == "displacement":
                state.set_displacement(vector, time, update_absement=integrate)
                expected.u = field
                if integrate:
                    expected.b = expected.b + dt * field
            else:
                state.set_velocity(vector, time, update_displacement=integrate)
                expected.v = field
                if integrate:
                    expected.u = expected.u + dt * field
            expected.time = time
        elif op[0] == "scalar":
            if case["kind"] == "plain":
                continue
            expected.scalar = fill(op[1], n)
            changes += 1
            if case["kind"] == "temperature":
                state.set_temperature(expected.scalar.copy())
            else:
                state.set_electric_potential(expected.scalar.copy())
        elif op[0] == "copy":
            twin = state.copy()
            check(type(twin) is cls, f"{what}: copy is {type(twin)}")
            verify(twin, expected, case["kind"], f"{what}, the copy")
            if op[1]:
                kept.append((state, expected))
                state, expected = twin, expected.copy()
                state.constitutive_law, state.setup = law, marker
            else:
                kept.append((twin, expected.copy()))
        else:
            stress = tensor(expected.u, expected.v, expected.b, expected.time, elements, nodes)
            got = {
                "stress": (state.stress, stress),
                "stress_norm": (
                    state.stress_norm,
                    np.sqrt((stress**2).sum(axis=(1, 2))),
                ),
                "stress_x": (state.stress_x, stress[:, 0, 0]),
                "stress_y": (state.stress_y, stress[:, 1, 1]),
            }
            for name, (value, exact) in got.items():
                check(
                    cm.close(value, exact, 1e-9, 1e-9),
                    lambda: f"{what}: {name} is off by {cm.distance(value, exact)}",
                )
        verify(state, expected, case["kind"], what)
        for number, (other, model_) in enumerate(kept):
            verify(other, model_, case["kind"], f"{what}: state {number} left behind")
    for item in (2, "stress", "unknown", -1):
        try:
            state[item]  # pylint: disable=pointless-statement
        except ValueError:
            continue
        check(False, f"state[{item!r}] does not fail")
    check(np.array_equal(mesh.nodes, nodes), "the mesh was moved together with the state")
    ctx.label(f"{dim}D", case["kind"], *{op[0] for op in case["ops"]})
    ctx.nontrivial(changes >= 3)


# ---------------------------------------------------------------- states of simulations


@st.composite
def history_cases(draw):
    return draw(model.history_case(draw(st.sampled_from(model.KINDS)), steps=4))


def history_body(case, ctx):
    simulation = model.Simulation(case)
    steps = case["steps"]
    nodes = np.array(simulation.solver.body.mesh.nodes, dtype=float)
    elements = np.array(simulation.solver.body.mesh.elements)

    def law(*, velocity, displacement, absement, setup, elements, nodes, time):
        return tensor(displacement, velocity, absement, time, elements, nodes)

    states = simulation.solve(steps, output_step=tuple(range(1, steps + 1)))
    for k, state in enumerate(states):
        check(
            cm.close(state.displaced_nodes, nodes + state.displacement, 1e-10, 1e-10),
            f"step {k + 1}: displaced nodes are not nodes + displacement",
        )
        state.constitutive_law, state.setup = law, simulation.problem
    for k, state in enumerate(states):
        stress = tensor(
            state.displacement, state.velocity, state.absement, (k + 1) * case["dt"], elements, nodes
        )
        check(cm.close(state.stress, stress, 1e-8, 1e-8), f"step {k + 1}: stress")
    check(np.array_equal(simulation.solver.body.mesh.nodes, nodes), "the mesh was moved")
    ctx.label(case["kind"])
    ctx.nontrivial(steps >= 2 and np.linalg.norm(states[-1].displacement) > 1e-4)


TESTS = [
    Test("operations", cases, body, quick=300, thorough=6000),
    Test("simulations", history_cases, history_body, quick=60, thorough=1000),
]
