"""C21: products: quantities recorded at every step of a simulation."""

import numpy as np
from hypothesis import strategies as st

from pbt import cm, gen, model
from pbt.core import Test, check
from pbt.props.c05 import make_body

RULE = (
    "Generated membranes with generated nodal fields, sections x = const (inside, on grid lines, "
    "on the sides) and obstacle levels; simulations of every kind which records products, with "
    "generated output steps; generated histories of updates, copies and ranges. Non-trivial: the "
    "section has a crossing of the level, or the product has at least two entries."
)
ASSUMPTIONS = [
    "sections of bodies without holes, not rotated; products differ in name (2 digits of x)",
    "crossings closer to each other or to the ends than 1.5 sampling steps are not required",
]
SHARDS = 4


def prepare():
    cm.speed_up()


# ------------------------------------------------------------------- sections of membranes


class Section:
    """The exact restriction of a P1 function to the line x = level."""

    def __init__(self, nodes, elements, values, level):
        points = {}
        for element in elements:
            for a in range(3):
                i, j = element[a], element[(a + 1) % 3]
                (xi, yi), (xj, yj) = nodes[i], nodes[j]
                if xi == level:
                    points[float(yi)] = float(values[i])
                if xj == level:
                    points[float(yj)] = float(values[j])
                if (xi - level) * (xj - level) < 0:
                    s = (level - xi) / (xj - xi)
                    points[float(yi + s * (yj - yi))] = float(values[i] + s * (values[j] - values[i]))
        self.y = np.array(sorted(points))
        self.u = np.array([points[y] for y in self.y])

    def __call__(self, y):
        return np.interp(y, self.y, self.u)

    def crossings(self, level):
        """Points where the section passes the level with a sign change."""
        result = []
        d = self.u - level
        for k in range(len(d) - 1):
            if d[k] * d[k + 1] < 0:
                s = d[k] / (d[k] - d[k + 1])
                result.append(self.y[k] + s * (self.y[k + 1] - self.y[k]))
        return np.array(result), d


@st.composite
def section_cases(draw):
    mesh = draw(gen.mesh2d(max_cells=3, holes=False))
    width = max(n[0] for n in mesh["nodes"])
    grid = sorted({n[0] for n in mesh["nodes"]})
    level = draw(
        st.one_of(
            gen.floats(0.05, 0.95, 3).map(lambda f: f * width), st.sampled_from(grid)
        )
    )
    return {
        "mesh": mesh,
        "level": level,
        "second": draw(gen.floats(0.05, 0.95, 3)) * width,
        "obstacle": draw(gen.floats(-0.5, 0.5, 3)),
        "fields": [
            [draw(gen.floats(-1, 1, 3)) for _ in range(draw(st.integers(2, 7)))]
            for _ in range(draw(st.integers(1, 3)))
        ],
        "dt": draw(gen.floats(0.01, 0.5, 2)),
        "dirichlet": draw(st.booleans()),
    }


def section_body(case, ctx):
    from conmech.properties.body_properties import MembraneProperties
    from conmech.state.products.intersection_contact_limit_points import (
        VerticalIntersectionContactLimitPoints,
    )
    from conmech.state.products.verticalintersection import VerticalIntersection
    from conmech.state.state import State

    dirichlet = (lambda x: x[0] == 0) if case["dirichlet"] else (lambda x: False)
    mesh = cm.make_mesh(case["mesh"], contact=lambda x: False, dirichlet=dirichlet)
    state = State(make_body(mesh, MembraneProperties(mass_density=1.0, propagation=1.0)))
    nodes, elements = np.asarray(mesh.nodes, dtype=float), np.asarray(mesh.elements)
    levels = [case["level"]]
    if f"{case['second']:.2f}" != f"{case['level']:.2f}":
        levels.append(case["second"])
    lines = [VerticalIntersection(x) for x in levels]
    limits = [VerticalIntersectionContactLimitPoints(x, case["obstacle"]) for x in levels]
    for product in (*lines, *limits):
        state.inject_product(product)
    bottom, top = nodes[:, 1].min(), nodes[:, 1].max()
    step = 0.5 / len(nodes)
    expected = []
    for k, values in enumerate(case["fields"]):
        field = np.zeros((len(nodes), 2))
        field[:, 0] = np.array(values)[np.arange(len(nodes)) % len(values)]
        field[:, 1] = 5.0  # the second component is not of interest
        if k % 2:
            state.set_displacement(field.T.ravel().copy(), time=(k + 1) * case["dt"])
        else:
            state.set_velocity(
                ((field - state.displacement) / case["dt"]).T.ravel().copy(),
                time=(k + 1) * case["dt"],
                update_displacement=True,
            )
        expected.append((state.time, field[:, 0].copy()))
    crossed = 0
    for level, line, limit in zip(levels, lines, limits):
        for product in (line, limit):
            check(
                list(product.data) == [time for time, _ in expected],
                f"{product.name}: entries at {list(product.data)}, updates at "
                f"{[t for t, _ in expected]}",
            )
        for time, values in expected:
            section = Section(nodes, elements, values, level)
            y, u = line.data[time]
            y = np.asarray(y, dtype=float)
            if len(y):
                check(
                    abs(y[0] - bottom) < 1e-9
                    and (len(y) == 1 or abs(y[-1] - top) < 1e-9)
                    and np.all(np.diff(y) > 0),
                    f"{line.name}: sampled from {y[0]} to {y[-1]}, body from {bottom} to {top}",
                )
                keep = ~np.ma.getmaskarray(np.ma.asarray(u))
                inside = (y > bottom + 1e-9) & (y < top - 1e-9)
                check(bool(np.all(keep[inside])), f"{line.name}: samples inside are masked")
                error = np.abs(np.ma.getdata(u)[keep] - section(y[keep])).max(initial=0.0)
                check(error < 1e-7, f"{line.name}: sampled values are off by {error}")
            crossed += verify_limits(limit, time, section, case["obstacle"], step)
    ctx.label("crossing" if crossed else "no crossing", f"{len(levels)} sections")
    if any(abs(x - case["level"]) < 1e-12 for x in nodes[:, 0]):
        ctx.label("section through nodes")
    ctx.nontrivial(crossed > 0)


def verify_limits(limit, time, section, obstacle, step):
    found = np.array([float(z) for z in limit.data[time]])
    for zero in found:
        check(
            abs(section(zero) - obstacle) < 1e-6,
            f"{limit.name}: at {zero} the membrane is at {section(zero)}, obstacle at {obstacle}",
        )
    check(bool(np.all(np.diff(found) > -1e-12)), f"{limit.name}: {found} is not sorted")
    exact, d = section.crossings(obstacle)
    if np.any(np.abs(d) < 1e-9):
        return 0  # touches the obstacle at a breakpoint: any count is fine
    ends = np.concatenate(([section.y[0]], exact, [section.y[-1]]))
    required = 0
    for k, zero in enumerate(exact):
        if zero - ends[k] > 1.5 * step and ends[k + 2] - zero > 1.5 * step:
            required += 1
            hits = int(np.sum(np.abs(found - zero) < 1e-6))
            check(hits == 1, f"{limit.name}: limit point {zero} reported {hits} times in {found}")
    check(len(found) <= len(exact), f"{limit.name}: {found}, the exact ones are {exact}")
    return required


# --------------------------------------------------------------------------- in simulations


@st.composite
def history_cases(draw):
    kind = draw(
        st.sampled_from(
            ["quasistatic", "dynamic", "relaxation", "wave", "temperature", "piezo", "dynamic piezo"]
        )
    )
    case = draw(model.history_case(kind, steps=5))
    case["frame"] = {"angle": 0.0, "mirror": False, "shift": [0.0, 0.0]}
    steps = case["steps"]
    case["output"] = sorted(
        draw(st.lists(st.integers(1, steps), min_size=1, max_size=3, unique=True))
    )
    case["level"] = draw(gen.floats(0.1, 0.9, 2))
    return case


def history_body(case, ctx):
    from conmech.state.products.penetration import Penetration
    from conmech.state.products.verticalintersection import VerticalIntersection

    simulation = model.Simulation(case)
    width = simulation.setup.frame.size[0]
    steps, dt = case["steps"], case["dt"]
    every = simulation.solve(steps, output_step=tuple(range(1, steps + 1)))
    mine = [Penetration(), VerticalIntersection(case["level"] * width)]
    states = simulation.solve(steps, output_step=tuple(case["output"]), products=mine)
    contact = list(simulation.setup.contact_nodes)
    nodes = np.asarray(simulation.solver.body.mesh.nodes, dtype=float)
    names = [product.name for product in mine]
    recorded = [*zip(case["output"], states)]
    for until, state in recorded:
        check(set(state.products) == set(names), f"products {set(state.products)}, not {names}")
        data = state.products["penetration"].data
        check(
            np.allclose(list(data), [dt * (k + 1) for k in range(until)], atol=1e-9)
            and len(data) == until,
            f"state of step {until} has penetration at {list(data)}",
        )
        for k, value in enumerate(data.values()):
            moved = nodes[:, 1] + every[k].displacement[:, 1]
            expected = moved[contact].min() if contact else 0.0
            check(
                abs(value - expected) < 1e-7,
                f"penetration in step {k + 1}: {value}, not {expected}",
            )
        check(
            len(state.products[names[1]].data) == until,
            f"{names[1]}: {len(state.products[names[1]].data)} entries after {until} steps",
        )
    last = case["output"][-1]
    check(len(mine[0].data) == last, f"given product has {len(mine[0].data)} entries, not {last}")
    # snapshots do not share data
    states[0].products["penetration"].data.clear()
    for until, state in recorded[1:]:
        check(len(state.products["penetration"].data) == until, "snapshots share their products")
    ctx.label(case["kind"], "contact nodes" if contact else "no contact nodes")
    ctx.nontrivial(last >= 2 and contact)


# ---------------------------------------------------------------------------- copy and range


@st.composite
def range_cases(draw):
    times = sorted(draw(st.lists(st.integers(0, 40), unique=True, max_size=12)))
    ends = st.one_of(st.integers(-5, 45), st.sampled_from(times or [3]))
    return {
        "dt": draw(st.sampled_from([0.25, 0.5, 0.1, 1.0])),
        "times": times,
        "ranges": [[draw(ends), draw(ends)] for _ in range(draw(st.integers(1, 3)))],
        "chain": draw(st.booleans()),
        "kind": draw(st.sampled_from(["penetration", "section", "limits"])),
    }


class Still:
    """A state with nothing but a time and heights of three contact nodes."""

    def __init__(self, time):
        from conmech.state.state import State

        mesh = cm.make_mesh(
            {
                "nodes": [[0.0, 0.0], [1.0, 0.0], [1.0, 1.0], [0.0, 1.0]],
                "elements": [[0, 1, 2], [0, 2, 3]],
            },
            contact=lambda x: x[1] == 0,
            dirichlet=lambda x: False,
        )
        from conmech.properties.body_properties import MembraneProperties

        body = make_body(mesh, MembraneProperties(mass_density=1.0, propagation=1.0))
        self.state = State(body)
        self.move(time)

    def move(self, time):
        field = np.zeros((2, 4))
        field[:] = np.sin(time)
        self.state.set_displacement(field.ravel(), time=time)
        return self.state


def range_body(case, ctx):
    from conmech.state.products.intersection_contact_limit_points import (
        VerticalIntersectionContactLimitPoints,
    )
    from conmech.state.products.penetration import Penetration
    from conmech.state.products.verticalintersection import VerticalIntersection

    product = {
        "penetration": Penetration,
        "section": lambda: VerticalIntersection(0.5),
        "limits": lambda: VerticalIntersectionContactLimitPoints(0.5, 0.1),
    }[case["kind"]]()
    still = Still(0.0)
    times = [k * case["dt"] for k in case["times"]]
    for time in times:
        product.update(still.move(time))
    check(list(product.data) == times, f"entries at {list(product.data)}, updated at {times}")
    source = product
    for low, high in case["ranges"]:
        start, stop = low * case["dt"], high * case["dt"]
        kept = dict(source.data)
        part = source.range(start, stop)
        expected = [t for t in kept if start < t <= stop]
        check(
            list(part.data) == expected,
            f"range({start}, {stop}) has {list(part.data)} of {list(kept)}",
        )
        check(
            all(part.data[t] is kept[t] or np.all(part.data[t] == kept[t]) for t in expected),
            "range changed the values",
        )
        check(list(source.data) == list(kept), "range changed the product itself")
        check(part.name == product.name, f"range is named {part.name}")
        if case["chain"]:
            source = part
    # a copy goes on, on its own
    twin = product.copy()
    later = still.move(1e3)
    twin.update(later)
    check(list(product.data) == times, "updating a copy changed the original")
    check(list(twin.data) == [*times, 1e3], f"copy has entries at {list(twin.data)}")
    ctx.label(case["kind"], "chained" if case["chain"] else "separate")
    ctx.nontrivial(len(times) >= 2)


TESTS = [
    Test("sections", section_cases, section_body, quick=240, thorough=4000),
    Test("histories", history_cases, history_body, quick=80, thorough=1500),
    Test("ranges", range_cases, range_body, quick=120, thorough=2000),
]
