"""C23: figures: drawings of bodies and membranes, limit points, files of plots."""

import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from pbt import cm, gen, ref
from pbt.core import Test, check
from pbt.props.c05 import make_body

RULE = (
    "Generated 2D bodies with generated boundary parts, displacements, surface loads (depending on "
    "position and time), scalar fields and drawing options, read back from the drawn artists; "
    "membranes on the unit square with generated sections and viewing limits; generated sets of "
    "limit points (up to 2500, several per time); names, formats and directories of saved plots. "
    "Non-trivial: the state is deformed, or there are at least two limit points."
)
ASSUMPTIONS = [
    "figures are read back through matplotlib: segments and offsets of collections, quivers, "
    "vertices of contour sets, data and limits of axes, not pixels",
    "membrane plots show the unit square, so only membranes on it are generated",
]
SHARDS = 4


def prepare():
    import matplotlib

    matplotlib.use("Agg")
    matplotlib.rcParams["figure.max_open_warning"] = 0
    matplotlib.rcParams["figure.figsize"] = (1.6, 1.2)


# --------------------------------------------------------------------------- reading figures


def segments_of(axes, color):
    """All drawn segments of a colour, as a set of pairs of rounded points."""
    from matplotlib.collections import LineCollection
    from matplotlib.colors import to_rgba

    found = set()
    for artist in axes.collections:
        if not isinstance(artist, LineCollection):
            continue
        colors = np.atleast_2d(artist.get_edgecolor())
        for k, segment in enumerate(artist.get_segments()):
            if np.allclose(colors[k % len(colors)], to_rgba(color), atol=1e-6):
                found.add(pair(segment[0], segment[-1]))
    return found


def pair(a, b):
    return tuple(sorted((point(a), point(b))))


def point(a):
    return tuple(float(round(float(c), 7)) + 0.0 for c in a)


def edges_of(elements):
    return {
        tuple(sorted((int(e[a]), int(e[b])))) for e in elements for a, b in ((0, 1), (0, 2), (1, 2))
    }


def located(edges, nodes):
    return {pair(nodes[a], nodes[b]) for a, b in edges}


def differ(got, expected, what):
    check(
        nearly(got, expected),
        lambda: f"{what}: drawn {sorted(got - expected)[:3]} too much, "
        f"{sorted(expected - got)[:3]} missing ({len(got)} drawn, {len(expected)} expected)",
    )


def nearly(got, expected):
    if got == expected:
        return True
    if len(got) != len(expected):
        return False
    # rounding may part equal points: sort and compare with a tolerance
    a = np.array(sorted(got), dtype=float).reshape(len(got), -1)
    b = np.array(sorted(expected), dtype=float).reshape(len(expected), -1)
    left = [*b]
    for row in a:
        for k, other in enumerate(left):
            if np.abs(row - other).max() < 1e-6:
                del left[k]
                break
        else:
            return False
    return True


def arrows_of(axes):
    """Rows [x, y, u / scale, v / scale] of every quiver."""
    from matplotlib.quiver import Quiver

    result = []
    for artist in axes.collections:
        if isinstance(artist, Quiver):
            columns = (artist.X, artist.Y, artist.U, artist.V)
            rows = np.stack([np.ravel(np.ma.getdata(c)).astype(float) for c in columns], axis=1)
            rows[:, 2:] /= float(artist.scale)
            result.append(rows)
    return result


def same_rows(got, expected, what):
    got, expected = np.asarray(got, float), np.asarray(expected, float)
    check(
        got.shape == expected.shape, lambda: f"{what}: {len(got)} drawn, {len(expected)} expected"
    )
    left = [*expected]
    for row in got:
        match = [k for k, other in enumerate(left) if np.abs(row - other).max() < 1e-6]
        check(match, lambda: f"{what}: {row} is drawn, expected are {expected[:6].tolist()}")
        del left[match[0]]


# -------------------------------------------------------------------------------- 2D bodies


@st.composite
def body_cases(draw):
    mesh = draw(
        st.one_of(gen.affine(gen.mesh2d(max_cells=3), 2), gen.fan(), gen.affine(gen.simplex(2), 2))
    )
    with_field = draw(st.booleans())
    size = len(mesh["nodes"])
    return {
        "mesh": mesh,
        "contact": draw(gen.predicate(2)),
        "dirichlet": draw(gen.predicate(2)),
        "gradient": [[draw(gen.floats(-0.3, 0.3, 2)) for _ in range(2)] for _ in range(2)],
        "shift": [draw(gen.floats(-2, 2, 1)) for _ in range(2)],
        "bumps": [
            [draw(gen.floats(-1, 1, 2)) for _ in range(2)] for _ in range(draw(st.integers(1, 5)))
        ],
        "time": draw(gen.floats(0, 3, 2)),
        "field": (
            [draw(gen.floats(-2, 2, 2)) for _ in range(min(size, draw(st.integers(2, 6))))]
            if with_field
            else None
        ),
        "named": draw(st.booleans()),
        "limits": draw(
            st.one_of(
                st.none(), st.tuples(gen.floats(-3, 0, 1), gen.floats(0.5, 3, 1)).map(list)
            )
        ),
        "colorbar": draw(st.booleans()),
        "colorful": draw(st.sampled_from([True, True, False])),
        "foundation": draw(st.booleans()),
        "force": {
            "c": [draw(gen.floats(-2, 2, 1)) for _ in range(2)],
            "a": [[draw(gen.floats(-1, 1, 1)) for _ in range(2)] for _ in range(2)],
            "t": [draw(gen.floats(-1, 2, 1)), 0.0],
        },
        "scale": draw(st.sampled_from([0, 1, 2.5, 10])),
        "given_axes": draw(st.booleans()),
        "title": draw(st.sampled_from([None, "state"])),
        "view": draw(
            st.one_of(
                st.just([None] * 4), st.just([-5.0, 6.0, -7.0, 8.0]), st.just([None, 9.0, None, 9.5])
            )
        ),
        "labels": draw(st.sampled_from([None, ["x [m]", "y [m]"]])),
    }


def displacement_of(case, nodes):
    gradient, shift = np.array(case["gradient"]), np.array(case["shift"])
    bumps = np.array(case["bumps"])[np.arange(len(nodes)) % len(case["bumps"])]
    elements = np.array(case["mesh"]["elements"])
    raw = np.array(case["mesh"]["nodes"], dtype=float)
    heights = []
    for tri in raw[elements]:
        sides = [np.linalg.norm(tri[a] - tri[b]) for a, b in ((0, 1), (0, 2), (1, 2))]
        (x1, y1), (x2, y2) = tri[1] - tri[0], tri[2] - tri[0]
        heights.append(abs(x1 * y2 - x2 * y1) / max(sides))
    return nodes @ gradient.T + shift + 0.1 * min(heights) * bumps


def body_body(case, ctx):
    import matplotlib.pyplot as plt

    try:
        draw_body(case, ctx, plt)
    finally:
        plt.close("all")


def draw_body(case, ctx, plt):
    from conmech.helpers.config import Config
    from conmech.plotting.drawer import Drawer
    from conmech.properties.body_properties import ElasticProperties
    from conmech.state.state import TemperatureState

    raw = np.array(case["mesh"]["nodes"], dtype=float)
    is_contact = gen.make_predicate(case["contact"], raw)
    is_dirichlet = gen.make_predicate(case["dirichlet"], raw)
    mesh = cm.make_mesh(case["mesh"], contact=is_contact, dirichlet=is_dirichlet)
    _, groups, *_ = cm.classes(mesh, is_contact, is_dirichlet)
    nodes = np.array(mesh.nodes, dtype=float)
    elements = np.array(mesh.elements)
    owner = make_body(mesh, ElasticProperties(mass_density=1.0, mu=1.0, lambda_=1.0))
    force = cm.field(case["force"])
    owner.dynamics.force.outer.source = force
    owner.dynamics.force.outer.node_source(mesh.nodes, 77.0)  # an earlier integration
    state = TemperatureState(owner)
    displacement = displacement_of(case, nodes)
    state.set_displacement(displacement.T.ravel().copy(), time=case["time"])
    moved = nodes + displacement
    drawer = Drawer(state=state, config=Config(show=False))
    drawer.colorful = case["colorful"]
    drawer.outer_forces_scale = case["scale"]
    drawer.outer_forces_size = 1
    drawer.x_min, drawer.x_max, drawer.y_min, drawer.y_max = case["view"]
    drawer.original_mesh_color, drawer.deformed_mesh_color = "orange", "purple"
    if case["labels"]:
        drawer.xlabel, drawer.ylabel = case["labels"]
    values = None
    if case["field"]:
        values = np.array(case["field"])[np.arange(len(nodes)) % len(case["field"])]
        values = values + 0.01 * np.arange(len(nodes))
        if case["named"]:
            state.set_temperature(values.copy())
            drawer.field_name = "temperature"
        else:
            drawer.field = values.copy()
            drawer.field_label = "values"
    v_min, v_max = case["limits"] or (None, None)
    given = plt.subplots() if case["given_axes"] else None
    other = plt.figure() if case["given_axes"] else None  # not the one to draw in
    fig, axes = drawer.do_draw(
        fig_axes=given,
        field_min=v_min,
        field_max=v_max,
        title=case["title"],
        foundation=case["foundation"],
        colorbar=case["colorbar"],
    )
    if given:
        check(fig is given[0] and axes is given[1], "does not draw in the given axes")
        check(not other.axes, "draws in a figure which is not the given one")
    edges = edges_of(elements)
    differ(segments_of(axes, "orange"), located(edges, nodes), "original mesh")
    differ(segments_of(axes, "purple"), located(edges, moved), "deformed mesh")
    if case["colorful"]:
        for color, name in (("b", "contact"), ("r", "dirichlet"), ("g", "neumann")):
            differ(segments_of(axes, color), located(groups[name], moved), f"{name} boundary")
    else:
        everything = {f for faces in groups.values() for f in faces}
        differ(segments_of(axes, "black"), located(everything, moved), "boundary")
    verify_arrows(case, axes, groups, moved, nodes, force)
    verify_view(case, axes, np.vstack((nodes, moved)))
    if case["title"] is not None:
        check(axes.get_title() == case["title"], f"the title of the axes is {axes.get_title()!r}")
    if values is not None:
        verify_field(case, fig, axes, values, moved, elements)
    ctx.label(
        "field" if case["field"] else "no field",
        "colorful" if case["colorful"] else "dirichlet arrows",
        "forces" if case["scale"] and groups["neumann"] else "no forces",
    )
    ctx.nontrivial(np.abs(displacement).max() > 1e-3)


def verify_arrows(case, axes, groups, moved, nodes, force):
    expected = []
    if not case["colorful"] and groups["dirichlet"]:
        chosen = sorted({n for face in groups["dirichlet"] for n in face})
        expected.append(
            ("dirichlet nodes", [[*moved[n], 1 / 10, 0.0] for n in chosen])
        )
    if case["scale"] and groups["neumann"]:
        chosen = sorted({n for face in groups["neumann"] for n in face})
        rows = [[*moved[n], *(force(nodes[n], case["time"]) / case["scale"])] for n in chosen]
        expected.append(("surface forces", rows))
    got = arrows_of(axes)
    check(
        len(got) == len(expected),
        f"{len(got)} sets of arrows, expected {[name for name, _ in expected]}",
    )
    for rows, (name, wanted) in zip(got, expected):
        same_rows(rows, wanted, f"arrows of {name}")


def verify_view(case, axes, points):
    (x0, x1), (y0, y1) = axes.get_xlim(), axes.get_ylim()
    low, high = points.min(axis=0), points.max(axis=0)
    wanted = np.array([low[0], high[0], low[1], high[1]])
    given = [v is not None for v in case["view"]]
    wanted[given] = np.array(case["view"], dtype=float)[given]
    if wanted[0] >= wanted[1] or wanted[2] >= wanted[3]:  # given limits leave nothing to show
        return
    got = np.array([x0, x1, y0, y1], dtype=float)
    sign = np.array([-1, 1, -1, 1])
    scale = np.abs(wanted).max()
    check(
        bool(np.all(sign * (got - wanted) > -1e-9 * scale)),
        lambda: f"the view {got} does not show all of {wanted}",
    )
    spread = np.array([wanted[1] - wanted[0]] * 2 + [wanted[3] - wanted[2]] * 2)
    check(
        bool(np.all(sign * (got - wanted) <= 0.5 * spread + 1e-9 * scale)),
        lambda: f"the view {got} is far from {wanted}",
    )
    check(axes.get_aspect() in (1, 1.0, "equal"), f"aspect {axes.get_aspect()}")
    if case["labels"]:
        labels = [axes.get_xlabel(), axes.get_ylabel()]
        check(labels == case["labels"], f"labels {labels}, expected {case['labels']}")


def interpolate(points, values, nodes, elements):
    """P1 values at points of the (moved) mesh; nan outside."""
    result = np.full(len(points), np.nan)
    best = np.full(len(points), -np.inf)
    for element in elements:
        matrix = np.vstack((nodes[element].T, np.ones(3)))
        weights = np.linalg.solve(matrix, np.vstack((points.T, np.ones(len(points)))))
        inside = weights.min(axis=0)
        better = (inside > best) & (inside > -1e-6)
        result[better] = (values[element] @ weights)[better]
        best[better] = inside[better]
    return result


def verify_field(case, fig, axes, values, moved, elements):
    from matplotlib.tri import TriContourSet

    sets = [a for a in axes.collections if isinstance(a, TriContourSet)]
    check(len(sets) == 2, f"{len(sets)} contour sets")
    spread = values.max() - values.min()
    tolerance = 1e-6 * (1 + np.abs(values).max())
    seen = []
    for contour in sets:
        levels = np.asarray(contour.levels, dtype=float)
        paths = contour.get_paths()
        for k, path in enumerate(paths):
            vertices = np.asarray(path.vertices)
            if not len(vertices):
                continue
            if len(vertices) > 40:
                vertices = vertices[:: len(vertices) // 40]
            got = interpolate(vertices, values, moved, elements)
            check(not np.any(np.isnan(got)), "the field is drawn outside the deformed body")
            low, high = (levels[k], levels[k + 1]) if contour.filled else (levels[k], levels[k])
            check(
                bool(np.all(got > low - tolerance) and np.all(got < high + tolerance)),
                lambda: f"the field is {got.min()} to {got.max()} where {low} to {high} is drawn",
            )
        if contour.filled:
            seen.append(contour)
            check(
                levels.min() <= values.min() + tolerance
                and levels.max() >= values.max() - tolerance,
                f"levels {levels.min()} to {levels.max()} of a field {values.min()} to "
                f"{values.max()}",
            )
            if spread > 0.1:
                check(len(levels) > 40, f"only {len(levels)} layers")
    check(len(seen) == 1, "the field is not filled")
    if case["limits"]:
        got = [seen[0].norm.vmin, seen[0].norm.vmax]
        check(np.allclose(got, case["limits"]), f"colours span {got}, not {case['limits']}")
    bars = [a for a in fig.axes if a is not axes]
    check(len(bars) == int(case["colorbar"]), f"{len(bars)} colour bars")
    if bars:
        # of horizontal or vertical bars, the axis of values is the one with a label
        bar = bars[0]
        label = "temperature" if case["named"] else "values"
        labels = [bar.get_xlabel(), bar.get_ylabel()]
        check(label in labels, f"the colour bar is labelled {labels}, not {label!r}")
        limits = bar.get_xlim() if labels[0] == label else bar.get_ylim()
        wanted = case["limits"] or [seen[0].norm.vmin, seen[0].norm.vmax]
        check(
            np.allclose(limits, wanted, atol=1e-9),
            f"the colour bar spans {limits}, the colours {wanted}",
        )


# --------------------------------------------------------------------------------- membranes


@st.composite
def membrane_cases(draw):
    mesh = draw(gen.mesh2d(max_cells=3, holes=False, scale=False))
    size = np.max(np.array(mesh["nodes"]), axis=0)
    mesh["nodes"] = (np.array(mesh["nodes"]) / size).tolist()
    states = draw(st.integers(1, 5))
    return {
        "mesh": mesh,
        "fields": [
            [draw(gen.floats(-1, 1, 2)) for _ in range(draw(st.integers(2, 6)))]
            for _ in range(states)
        ],
        "in3d": draw(st.sampled_from([False, False, True])),
        "x": draw(st.one_of(gen.floats(0, 1, 2), st.sampled_from([0.0, 0.5, 1.0]))),
        "z": draw(st.sampled_from([[-2.0, 2.0], [-1.5, 3.0]])),
        "field": draw(st.sampled_from(["displacement", "velocity"])),
        "single": draw(st.sampled_from([False, False, True])),
    }


def membrane_body(case, ctx):
    import matplotlib.pyplot as plt

    try:
        draw_membrane(case, ctx, plt)
    finally:
        plt.close("all")


def draw_membrane(case, ctx, plt):
    from conmech.plotting import membrane
    from conmech.properties.body_properties import MembraneProperties
    from conmech.state.state import State

    mesh = cm.make_mesh(case["mesh"], contact=lambda x: x[0] == 1, dirichlet=lambda x: x[0] == 0)
    owner = make_body(mesh, MembraneProperties(mass_density=1.0, propagation=1.0))
    nodes, elements = np.array(mesh.nodes, dtype=float), np.array(mesh.elements)
    states, heights, speeds = [], [], []
    for k, values in enumerate(case["fields"]):
        state = State(owner)
        height = np.array(values)[np.arange(len(nodes)) % len(values)]
        speed = np.cos(3.0 * height + k)
        twin = np.stack((speed, np.full(len(nodes), 7.0)))
        state.set_velocity(twin.ravel().copy(), time=0.0, update_displacement=False)
        twin = np.stack((height, np.full(len(nodes), -7.0)))
        state.set_displacement(twin.ravel().copy(), time=0.5 * (k + 1))
        states.append(state)
        heights.append(height)
        speeds.append(speed)
    colors = heights if case["field"] == "displacement" else speeds
    kwargs = {
        "field": case["field"],
        "vmin": -1.0,
        "vmax": 1.0,
        "zmin": case["z"][0],
        "zmax": case["z"][1],
        "in3d": case["in3d"],
        "x": case["x"],
    }
    if case["single"]:
        kwargs["in3d"] = True
        membrane.plot(states[0], **kwargs)
        states = states[:1]
    else:
        membrane.plot_in_columns(states, title="membranes", finish=False, **kwargs)
    fig = plt.gcf()
    if kwargs["in3d"]:
        axes = [a for a in fig.axes if a.name == "3d"]
    else:
        axes = fig.axes
    check(len(axes) == len(states), f"{len(axes)} plots of {len(states)} states")
    places = {tuple(np.round(a.get_position().bounds, 4)) for a in axes}
    check(len(places) == len(axes), "plots cover each other")
    for k, axis in enumerate(axes):
        if kwargs["in3d"]:
            verify_surface(case, axis, heights[k], colors[k], nodes, elements)
        else:
            verify_section(case, axis, heights[k], nodes, elements)
    ctx.label("3D" if kwargs["in3d"] else "sections", f"{len(states)} states")
    ctx.nontrivial(any(np.ptp(h) > 1e-3 for h in heights))


def verify_section(case, axis, height, nodes, elements):
    check(len(axis.lines) == 1, f"{len(axis.lines)} curves in one plot")
    y, z = (np.ma.getdata(d).astype(float) for d in axis.lines[0].get_data())
    masked = np.ma.getmaskarray(np.ma.asarray(axis.lines[0].get_ydata()))
    check(len(y) >= 20 and abs(y[0]) < 1e-9 and abs(y[-1] - 1) < 1e-9, f"curve over {y[[0, -1]]}")
    exact = interpolate(np.stack((np.full(len(y), case["x"]), y), axis=1), height, nodes, elements)
    inside = np.arange(1, len(y) - 1)
    if 0 < case["x"] < 1:
        check(not np.any(masked[inside]), "gaps in the section")
    keep = ~masked & ~np.isnan(z)
    error = np.abs(z - exact)[keep].max(initial=0.0)
    check(error < 1e-7, lambda: f"the curve is off the membrane by {error}")
    check(np.allclose(axis.get_ylim(), case["z"]), f"limits {axis.get_ylim()}, not {case['z']}")


def verify_surface(case, axis, height, color, nodes, elements):
    import matplotlib.pyplot as plt
    from mpl_toolkits.mplot3d.art3d import Line3D, Poly3DCollection

    check(np.allclose(axis.get_zlim(), case["z"]), f"limits {axis.get_zlim()}, not {case['z']}")
    surfaces = [c for c in axis.collections if isinstance(c, Poly3DCollection)]
    check(len(surfaces) == 1, f"{len(surfaces)} surfaces")
    x, y, z, _ = np.asarray(surfaces[0]._vec, dtype=float)
    points = np.stack((x, y), axis=1)
    step = max(1, len(points) // 400)
    chosen = np.arange(0, len(points), step)
    off_side = (np.abs(points - 0.5) < 0.5 - 1e-9).all(axis=1)
    chosen = chosen[off_side[chosen]]
    exact = interpolate(points[chosen], height, nodes, elements)
    error = np.abs(z[chosen] - exact).max(initial=0.0)
    check(error < 1e-7, lambda: f"the surface is off the membrane by {error}")
    check(
        np.allclose([x.min(), x.max(), y.min(), y.max()], [0, 1, 0, 1]), "part of the membrane only"
    )
    # colours: of the field in the middle of each drawn triangle
    slices = surfaces[0]._segslices
    faces = surfaces[0]._facecolor3d if hasattr(surfaces[0], "_facecolor3d") else None
    if faces is not None and len(faces) == len(slices):
        some = range(0, len(slices), max(1, len(slices) // 200))
        middle = np.array([points[slices[k]].mean(axis=0) for k in some])
        expected = interpolate(middle, color, nodes, elements)
        norm = plt.Normalize(-1.0, 1.0)
        wanted = plt.get_cmap("coolwarm")(norm(expected))[:, :3]
        got = np.array([faces[k][:3] for k in some])
        check(np.abs(got - wanted).max() < 0.02, "the surface is not coloured by the field")
    lines = [line for line in axis.lines if isinstance(line, Line3D)]
    check(len(lines) == 1, f"{len(lines)} curves around the membrane")
    bx, by, bz = (np.ma.getdata(d).astype(float) for d in lines[0].get_data_3d())
    keep = ~np.isnan(bz)
    around = np.stack((bx, by), axis=1)[keep]
    on_edge = np.abs(np.abs(around - 0.5).max(axis=1) - 0.5)
    check(on_edge.max(initial=0.0) < 1e-9, "the curve leaves the edge of the membrane")


# ------------------------------------------------------------------------------ limit points


@st.composite
def limit_cases(draw):
    steps = draw(st.sampled_from([0, 1, 3, 30, 400, 999, 1000, 1001, 1300]))
    pattern = draw(st.lists(st.integers(0, 4), min_size=1, max_size=6))
    return {
        "steps": steps,
        "dt": draw(st.sampled_from([0.001, 0.01, 0.5])),
        "counts": pattern,
        "burst": draw(st.sampled_from([0, 0, 120, 1500])),
        "values": [draw(gen.floats(0, 1, 3)) for _ in range(draw(st.integers(1, 4)))],
        "label": draw(st.sampled_from([None, "limit points"])),
        "title": draw(st.sampled_from([None, "title"])),
        "ylim": draw(st.sampled_from([None, [0.0, 1.5], [0.2, 0.8]])),
        "color": draw(st.sampled_from(["black", "red"])),
    }


def limit_body(case, ctx):
    import matplotlib.pyplot as plt
    from matplotlib.colors import to_rgba

    from conmech.plotting.membrane import plot_limit_points
    from conmech.state.products.intersection_contact_limit_points import (
        VerticalIntersectionContactLimitPoints,
    )

    product = VerticalIntersectionContactLimitPoints(0.5, 0.1)
    expected = []
    for k in range(case["steps"]):
        count = case["counts"][k % len(case["counts"])]
        if case["burst"] and k == case["steps"] // 2:
            count = case["burst"]
        zeros = [(case["values"][i % len(case["values"])] + 0.0003 * i + 0.1 * k) % 1 for i in range(count)]
        time = (k + 1) * case["dt"]
        product.data[time] = zeros
        expected.extend((time, z) for z in zeros)
    kwargs = {} if case["ylim"] is None else {"ylim": tuple(case["ylim"])}
    try:
        plt.figure()
        plot_limit_points(
            product,
            color=case["color"],
            title=case["title"],
            label=case["label"],
            finish=False,
            **kwargs,
        )
        axes = plt.gca()
        found = [np.asarray(c.get_offsets(), dtype=float) for c in axes.collections]
        got = np.vstack([np.zeros((0, 2)), *found])
        wanted = np.array(expected, dtype=float).reshape(-1, 2)
        check(len(got) == len(wanted), f"{len(got)} points are drawn, there are {len(wanted)}")
        order = np.lexsort(got.T[::-1]), np.lexsort(wanted.T[::-1])
        check(
            np.allclose(got[order[0]], wanted[order[1]], atol=1e-12), "the points are misplaced"
        )
        labels = [c.get_label() for c in axes.collections if not c.get_label().startswith("_")]
        check(
            labels == ([case["label"]] if case["label"] and len(wanted) else []),
            f"labels {labels}: the legend needs one entry",
        )
        for collection in axes.collections:
            check(
                np.allclose(collection.get_facecolor(), to_rgba(case["color"])), "another colour"
            )
        check(
            np.allclose(axes.get_ylim(), case["ylim"] or [0, 1]), f"limits are {axes.get_ylim()}"
        )
        check(axes.get_title() == (case["title"] or ""), f"the title is {axes.get_title()!r}")
    finally:
        plt.close("all")
    ctx.label(f"{len(expected) // 1000} thousands")
    ctx.nontrivial(len(expected) >= 2)


# ------------------------------------------------------------------------------------- files


@st.composite
def file_cases(draw):
    name = st.sampled_from(["plot", "a b", "t=0.5", "3", True])
    return {
        "saves": [
            [draw(name), draw(st.sampled_from(["png", "pdf", "svg"]))]
            for _ in range(draw(st.integers(1, 2)))
        ],
        "output_dir": draw(st.sampled_from([None, "run", "deep/er"])),
        "nested": draw(st.booleans()),
        "existing": draw(st.booleans()),
        "field": draw(st.booleans()),
        "bump": draw(gen.floats(0.1, 0.5, 2)),
    }


MAGIC = {"png": b"\x89PNG", "pdf": b"%PDF", "svg": b"<?xml"}


def file_body(case, ctx):
    import matplotlib.pyplot as plt

    root = tempfile.mkdtemp(prefix="pbt-plots-")
    dpi = plt.savefig
    try:
        plt.savefig = lambda *args, **kwargs: dpi(*args, **{**kwargs, "dpi": 40})
        save_plots(case, ctx, plt, root)
    finally:
        plt.savefig = dpi
        plt.close("all")
        shutil.rmtree(root, ignore_errors=True)


def save_plots(case, ctx, plt, root):
    from conmech.helpers.config import Config
    from conmech.plotting.drawer import Drawer
    from conmech.properties.body_properties import ElasticProperties
    from conmech.state.state import TemperatureState

    outputs = os.path.join(root, "a", "b") if case["nested"] else root
    config = Config(show=False, save=True, outputs_path=outputs, output_dir=case["output_dir"])
    folder = os.path.join(outputs, case["output_dir"] or str(config.timestamp))
    if case["existing"]:
        os.makedirs(folder)
        with open(os.path.join(folder, "kept"), "w", encoding="utf8") as file:
            file.write("kept")
    check(config.init() is config, "init does not return the configuration")
    check(os.path.isdir(folder), f"init does not create {folder}")
    check(os.path.abspath(config.path) == os.path.abspath(folder), f"path is {config.path}")
    try:
        Config(show=True, save=True, outputs_path=os.path.join(root, "both")).init()
        raised = False
    except ValueError:
        raised = True
    check(raised, "showing and saving at once is not refused")
    check(not os.path.exists(os.path.join(root, "both")), "a refused configuration left a folder")
    mesh = cm.make_mesh(
        {"nodes": [[0.0, 0.0], [1.0, 0.0], [1.0, 1.0], [0.0, 1.0]], "elements": [[0, 1, 2], [0, 2, 3]]},
        contact=lambda x: x[1] == 0,
        dirichlet=lambda x: x[0] == 0,
    )
    owner = make_body(mesh, ElasticProperties(mass_density=1.0, mu=1.0, lambda_=1.0))
    state = TemperatureState(owner)
    state.set_displacement(np.linspace(0, case["bump"], 8), time=0.5)
    state.set_temperature(np.arange(4.0))
    before = set(os.listdir(folder))
    named, anonymous = set(), 0
    for name, format_ in case["saves"]:
        drawer = Drawer(state=state, config=config)
        if case["field"]:
            drawer.field_name = "temperature"
        drawer.draw(show=False, save=name, save_format=format_, title="saved")
        if name is True:
            anonymous += 1
        else:
            named.add(f"{name}.{format_}")
        check(not plt.get_fignums(), "a saved figure stays open")
    files = set(os.listdir(folder)) - before
    check(named <= files, f"files {sorted(files)}, expected {sorted(named)}")
    rest = files - named
    check(len(rest) == anonymous, f"files {sorted(rest)} of {anonymous} plots without a name")
    for file in files:
        format_ = file.rsplit(".", 1)[-1]
        with open(os.path.join(folder, file), "rb") as stream:
            check(stream.read(8).startswith(MAGIC[format_]), f"{file} is not a {format_} file")
    if case["existing"]:
        check(os.path.exists(os.path.join(folder, "kept")), "init removed a file")
    # nothing is drawn or written unless asked for
    Drawer(state=state, config=config).draw(show=False, save=False)
    check(set(os.listdir(folder)) - before == files, "a plot is saved although not asked for")
    Drawer(state=state, config=config).draw(show=True, save=False, title="shown")
    check(set(os.listdir(folder)) - before == files, "a shown plot is saved")
    check(len(plt.get_fignums()) == 1, f"{len(plt.get_fignums())} figures are shown")
    ctx.label(*(f for _, f in case["saves"]), "named" if named else "not named")
    ctx.nontrivial()


TESTS = [
    Test("bodies", body_cases, body_body, quick=160, thorough=2500),
    Test("membranes", membrane_cases, membrane_body, quick=40, thorough=400),
    Test("limits", limit_cases, limit_body, quick=60, thorough=600),
    Test("files", file_cases, file_body, quick=24, thorough=300),
]
