"""
Generators of meshes, boundary descriptions and scalars.  Every case is plain JSON data.

Meshes are built by construction (never by rejection), conforming, with non-degenerate simplices:
grids of cells with a choice of split per cell, holes and notches (dropped cells), jittered inner
nodes, affine distortion, shuffled numbering of nodes and of vertices within elements.
"""

import itertools

import numpy as np
from hypothesis import strategies as st


def floats(low, high, digits=4):
    """Floats on a decimal grid: readable when shrunk, and no denormal surprises."""
    scale = 10**digits
    return st.integers(int(round(low * scale)), int(round(high * scale))).map(lambda i: i / scale)


def nonzero(low, high, digits=4):
    return st.tuples(floats(low, high, digits), st.booleans()).map(lambda t: -t[0] if t[1] else t[0])


# ------------------------------------------------------------------------------- raw meshes


def _grid2d(nx, ny, pattern):
    """Unit cells; pattern per cell: 0 '/', 1 '\\', 2 cross.  Returns nodes, elements, cell of each."""
    nodes = [(float(i), float(j)) for j in range(ny + 1) for i in range(nx + 1)]
    elements, owner = [], []

    def idx(i, j):
        return j * (nx + 1) + i

    for j in range(ny):
        for i in range(nx):
            cell = j * nx + i
            a, b, c, d = idx(i, j), idx(i + 1, j), idx(i + 1, j + 1), idx(i, j + 1)
            kind = pattern[cell % len(pattern)]
            if kind == 0:
                new = [(a, b, c), (a, c, d)]
            elif kind == 1:
                new = [(a, b, d), (b, c, d)]
            else:
                m = len(nodes)
                nodes.append((i + 0.5, j + 0.5))
                new = [(a, b, m), (b, c, m), (c, d, m), (d, a, m)]
            elements.extend(new)
            owner.extend([cell] * len(new))
    return nodes, elements, owner


def _connected(cells, neighbours):
    cells = set(cells)
    if not cells:
        return False
    stack, seen = [next(iter(sorted(cells)))], set()
    while stack:
        cell = stack.pop()
        if cell in seen:
            continue
        seen.add(cell)
        stack.extend(n for n in neighbours(cell) if n in cells)
    return seen == cells


def boundary_nodes_of(elements):
    count = {}
    for element in elements:
        for face in itertools.combinations(sorted(element), len(element) - 1):
            count[face] = count.get(face, 0) + 1
    return {n for face, c in count.items() if c == 1 for n in face}


@st.composite
def mesh2d(
    draw,
    max_cells=4,
    jitter=True,
    holes=True,
    shuffle=True,
    scale=True,
    min_cells=1,
    unused=False,
    pinch=False,
):
    """
    A conforming triangulation {"nodes", "elements", "size": [w, h]} of a grid-like domain with
    lower left corner in (0, 0).  Boundary nodes stay on grid lines, so that predicates such as
    ``x[0] == 0`` select exactly the nodes on that line.
    """
    nx = draw(st.integers(min_cells, max_cells))
    ny = draw(st.integers(min_cells, max_cells))
    pattern = draw(st.lists(st.sampled_from([0, 1, 2]), min_size=1, max_size=min(6, nx * ny)))
    nodes, elements, owner = _grid2d(nx, ny, pattern)
    cells = set(range(nx * ny))

    def neighbours(cell):
        i, j = cell % nx, cell // nx
        for k, l in ((i + 1, j), (i - 1, j), (i, j + 1), (i, j - 1)):
            if 0 <= k < nx and 0 <= l < ny:
                yield l * nx + k

    if holes and nx * ny > 2:
        for cell in draw(st.lists(st.integers(0, nx * ny - 1), max_size=nx * ny // 3)):
            rest = cells - {cell}
            if pinch and rest or _connected(rest, neighbours) and _no_pinch(rest, nx, ny):
                cells = rest
    elements = [e for e, o in zip(elements, owner) if o in cells]
    return _finish(draw, nodes, elements, jitter, shuffle, scale, unused)


def _no_pinch(cells, nx, ny):
    """No vertex whose cells touch only diagonally."""
    for i in range(1, nx):
        for j in range(1, ny):
            around = [
                (j + dj) * nx + i + di in cells for dj, di in ((-1, -1), (-1, 0), (0, 0), (0, -1))
            ]
            if around in ([True, False, True, False], [False, True, False, True]):
                return False
    return True


def _finish(draw, nodes, elements, jitter, shuffle, scale, unused):
    dim = len(nodes[0])
    used = sorted({n for e in elements for n in e})
    extra = []
    if unused:
        extra = draw(
            st.lists(st.lists(floats(-1, 3, 2), min_size=dim, max_size=dim), max_size=3)
        )
    position = {old: new for new, old in enumerate(used)}
    nodes = np.array([nodes[n] for n in used])
    elements = [[position[n] for n in e] for e in elements]
    if jitter:
        inner = sorted(set(range(len(nodes))) - boundary_nodes_of(elements))
        bound = 0.12 if dim == 2 else 0.08
        for node in inner[:12]:
            for axis in range(dim):
                nodes[node, axis] += draw(floats(-bound, bound, 3))
    nodes = nodes - nodes.min(axis=0)
    if scale:
        nodes = nodes * np.array([draw(floats(0.3, 1.5, 2)) for _ in range(dim)])
    n_total = len(nodes) + len(extra)
    nodes = np.vstack((nodes, np.array(extra).reshape(-1, dim))) if extra else nodes
    if shuffle:
        order = draw(st.permutations(list(range(n_total))))
        where = {old: new for new, old in enumerate(order)}
        nodes = nodes[list(order)]
        turn = draw(st.integers(0, 23))
        flips = list(itertools.permutations(range(dim + 1)))
        elements = [
            [where[e[k]] for k in flips[(turn * (i + 1)) % len(flips)]]
            for i, e in enumerate(elements)
        ]
        if draw(st.booleans()):
            elements = elements[::-1]
    return {
        "nodes": [[float(c) for c in n] for n in nodes],
        "elements": [[int(n) for n in e] for e in elements],
    }


_KUHN = [
    [(0, 0, 0), *steps]
    for steps in (
        [(1, 0, 0), (1, 1, 0), (1, 1, 1)],
        [(1, 0, 0), (1, 0, 1), (1, 1, 1)],
        [(0, 1, 0), (1, 1, 0), (1, 1, 1)],
        [(0, 1, 0), (0, 1, 1), (1, 1, 1)],
        [(0, 0, 1), (1, 0, 1), (1, 1, 1)],
        [(0, 0, 1), (0, 1, 1), (1, 1, 1)],
    )
]


@st.composite
def mesh3d(
    draw, max_cells=2, jitter=True, holes=True, shuffle=True, scale=True, unused=False, centred=True
):
    """Conforming tetrahedral meshes: Kuhn split of a grid of cubes, or cubes with a centre node."""
    nx, ny, nz = (draw(st.integers(1, max_cells)) for _ in range(3))
    cells = {(i, j, k) for i in range(nx) for j in range(ny) for k in range(nz)}

    def neighbours(cell):
        for axis in range(3):
            for step in (-1, 1):
                other = list(cell)
                other[axis] += step
                yield tuple(other)

    if holes and len(cells) > 2:
        for cell in draw(st.lists(st.sampled_from(sorted(cells)), max_size=len(cells) // 3)):
            rest = cells - {cell}
            if _connected(rest, neighbours) and _no_pinch3d(rest):
                cells = rest
    nodes, index = [], {}

    def node(point):
        if point not in index:
            index[point] = len(nodes)
            nodes.append(tuple(float(c) for c in point))
        return index[point]

    star = centred and draw(st.booleans())
    elements = []
    for cell in sorted(cells):
        corners = [
            [tuple(c + d for c, d in zip(cell, offset)) for offset in tet] for tet in _KUHN
        ]
        if not star:
            elements.extend([node(p) for p in tet] for tet in corners)
        else:
            # boundary faces of the Kuhn split of this cube joined with its centre
            count = {}
            for tet in corners:
                for face in itertools.combinations(sorted(tet), 3):
                    count[face] = count.get(face, 0) + 1
            centre = node(tuple(c + 0.5 for c in cell))
            for face in sorted(f for f, c in count.items() if c == 1):
                elements.append([node(p) for p in face] + [centre])
    return _finish(draw, nodes, elements, jitter, shuffle, scale, unused)


def _no_pinch3d(cells):
    """Every grid edge and vertex is surrounded by face-connected cells only."""
    cells = set(cells)
    points = {tuple(c + d for c, d in zip(cell, off)) for cell in cells for off in _OFFSETS}
    for point in points:
        around = {
            tuple(p - d for p, d in zip(point, off))
            for off in _OFFSETS
            if tuple(p - d for p, d in zip(point, off)) in cells
        }

        def near(cell, around=around):
            for axis in range(3):
                for step in (-1, 1):
                    other = list(cell)
                    other[axis] += step
                    if tuple(other) in around:
                        yield tuple(other)

        if not _connected(around, near):
            return False
    return True


_OFFSETS = list(itertools.product((0, 1), repeat=3))


def fan(n_max=8):
    """A star-shaped polygon: centre joined with n >= 3 vertices at generated radii."""

    @st.composite
    def build(draw):
        n = draw(st.integers(3, n_max))
        radii = [draw(floats(0.4, 1.6, 2)) for _ in range(n)]
        nodes = [[0.0, 0.0]]
        for k in range(n):
            angle = 2 * np.pi * k / n
            nodes.append([round(radii[k] * np.cos(angle), 4), round(radii[k] * np.sin(angle), 4)])
        elements = [[0, 1 + k, 1 + (k + 1) % n] for k in range(n)]
        order = draw(st.permutations(list(range(n + 1))))
        where = {old: new for new, old in enumerate(order)}
        return {
            "nodes": [nodes[o] for o in order],
            "elements": [[where[v] for v in e] for e in elements],
        }

    return build()


def simplex(dim):
    """One well-shaped simplex in general position."""

    @st.composite
    def build(draw):
        base = np.vstack((np.zeros(dim), np.eye(dim)))
        nodes = base + np.array(
            [[draw(floats(-0.15, 0.15, 2)) for _ in range(dim)] for _ in range(dim + 1)]
        )
        nodes = nodes * draw(floats(0.3, 3, 2))
        nodes = nodes + np.array([draw(floats(-2, 2, 2)) for _ in range(dim)])
        order = draw(st.permutations(list(range(dim + 1))))
        return {"nodes": nodes.tolist(), "elements": [list(order)]}

    return build()


def affine(mesh, dim):
    """The mesh under a generated rotation / shear / reflection / shift (still conforming)."""

    @st.composite
    def build(draw):
        base = draw(mesh)
        if not draw(st.booleans()):
            return base
        matrix = np.eye(dim)
        for _ in range(2):
            i, j = draw(st.permutations(list(range(dim))))[:2]
            shear = np.eye(dim)
            shear[i, j] = draw(floats(-0.6, 0.6, 2))
            matrix = matrix @ shear
        if draw(st.booleans()):
            matrix = matrix @ np.diag([-1.0] + [1.0] * (dim - 1))
        shift = np.array([draw(floats(-3, 3, 2)) for _ in range(dim)])
        unit = draw(st.sampled_from([1.0, 1.0, 1.0, 1.0, 1e-3, 1e3]))
        nodes = (np.array(base["nodes"]) @ matrix.T + shift) * unit
        return {"nodes": nodes.tolist(), "elements": base["elements"]}

    return build()


def large(dim, least=None, most=None):
    """
    Meshes of hundreds of nodes (more than an 8-bit index holds): grids of cells split at random,
    with holes, jittered inner nodes, shuffled nodes and vertices; drawn from a seed.
    """
    least, most = least or (8 if dim == 2 else 3), most or (22 if dim == 2 else 6)

    @st.composite
    def build(draw):
        counts = [draw(st.integers(least, most)) for _ in range(dim)]
        holes = draw(st.booleans())
        rng = np.random.default_rng(draw(st.integers(0, 10**6)))
        if dim == 2:
            nx, ny = counts
            nodes, elements, owner = _grid2d(nx, ny, rng.integers(0, 3, nx * ny).tolist())
            # cells away from each other and from the outline
            missing = {
                j * nx + i
                for i in range(1, nx - 1, 2)
                for j in range(1, ny - 1, 2)
                if holes and rng.random() < 0.15
            }
            elements = [e for e, o in zip(elements, owner) if o not in missing]
        else:
            nodes, index, elements = [], {}, []
            for cell in np.ndindex(*counts):
                if holes and all(c % 2 for c in cell) and rng.random() < 0.3:
                    if all(c < k - 1 for c, k in zip(cell, counts)):
                        continue
                for tet in _KUHN:
                    element = []
                    for offset in tet:
                        point = tuple(float(c + o) for c, o in zip(cell, offset))
                        if point not in index:
                            index[point] = len(nodes)
                            nodes.append(point)
                        element.append(index[point])
                    elements.append(element)
        nodes, elements = np.array(nodes), np.array(elements)
        inner = sorted(set(range(len(nodes))) - boundary_nodes_of(elements.tolist()))
        bound = 0.12 if dim == 2 else 0.08
        nodes[inner] += np.round(rng.uniform(-bound, bound, (len(inner), dim)), 3)
        nodes = nodes * np.array([draw(floats(0.3, 1.5, 2)) for _ in range(dim)])
        order = rng.permutation(len(nodes))
        where = np.argsort(order)
        nodes, elements = nodes[order], rng.permuted(where[elements], axis=1)
        elements = elements[rng.permutation(len(elements))]
        return {"nodes": nodes.tolist(), "elements": elements.tolist()}

    return build()


# ------------------------------------------------------------------------------ predicates


def predicate(dim):
    """JSON description of a subset of space; see make_predicate."""
    leaf = st.one_of(
        st.tuples(st.just("eq"), st.integers(0, dim - 1), st.sampled_from(["min", "max"])),
        st.tuples(
            st.just("le"), st.integers(0, dim - 1), floats(0, 1, 2)
        ),  # fraction of the extent
        st.tuples(st.just("ge"), st.integers(0, dim - 1), floats(0, 1, 2)),
        st.tuples(st.just("ball"), st.lists(floats(0, 1, 1), min_size=dim, max_size=dim), floats(0.1, 1, 1)),
        st.just(("all",)),
        st.just(("none",)),
    )
    node = st.one_of(
        leaf,
        leaf,
        st.tuples(st.sampled_from(["and", "or"]), leaf, leaf),
        st.tuples(st.just("not"), leaf),
    )
    return node.map(_listify)


def _listify(value):
    return [_listify(v) for v in value] if isinstance(value, (list, tuple)) else value


def make_predicate(spec, nodes):
    nodes = np.asarray(nodes, dtype=float)
    low, high = nodes.min(axis=0), nodes.max(axis=0)
    size = np.where(high > low, high - low, 1.0)
    kind = spec[0]
    if kind == "all":
        return lambda x: True
    if kind == "none":
        return lambda x: False
    if kind == "eq":
        axis = spec[1]
        value = low[axis] if spec[2] == "min" else high[axis]
        return lambda x: bool(x[axis] == value)
    if kind == "le":
        axis, value = spec[1], low[spec[1]] + spec[2] * size[spec[1]]
        return lambda x: bool(x[axis] <= value)
    if kind == "ge":
        axis, value = spec[1], low[spec[1]] + spec[2] * size[spec[1]]
        return lambda x: bool(x[axis] >= value)
    if kind == "ball":
        centre = low + np.asarray(spec[1]) * size
        radius = spec[2] * float(np.max(size))
        return lambda x: bool(np.sum((np.asarray(x) - centre) ** 2) <= radius**2)
    if kind == "and":
        a, b = make_predicate(spec[1], nodes), make_predicate(spec[2], nodes)
        return lambda x: a(x) and b(x)
    if kind == "or":
        a, b = make_predicate(spec[1], nodes), make_predicate(spec[2], nodes)
        return lambda x: a(x) or b(x)
    if kind == "not":
        a = make_predicate(spec[1], nodes)
        return lambda x: not a(x)
    raise ValueError(kind)
