"""C24: solutions converge to those of the continuous problem."""

import itertools

import numpy as np
from hypothesis import strategies as st

from pbt import cm, gen, laws, model
from pbt.core import Test, check

RULE = (
    "Manufactured polynomial solutions (in space and time) of the continuous problem with "
    "generated coefficients: static (on an elastic bed or not, 2D and 3D, also with prescribed "
    "boundary values), quasistatic, dynamic, relaxation, thermo-mechanical, electro-mechanical, "
    "wave and Poisson problems; forces, tractions and prescribed values derived from the solution. "
    "Each is solved on a generated mesh (or the mesh of a description) and on its refinement, the "
    "time step is refined accordingly. Non-trivial: the discretisation error is visible (the "
    "solution is not in the finite element space)."
)
ASSUMPTIONS = [
    "rectangles and boxes, prescribed parts contain all edges where surface loads would jump",
    "heat and charge equations have no sources, so the coupled solutions depend on one coordinate",
]
SHARDS = 4


def prepare():
    cm.speed_up()


# ------------------------------------------------------------------------------- polynomials


class Poly:
    """Polynomial in x, y, z, t: exponents -> coefficient."""

    def __init__(self, terms=None):
        self.terms = {k: float(v) for k, v in (terms or {}).items() if v}

    @staticmethod
    def const(value):
        return Poly({(0, 0, 0, 0): value})

    @staticmethod
    def var(axis):
        return Poly({tuple(int(i == axis) for i in range(4)): 1.0})

    def __add__(self, other):
        other = other if isinstance(other, Poly) else Poly.const(other)
        result = dict(self.terms)
        for k, v in other.terms.items():
            result[k] = result.get(k, 0.0) + v
        return Poly(result)

    __radd__ = __add__

    def __neg__(self):
        return self * -1.0

    def __sub__(self, other):
        return self + (-other)

    def __rsub__(self, other):
        return (-self) + other

    def __mul__(self, other):
        if not isinstance(other, Poly):
            return Poly({k: v * other for k, v in self.terms.items()})
        result = {}
        for (a, v), (b, w) in itertools.product(self.terms.items(), other.terms.items()):
            key = tuple(i + j for i, j in zip(a, b))
            result[key] = result.get(key, 0.0) + v * w
        return Poly(result)

    __rmul__ = __mul__

    def d(self, axis):
        result = {}
        for k, v in self.terms.items():
            if k[axis]:
                key = tuple(e - (i == axis) for i, e in enumerate(k))
                result[key] = result.get(key, 0.0) + v * k[axis]
        return Poly(result)

    def integral(self, axis):
        """The antiderivative which vanishes at 0."""
        return Poly(
            {
                tuple(e + (i == axis) for i, e in enumerate(k)): v / (k[axis] + 1)
                for k, v in self.terms.items()
            }
        )

    def at(self, axis, value):
        result = {}
        for k, v in self.terms.items():
            key = tuple(0 if i == axis else e for i, e in enumerate(k))
            result[key] = result.get(key, 0.0) + v * value ** k[axis]
        return Poly(result)

    def __call__(self, x, t=0.0):
        x = np.atleast_2d(np.asarray(x, dtype=float))
        columns = [x[:, i] if i < x.shape[1] else np.zeros(len(x)) for i in range(3)]
        columns.append(np.full(len(x), float(t)))
        result = np.zeros(len(x))
        for k, v in self.terms.items():
            part = np.full(len(x), v)
            for c, e in zip(columns, k):
                if e:
                    part = part * c**e
            result += part
        return result


X, Y, Z, T = (Poly.var(i) for i in range(4))


def spatial(coefficients, dim):
    """Polynomial of degree 2 (1 in 3D)."""
    variables = [X, Y, Z][:dim]
    monomials = [Poly.const(1.0), *variables]
    if dim == 2:
        monomials += [X * X, X * Y, Y * Y]
    return sum((c * m for c, m in zip(coefficients, monomials)), Poly())


# -------------------------------------------------------------------------------- operators


def elastic(u, mu, lam, dim=2):
    """The stress of isotropic elasticity (dim x dim polynomials)."""
    trace = sum((u[i].d(i) for i in range(dim)), Poly())
    return [
        [
            mu * (u[i].d(j) + u[j].d(i)) + (lam * trace if i == j else Poly())
            for j in range(dim)
        ]
        for i in range(dim)
    ]


def plus(a, b):
    return [[p + q for p, q in zip(r, s)] for r, s in zip(a, b)]


def divergence(stress):
    return [
        sum((stress[i][j].d(j) for j in range(len(stress))), Poly()) for i in range(len(stress))
    ]


def vector(polys):
    return lambda x, t=None: np.array([p(x, t or 0.0)[0] for p in polys])


def traction(stress, height):
    """Stress times outer normal on the sides across the last coordinate."""
    last = len(stress) - 1

    def f(x, t=None):
        sign = 1.0 if x[last] > height / 2 else -1.0
        return np.array([sign * stress[i][last](x, t or 0.0)[0] for i in range(len(stress))])

    return f


# ------------------------------------------------------------------------------------ meshes


def refine(mesh):
    """Every triangle is split into four."""
    nodes = [tuple(n) for n in mesh["nodes"]]
    middle, elements = {}, []

    def mid(a, b):
        key = (min(a, b), max(a, b))
        if key not in middle:
            middle[key] = len(nodes)
            nodes.append(tuple((p + q) / 2 for p, q in zip(nodes[a], nodes[b])))
        return middle[key]

    for a, b, c in mesh["elements"]:
        ab, bc, ca = mid(a, b), mid(b, c), mid(c, a)
        elements += [[a, ab, ca], [ab, b, bc], [ca, bc, c], [ab, bc, ca]]
    return {"nodes": [list(n) for n in nodes], "elements": elements}


def box(n, size):
    """Kuhn split of a grid of n cubes in each direction."""
    index, nodes, elements = {}, [], []

    def node(point):
        if point not in index:
            index[point] = len(nodes)
            nodes.append([size[i] * point[i] / n for i in range(3)])
        return index[point]

    for cell in itertools.product(range(n), repeat=3):
        for order in itertools.permutations(range(3)):
            corner = list(cell)
            element = [node(tuple(corner))]
            for axis in order:
                corner[axis] += 1
                element.append(node(tuple(corner)))
            elements.append(element)
    return {"nodes": nodes, "elements": elements}


def descriptions(case):
    """Coarse and fine mesh."""
    from conmech.properties.mesh_description import CrossMeshDescription

    if case["dim"] == 3:
        return [cm.mesh_description(box(n, case["size"])) for n in case["cells"]]
    if case["cells"] is not None:
        return [
            CrossMeshDescription(
                initial_position=None,
                max_element_perimeter=side * 1.000001,
                scale=case["size"],
            )
            for side in case["cells"]
        ]
    coarse = case["mesh"]
    for _ in range(case["refine"]):
        coarse = refine(coarse)
    return [cm.mesh_description(coarse), cm.mesh_description(refine(coarse))]


def l2_error(mesh, values, exact, time):
    """L2 norms of error and of solution (degree 2 quadrature on four parts of each element)."""
    nodes, elements = np.asarray(mesh.nodes, dtype=float), np.asarray(mesh.elements, dtype=int)
    dim = nodes.shape[1]
    weights = [np.full(dim + 1, 1.0 / (dim + 1))]
    for i, j in itertools.combinations(range(dim + 1), 2):
        w = np.zeros(dim + 1)
        w[[i, j]] = 0.5
        weights.append(w)
    for i in range(dim + 1):
        weights.append(np.full(dim + 1, 0.4 / dim))
        weights[-1][i] = 0.6
    corner = nodes[elements]
    volume = np.abs(np.linalg.det(corner[:, 1:] - corner[:, :1]))
    error = norm = 0.0
    for w in weights:
        points = np.einsum("v,evd->ed", w, corner)
        for k, poly in enumerate(exact):
            true = poly(points, time)
            approx = values[elements, k] @ w
            error += float(volume @ (true - approx) ** 2)
            norm += float(volume @ true**2)
    return np.sqrt(error), np.sqrt(norm)


# ------------------------------------------------------------------------------------- cases

KINDS = [
    "static",
    "bed",
    "quasistatic",
    "dynamic",
    "relaxation",
    "temperature",
    "piezo",
    "dynamic piezo",
    "wave",
    "poisson",
]


def coefs(draw, count, low=-2, high=2):
    values = [draw(gen.floats(low, high, 1)) for _ in range(count)]
    if not any(values):
        values[0] = 1.0
    return values


@st.composite
def cases(draw, kinds, dim=2):
    kind = draw(st.sampled_from(kinds))
    size = [draw(gen.floats(0.6, 1.6, 1)) for _ in range(dim)]
    case = {
        "kind": kind,
        "dim": dim,
        "size": size,
        "cells": None,
        "mu": draw(gen.floats(1, 6, 1)),
        "lam": draw(gen.floats(0.5, 6, 1)),
        "th": draw(gen.floats(0.2, 4, 1)),
        "ze": draw(gen.floats(0.2, 4, 1)),
        "fields": [coefs(draw, 6 if dim == 2 else 4) for _ in range(dim)],
        "edge": coefs(draw, 3) if draw(st.booleans()) else None,
        "profile": [draw(gen.floats(0.5, 1, 1)), draw(gen.floats(-0.5, 1, 1))],
        "method": "schur",
    }
    if dim == 3:
        case["cells"] = [3, 6] if kind == "static" else [4, 8]
    elif draw(st.integers(0, 3)) == 0:
        side = draw(st.sampled_from([0.2, 0.25, 0.5]))
        case["cells"] = [side, side / 2]
        case["size"] = size = [side * draw(st.integers(3, 5)) for _ in range(2)]
    else:
        mesh = draw(gen.mesh2d(max_cells=2, holes=False, scale=False))
        nodes = np.array(mesh["nodes"])
        mesh["nodes"] = (nodes / nodes.max(axis=0) * np.array(size)).tolist()
        for node in mesh["nodes"]:  # exactly on the sides
            for i in range(2):
                if abs(node[i] - size[i]) < 1e-12:
                    node[i] = size[i]
        case["mesh"] = mesh
        case["refine"] = 2 if len(mesh["elements"]) <= 8 else 1
    if kind in ("static", "poisson") and dim == 2:
        case["method"] = draw(st.sampled_from(["schur", "direct"]))
    if kind == "wave":
        case["speed"] = draw(gen.floats(0.5, 2, 1))
    if kind == "relaxation":
        case["relax"] = draw(model.relaxing())
        case["relax"]["rates"] = [0.0] * 6  # polynomial in time
    if kind == "temperature":
        case["expansion"] = [
            [draw(gen.floats(0.3, 1.5, 1)), draw(gen.floats(-1, 1, 1))],
            [0.0, draw(gen.floats(-1, 1, 1))],
        ]
        case["conductivity"] = [
            [draw(gen.floats(0.2, 2, 1)), 0.0],
            [0.0, draw(gen.floats(0.2, 2, 1))],
        ]
    if "piezo" in kind:
        case["piezo"] = [
            [[draw(gen.floats(-0.8, 0.8, 1)), draw(gen.floats(-0.8, 0.8, 1))],
             [0.0, draw(gen.floats(-0.8, 0.8, 1))]]
            for _ in range(2)
        ]
        case["permittivity"] = [
            [draw(gen.floats(1, 4, 1)), draw(gen.floats(-0.5, 0.5, 1))],
            [0.0, draw(gen.floats(1, 4, 1))],
        ]
        case["potential"] = [draw(gen.floats(-2, 2, 1)), draw(gen.floats(-1, 1, 1))]
    return case


def manufacture(case):
    """The exact solution and everything that makes it one: dictionary."""
    kind, dim, size = case["kind"], case["dim"], case["size"]
    width, height = size[0], size[-1]
    mu, lam, th, ze = (case[k] for k in ("mu", "lam", "th", "ze"))
    p, q = case["profile"]
    rise = p * T + q * T * T  # from rest in the initial position
    bubble = X * (width - X)
    if dim == 3:
        bubble = bubble * Y * (size[1] - Y) * Z
    shape = [bubble * spatial(c, dim) for c in case["fields"]]
    zero = Poly()
    result = {"dirichlet": None}
    if kind == "poisson":
        u = shape[0] + spatial(case["fields"][1], dim)
        flux = [[zero] * dim for _ in range(dim)]
        flux[0] = [u.d(j) for j in range(dim)]
        result.update(
            exact=[u],
            inner=lambda x, t=None: np.array([-sum(u.d(j).d(j)(x)[0] for j in range(dim))]),
            outer=scalar_traction(u, dim, height, 1.0),
            dirichlet=lambda x: u(x),
        )
        return result
    if kind == "wave":
        c2 = case["speed"] ** 2
        u = rise * shape[0]
        source = u.d(3).d(3) - c2 * (u.d(0).d(0) + u.d(1).d(1))
        result.update(
            exact=[u], inner=vector([source]), outer=scalar_traction(u, dim, height, c2)
        )
        return result
    if kind in ("static", "bed"):
        u = shape
        if kind == "bed":
            # (lam + 2 mu) d u2 / dn = slope u2 and no shear at the bottom
            slope = laws.law("winkler")[1].density(1.0, [], 0.0, [], 0.0)[1]
            c = case["fields"]
            g = bubble * bubble * (c[0][0] + c[0][1] * X) * 4.0
            u = [
                -(Y * g.d(0)) + Y * Y * bubble * spatial(c[1][:3], 2),
                g * (1.0 + Y * (slope / (lam + 2 * mu))),
            ]
        elif case["edge"] is not None:
            edge = case["edge"][0] + case["edge"][1] * X + case["edge"][2] * (X * Y + X * X)
            u = [component + 0.3 * edge for component in u]
            result["dirichlet"] = lambda x: 0.3 * edge(x)
        stress = elastic(u, mu, lam, dim)
        inertia = [zero] * dim
    elif kind in ("quasistatic", "dynamic", "relaxation"):
        u = [rise * s for s in shape]
        if kind == "relaxation":  # starts with the equilibrium of initial loads
            u = [(1.0 + rise) * s for s in shape]
        v = [s.d(3) for s in u]
        stress = elastic(u, mu, lam)
        if kind == "relaxation":
            b = [s.integral(3) for s in u]
            c = model.relaxation(case["relax"], 0.0)
            stress = plus(
                stress,
                [
                    [
                        sum(
                            (
                                (c[i][j][j] * b[i].d(j) if i == k else zero)
                                for k in (0, 1)
                            ),
                            zero,
                        )
                        + (c[0][0][1] * b[1 - i].d(1 - i) if i == j else c[0][1][0] * b[j].d(i))
                        for j in (0, 1)
                    ]
                    for i in (0, 1)
                ],
            )
        else:
            stress = plus(stress, elastic(v, th, ze))
        inertia = [s.d(3) for s in v] if kind == "dynamic" else [zero] * 2
    else:
        u, v, second, extra = coupled(case, rise, width)
        stress = plus(plus(elastic(u, mu, lam), elastic(v, th, ze)), extra)
        density = {"temperature": 1.0, "piezo": 0.0, "dynamic piezo": 0.1}[kind]
        inertia = [density * s.d(3) for s in v]
        result["second"] = second
    body = divergence(stress)
    result.update(
        exact=list(u),
        inner=vector([m - f for m, f in zip(inertia, body)]),
        outer=traction(stress, height),
    )
    return result


def scalar_traction(u, dim, height, factor):
    last = dim - 1

    def f(x, t=None):
        sign = factor if x[last] > height / 2 else -factor
        return np.array([sign * u.d(last)(x, t or 0.0)[0]])

    return f


def coupled(case, rise, width):
    """Displacement, velocity, second field and its stress; all depend on x and t only."""
    cube = X * (width - X) * (width - 2 * X)
    c = case["fields"]
    second_shape = X * (width - X) * (c[1][0] + c[1][1] * X)
    zero = Poly()
    if case["kind"] == "temperature":
        a, b, e = case["expansion"][0][0], case["expansion"][0][1], case["expansion"][1][1]
        k = case["conductivity"][0][0]
        theta = c[0][0] * rise * cube * 3.0
        # theta_t - k theta_xx + a (v0)_x = 0
        rate = theta.d(3) - k * theta.d(0).d(0)
        v = [(-1.0 / a) * rate.integral(0), rise * second_shape]
        u = [s.integral(3) for s in v]
        extra = [[-a * theta, -b * theta], [zero, -e * theta]]
        return u, v, theta, extra
    first = X * (width - X) * (c[0][0] + c[0][1] * X)
    u = [rise * first, rise * second_shape]
    tensor, beta = case["piezo"], case["permittivity"]
    start, slope = case["potential"]
    phi = start + (slope * X + tensor[0][0][0] * u[0] + tensor[1][0][0] * u[1]) * (1 / beta[0][0])
    phi_x = phi.d(0)
    # sigma_ib += e[i]_ab d_a phi with a = 0
    extra = [[tensor[i][0][j] * phi_x for j in (0, 1)] for i in (0, 1)]
    return u, [s.d(3) for s in u], phi, extra


def values_at(polys, time=0.0):
    def f(x):
        result = np.zeros((len(x), 2))
        for k, p in enumerate(polys):
            result[:, k] = p(x, time)
        return result

    return f


def solve(case, made, description, dt, steps):
    """(mesh, nodal solution of the first field, of the second field or None)"""
    from conmech.scenarios import problems as pr
    from conmech.simulations import problem_solver as ps

    kind, size, dim = case["kind"], case["size"], case["dim"]
    width = size[0]

    def on_dirichlet(x):
        if abs(x[0]) < 1e-9 or abs(x[0] - width) < 1e-9:
            return True
        if dim == 3:
            return abs(x[1]) < 1e-9 or abs(x[1] - size[1]) < 1e-9 or abs(x[2]) < 1e-9
        return False

    bounds = {"dirichlet": on_dirichlet}
    if made["dirichlet"] is not None:
        bounds["dirichlet"] = (on_dirichlet, made["dirichlet"])
    if kind == "bed":
        bounds["contact"] = lambda x: abs(x[1]) < 1e-9 and 1e-9 < x[0] < width - 1e-9
    if "piezo" in kind:
        bounds["piezo_dirichlet"] = (on_dirichlet, made["second"])
    bounds = cm.boundaries(**bounds)
    if kind == "poisson":
        problem = cm.make_problem(
            pr.PoissonProblem,
            description,
            bounds,
            {"internal_temperature": made["inner"], "outer_temperature": made["outer"]},
        )
        solver = ps.PoissonSolver(problem, case["method"])
        state = solver.solve()
        return solver.body.mesh, np.asarray(state.temperature, float).reshape(-1, 1), None
    attributes = {"inner_forces": made["inner"], "outer_forces": made["outer"], "time_step": dt}
    if kind == "wave":
        problem = cm.make_problem(
            pr.WaveProblem, description, bounds, attributes, propagation=case["speed"]
        )
        solver = ps.WaveSolver(problem, case["method"])
    else:
        base, solver_class = {
            "static": (pr.StaticDisplacementProblem, ps.StaticSolver),
            "bed": (pr.StaticDisplacementProblem, ps.StaticSolver),
            "quasistatic": (pr.QuasistaticDisplacementProblem, ps.TimeDependentSolver),
            "dynamic": (pr.DynamicDisplacementProblem, ps.TimeDependentSolver),
            "relaxation": (pr.RelaxationQuasistaticProblem, ps.QuasistaticRelaxation),
            "temperature": (pr.TemperatureDynamicProblem, ps.TemperatureTimeDependentSolver),
            "piezo": (pr.PiezoelectricQuasistaticProblem, ps.PiezoelectricTimeDependentSolver),
            "dynamic piezo": (
                pr.PiezoelectricDynamicProblem,
                ps.PiezoelectricTimeDependentSolver,
            ),
        }[kind]
        attributes["th_coef"], attributes["ze_coef"] = case["th"], case["ze"]
        if kind == "relaxation":
            tensor = model.relaxation(case["relax"], 0.0)
            attributes["relaxation"] = lambda t: tensor
        if kind == "temperature":
            attributes["thermal_expansion"] = np.array(case["expansion"])
            attributes["thermal_conductivity"] = np.array(case["conductivity"])
            attributes["contact_law_2"] = None
        if "piezo" in kind:
            attributes["piezoelectricity"] = np.array(case["piezo"])
            attributes["permittivity"] = np.array(case["permittivity"])
            attributes["contact_law_2"] = None
        law = laws.law("winkler")[0] if kind == "bed" else None
        problem = cm.make_problem(
            base,
            description,
            bounds,
            attributes,
            mu_coef=case["mu"],
            la_coef=case["lam"],
            contact_law=law,
        )
        solver = solver_class(problem, case["method"])
    if kind in ("static", "bed"):
        state = solver.solve(initial_displacement=lambda x: np.zeros_like(x))
        return solver.body.mesh, np.asarray(state.displacement, float), None
    exact = made["exact"]
    kwargs = {"initial_displacement": values_at(exact)}
    if kind == "relaxation":
        kwargs["initial_absement"] = lambda x: np.zeros_like(x)
    else:
        kwargs["initial_velocity"] = values_at([p.d(3) for p in exact])
    if kind == "temperature":
        kwargs["initial_temperature"] = lambda x: made["second"](x, 0.0)
    if "piezo" in kind:
        kwargs["initial_electric_potential"] = lambda x: made["second"](x, 0.0)
    state = list(solver.solve(n_steps=steps, output_step=(steps,), **kwargs))[-1]
    second = None
    if kind == "temperature":
        second = np.asarray(state.temperature, float).reshape(-1, 1)
    if "piezo" in kind:
        second = np.asarray(state.electric_potential, float).reshape(-1, 1)
    return solver.body.mesh, np.asarray(state.displacement, float), second


END = 0.4


def errors(case):
    """Name, L2 errors of both levels and errors at coarse nodes (both, extrapolated), norms."""
    made = manufacture(case)
    still = case["kind"] in ("static", "bed", "poisson")
    time = 0.0 if still else END
    levels = []
    for k, description in enumerate(descriptions(case)):
        steps = 3 * 4**k
        mesh, first, second = solve(case, made, description, END / steps, steps)
        fields = [("first field", first, made["exact"])]
        if second is not None:
            fields.append(("second field", second, [made["second"]]))
        levels.append((mesh, fields))
    (coarse, before), (fine, after) = levels
    nodes = np.asarray(coarse.nodes, dtype=float)
    apart = np.abs(nodes[:, None, :] - np.asarray(fine.nodes)[None]).sum(axis=2)
    same, apart = apart.argmin(axis=1), apart.min(axis=1)
    check(apart.max() < 1e-9, "the refined mesh has other nodes")
    result = []
    for (name, rough, exact), (_, smooth, _) in zip(before, after):
        e1, _ = l2_error(coarse, rough, exact, time)
        e2, norm = l2_error(fine, smooth, exact, time)
        true = np.stack([p(nodes, time) for p in exact], axis=1)
        one, two = rough[:, : len(exact)], smooth[same][:, : len(exact)]
        points = [np.linalg.norm(f - true) for f in (one, two, (4 * two - one) / 3)]
        result.append((name, e1, e2, norm, points, np.linalg.norm(true)))
    return result


def body(case, ctx):
    for name, e1, e2, norm, (one, two, extrapolated), size in errors(case):
        where = f"{case['kind']} ({case['dim']}D, {case['method']}), {name}"
        check(
            e2 <= 0.6 * e1 + 1e-3 * norm + 1e-9,
            lambda: f"{where}: error {e1:.3e}, and {e2:.3e} after refinement (norm {norm:.3e})",
        )
        check(
            min(two, extrapolated) <= 0.4 * one + 0.01 * size + 1e-9,
            lambda: f"{where}: errors at nodes {one:.3e}, {two:.3e} after refinement, "
            f"{extrapolated:.3e} extrapolated (norm {size:.3e})",
        )
        ctx.nontrivial(e1 > 1e-3 * norm and norm > 1e-4)
    ctx.label(case["kind"], "library mesh" if case["cells"] else "generated mesh")


TESTS = [
    Test("plane", lambda: cases(KINDS), body, quick=120, thorough=1500),
    Test("space", lambda: cases(["static", "poisson"], 3), body, quick=6, thorough=60),
]
