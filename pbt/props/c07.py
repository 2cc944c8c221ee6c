"""C07: loads: integration of body and surface forces, in space and in time."""

import numpy as np
from hypothesis import strategies as st

from pbt import cm, gen, ref
from pbt.core import Test, check
from pbt.props.c05 import make_body

RULE = (
    "Generated 2D and 3D meshes with generated contact / dirichlet predicates; histories of up to "
    "8 operations on the sources of forces (set a body or surface force that depends on position "
    "and time, integrate at a generated time, integrate again, clear). Non-trivial: a Neumann "
    "face exists, a force depends on time and at least two integrations happen."
)
ASSUMPTIONS = [
    "a source replaced without clear() between two integrations at the same time is outside the "
    "contract (cache keyed by time)",
]
SHARDS = 3


def profile(draw, dim, comps):
    return {
        "c": [draw(gen.floats(-3, 3, 2)) for _ in range(comps)],
        "a": draw(
            st.one_of(
                st.none(),
                st.lists(
                    st.lists(gen.floats(-2, 2, 1), min_size=dim, max_size=dim),
                    min_size=comps,
                    max_size=comps,
                ),
            )
        ),
        "t": [draw(gen.floats(-1, 2, 1)), draw(gen.floats(-1, 1, 1))],
    }


@st.composite
def moments(draw):
    """Strategy of times: a few round ones, or ones very close to each other."""
    if draw(st.integers(0, 2)):
        return st.sampled_from([0.0, 0.5, 1.0, 2.0])
    start = draw(st.sampled_from([0.0, 0.001, 1.0, 1000.0]))
    apart = draw(st.sampled_from([1e-3, 1e-5, 1e-7]))
    return st.integers(0, 3).map(lambda k: start + k * apart)


@st.composite
def cases(draw, large=False):
    dim = draw(st.sampled_from([2, 2, 3]))
    base = gen.large(dim) if large else (
        st.one_of(gen.mesh2d(), gen.fan(), gen.simplex(2))
        if dim == 2
        else st.one_of(gen.mesh3d(), gen.simplex(3))
    )
    comps = draw(st.sampled_from([1, dim]))
    times = draw(moments())
    ops = [["inner", profile(draw, dim, comps)], ["outer", profile(draw, dim, comps)]]
    for _ in range(draw(st.integers(1, 7))):
        kind = draw(st.sampled_from(["at", "at", "at", "clear", "inner", "outer", "parts"]))
        if kind in ("at", "parts"):
            ops.append([kind, draw(times)])
        elif kind == "clear":
            ops.append([kind, None])
        else:
            ops.append([kind, profile(draw, dim, comps)])
    ops.append(["at", draw(times)])
    return {
        "dim": dim,
        "comps": comps,
        "mesh": draw(gen.affine(base, dim)),
        "contact": draw(gen.predicate(dim)) if dim == 2 else ["none"],
        "dirichlet": draw(gen.predicate(dim)),
        "which": draw(st.sampled_from(["force", "temperature"])),
        "ops": ops,
    }


def body(case, ctx):
    from conmech.properties.body_properties import MembraneProperties

    nodes = np.array(case["mesh"]["nodes"], dtype=float)
    is_contact = gen.make_predicate(case["contact"], nodes)
    is_dirichlet = gen.make_predicate(case["dirichlet"], nodes)
    mesh = cm.make_mesh(case["mesh"], contact=is_contact, dirichlet=is_dirichlet)
    dim, comps = case["dim"], case["comps"]
    fem, groups, *_ = cm.classes(mesh, is_contact, is_dirichlet)
    neumann = groups["neumann"]
    holder = make_body(mesh, MembraneProperties(mass_density=1.0, propagation=1.0)).dynamics
    forces = getattr(holder, case["which"])
    spec = {}
    integrations, times = 0, set()
    ctx.label(f"{dim}D", f"{comps} components", "neumann" if neumann else "no neumann")
    for op, arg in case["ops"]:
        if op in ("inner", "outer"):
            spec[op] = arg
            getattr(forces, op).source = cm.field(arg)
            forces.clear()
        elif op == "clear":
            forces.clear()
        else:
            integrations += 1
            times.add(arg)
            verify(forces, fem, neumann, spec, arg, comps, op)
    ctx.nontrivial(
        bool(neumann) and integrations >= 2 and any(any(s["t"]) for s in spec.values())
    )


def verify(forces, fem, neumann, spec, time, comps, op):
    n, dim = fem.n, fem.dim
    inner, outer = cm.field(spec["inner"]), cm.field(spec["outer"])
    b = np.array([inner(x, time) for x in fem.nodes])
    q = np.array([outer(x, time) for x in fem.nodes])
    mass_one = fem.mass() @ np.ones(n)
    size = sum(fem.face_measure(f) for f in neumann)
    scale = np.abs(b).max() * fem.volumes.sum() + np.abs(q).max() * size + 1e-300
    if op == "parts":
        got_inner = np.asarray(forces.get_integrated_inner_forces(time), dtype=float)
        got_outer = np.asarray(forces.get_integrated_outer_forces(time), dtype=float)
    else:
        vector = np.asarray(forces.integrate(time), dtype=float)
        check(vector.shape == (n * comps,), f"load has shape {vector.shape}")
        got = ref.unstacked(vector, comps)
        expected = fem.body_load(b) + fem.surface_load(q, neumann)
        check(
            np.abs(got - expected).max() < 1e-9 * scale,
            lambda: f"load at time {time} is off by {np.abs(got - expected).max():.2e}",
        )
        got_outer = fem.surface_load(q, neumann)
        got_inner = got - got_outer
    # textbook: per node for uniform forces, total for affine ones
    if spec["inner"]["a"] is None:
        check(np.abs(got_inner - mass_one[:, None] * b).max() < 1e-9 * scale, "uniform body force")
    total = np.sum(fem.mass() @ b, axis=0)
    check(np.abs(got_inner.sum(axis=0) - total).max() < 1e-8 * scale, "total of the body force")
    total = sum(
        (fem.face_measure(f) * q[list(f)].mean(axis=0) for f in neumann), np.zeros(comps)
    )
    check(np.abs(got_outer.sum(axis=0) - total).max() < 1e-8 * scale, "total of surface forces")
    loaded = sorted({k for f in neumann for k in f})
    rest = np.setdiff1d(np.arange(n), loaded)
    check(np.abs(got_outer[rest]).max(initial=0) < 1e-12 * scale, "load outside Neumann faces")


# ----------------------------------------------------------- loads as seen through problems


@st.composite
def problem_cases(draw):
    mesh = draw(gen.mesh2d(max_cells=3))
    kind = draw(st.sampled_from(["static", "wave", "poisson"]))
    comps = 2 if kind == "static" else 1
    return {
        "kind": kind,
        "mesh": mesh,
        "inner": draw(st.one_of(st.none(), st.just(0)).map(lambda _: None))
        if draw(st.booleans())
        else profile(draw, 2, comps),
        "outer": None if draw(st.booleans()) else profile(draw, 2, comps),
        "time": draw(st.sampled_from([0.0, 0.5, 1.5])),
        "dirichlet": draw(st.sampled_from(["min", "max"])),
    }


def problem_body(case, ctx):
    from conmech.properties.body_properties import ElasticProperties, MembraneProperties
    from conmech.scenarios import problems as pr
    from conmech.simulations.problem_solver import ProblemSolver

    frame = cm.Frame(case["mesh"])
    is_dirichlet = frame.on([[0, case["dirichlet"], None]])
    kind = case["kind"]
    names = {
        "static": ("inner_forces", "outer_forces"),
        "wave": ("inner_forces", "outer_forces"),
        "poisson": ("internal_temperature", "outer_temperature"),
    }[kind]
    attributes = {}
    for name, key in zip(names, ("inner", "outer")):
        if case[key] is not None:
            attributes[name] = cm.field(case[key])
    base = {
        "static": pr.StaticDisplacementProblem,
        "wave": pr.WaveProblem,
        "poisson": pr.PoissonProblem,
    }[kind]
    extra = {
        "static": {"mu_coef": 1.0, "la_coef": 1.0, "contact_law": None},
        "wave": {"propagation": 1.0},
        "poisson": {},
    }[kind]
    if kind == "wave":
        attributes["time_step"] = 0.1
    problem = cm.make_problem(
        base,
        cm.mesh_description(frame.mesh),
        cm.boundaries(dirichlet=is_dirichlet),
        attributes,
        **extra,
    )
    properties = (
        ElasticProperties(mass_density=1.0, mu=1.0, lambda_=1.0)
        if kind == "static"
        else MembraneProperties(mass_density=1.0, propagation=1.0)
    )
    body_ = ProblemSolver(problem, properties).body
    fem, groups, *_ = cm.classes(body_.mesh, lambda x: False, is_dirichlet)
    comps = 2 if kind == "static" else 1
    source = body_.dynamics.temperature if kind == "poisson" else body_.dynamics.force
    got = np.asarray(source.integrate(case["time"]), dtype=float)
    zero = {"c": [0.0] * comps, "t": [0.0, 0.0]}
    f, g = (cm.field(case[k] or zero) for k in ("inner", "outer"))
    expected = fem.body_load(
        np.array([f(x, case["time"]) for x in fem.nodes])
    ) + fem.surface_load(np.array([g(x, case["time"]) for x in fem.nodes]), groups["neumann"])
    ctx.label(kind, *(f"default {k}" for k in ("inner", "outer") if case[k] is None))
    ctx.nontrivial(case["inner"] is not None or case["outer"] is not None)
    check(got.shape == (fem.n * comps,), f"load has shape {got.shape}")
    scale = np.abs(expected).max() + 1e-9
    check(np.abs(got - ref.stacked(expected)).max() < 1e-9 * scale, "load of the problem")


TESTS = [
    Test("history", cases, body, quick=240, thorough=5000),
    Test("large", lambda: cases(large=True), body, quick=12, thorough=200),
    Test("problems", problem_cases, problem_body, quick=60, thorough=1000),
]
