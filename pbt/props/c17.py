"""C17: Poisson problems: the temperature solves the discrete equation, by every method."""

import numpy as np
from hypothesis import strategies as st

from pbt import cm, gen, laws, model, ref
from pbt.core import Test, check

RULE = (
    "Generated 2D and 3D domains, boundary parts, prescribed temperatures, affine sources inside "
    "and on the boundary, heat exchange laws on the contact boundary (2D), all three methods with "
    "generated spelling. Oracle: independently assembled Laplacian; exactness for affine data; "
    "maximum principle is not claimed. Non-trivial: the temperature is not constant."
)
ASSUMPTIONS = ["heat exchange laws are C1 and convex, and used with Schur or global method"]
SHARDS = 4


def prepare():
    cm.speed_up()


SPELLINGS = {
    "direct": ["direct", "Direct"],
    "schur": ["schur", "Schur complement", "schur complement method"],
    "global": ["global", "Global Optimization"],
}


OPTIMISERS = [None, None, None, "BFGS", "CG", "L-BFGS-B"]
GRADIENTED = ["gradiented BFGS", "gradiented CG"]


@st.composite
def cases(draw, large=False):
    dim = draw(st.sampled_from([2, 2, 2, 3]))
    mesh = gen.mesh2d(max_cells=3) if dim == 2 else gen.mesh3d(max_cells=2)
    mesh = draw(gen.large(dim, most=14 if dim == 2 else 5) if large else mesh)
    sides = draw(st.permutations([[a, e, None] for a in range(dim) for e in ("min", "max")]))
    method = draw(st.sampled_from(["schur", "direct"] + ([] if large else ["global"])))
    law = None
    contact = []
    if method != "direct" and dim == 2 and draw(st.booleans()):
        law = draw(st.sampled_from(["relu5", "early", "gap"]))
    dirichlet = [sides[0]]
    if law or draw(st.booleans()):
        side = next(s for s in sides[1:] if method == "schur" or s[0] == sides[0][0])
        contact = [side]
    elif draw(st.booleans()):
        dirichlet.append(sides[1])
    affine = not law and draw(st.integers(0, 3)) == 0

    def scalar():
        return {
            "c": [draw(gen.floats(-3, 3, 2))],
            "a": None
            if draw(st.booleans())
            else [[draw(gen.floats(-2, 2, 1)) for _ in range(dim)]],
            "t": [draw(gen.floats(-2, 2, 1)), 0.0],
        }

    return {
        "dim": dim,
        "mesh": mesh,
        "dirichlet": "all" if affine else dirichlet,
        "contact": [] if affine else contact,
        "value": [draw(gen.floats(-2, 2, 2)) for _ in range(dim + 1)],
        "inner": None if affine or draw(st.integers(0, 4)) == 0 else scalar(),
        "outer": None if affine or draw(st.integers(0, 4)) == 0 else scalar(),
        "law": law,
        "method": method,
        "name": draw(st.sampled_from(SPELLINGS[method])),
        "affine": affine,
        "optimiser": draw(st.sampled_from(OPTIMISERS + GRADIENTED * (law in (None, "relu5")))),
        "again": draw(
            st.lists(st.sampled_from(["solve", "method", "refresh"]), min_size=1, max_size=2)
        ),
    }


def make(case):
    """(solver, predicates and values of the boundary, reference law)"""
    from conmech.scenarios import problems as pr
    from conmech.simulations.problem_solver import PoissonSolver

    frame = cm.Frame(case["mesh"])
    on_dirichlet, on_contact = frame.on(case["dirichlet"]), frame.on(case["contact"])
    c = np.array(case["value"])
    condition = lambda x: c[0] + np.asarray(x) @ c[1:]
    attributes = {}
    if case["inner"] is not None:
        attributes["internal_temperature"] = cm.field(case["inner"])
    if case["outer"] is not None:
        attributes["outer_temperature"] = cm.field(case["outer"])
    law = None
    if case["law"]:
        law_class, law = laws.law(case["law"])
        attributes["contact_law_2"] = law_class
    problem = cm.make_problem(
        pr.PoissonProblem,
        cm.mesh_description(case["mesh"]),
        cm.boundaries(contact=on_contact, dirichlet=(on_dirichlet, condition)),
        attributes,
    )
    return PoissonSolver(problem, case["name"]), on_contact, on_dirichlet, condition, law


def body(case, ctx):
    dim = case["dim"]
    zero = {"c": [0.0], "a": None}
    solver, on_contact, on_dirichlet, condition, law = make(case)
    options = {}
    if case.get("optimiser") and case["method"] != "direct":
        options = {"method": case["optimiser"]}
        ctx.label(case["optimiser"])
    got = np.asarray(solver.solve(**options).temperature, dtype=float)
    fem, groups, contact_nodes, dirichlet = cm.classes(solver.body.mesh, on_contact, on_dirichlet)
    inner, outer = cm.field(case["inner"] or zero), cm.field(case["outer"] or zero)
    load = (
        fem.body_load(np.array([inner(x, 0) for x in fem.nodes]))
        + fem.surface_load(np.array([outer(x, 0) for x in fem.nodes]), groups["neumann"])
    )[:, 0]
    contact = None
    if law is not None:
        contact = ref.Contact(fem, groups["contact"], law, None, 0.0, variable_dim=1)
    values = condition(fem.nodes[dirichlet])
    expected, residual = ref.minimise(
        fem.laplacian(), load, contact, np.array(dirichlet, dtype=int), values
    )
    if residual > 1e-7:
        ctx.label("reference did not converge")
        return
    active = contact.active_samples(expected)[0] if contact else 0
    ctx.label(f"{dim}D", case["method"], f"law {case['law']}", "active" if active else "inactive")
    ctx.nontrivial(np.ptp(expected) > 1e-3)
    check(got.shape == (fem.n,), f"temperature has shape {got.shape}")
    exact = case["method"] == "direct"
    rtol = 1e-9
    if not exact:
        rtol = ref.tolerance(model.RTOL, fem.laplacian(), contact, expected, dirichlet)
    check(
        cm.close(got, expected, rtol, 1e-9 if exact else 1e-5),
        lambda: f"temperature ({case['method']}) is off by {cm.distance(got, expected)}",
    )
    check(
        np.abs(got[dirichlet] - values).max(initial=0) < 1e-12, "prescribed temperature not met"
    )
    # the solver can be used again, switched, refreshed
    for how in case["again"]:
        if how == "method":
            solver.solving_method = case["name"]
        elif how == "refresh":
            solver.refresh_solvers()
        again = np.asarray(solver.solve(**options).temperature, dtype=float)
        check(
            cm.close(again, expected, rtol, 1e-9 if exact else 1e-5),
            lambda: f"solved again ({how}): off by {cm.distance(again, expected)}",
        )
    if case["affine"]:
        check(
            cm.close(got, condition(fem.nodes), 1e-3, 1e-4), "affine temperature is not reproduced"
        )


TESTS = [
    Test("poisson", cases, body, quick=240, thorough=5000),
    Test("large", lambda: cases(large=True), body, quick=12, thorough=200),
]
