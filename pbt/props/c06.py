"""C06: material operators realise their constitutive laws."""

import numpy as np
from hypothesis import strategies as st

from pbt import cm, gen, ref
from pbt.core import Test, check
from pbt.props.c05 import make_body, same

RULE = (
    "Generated 2D and 3D meshes and generated coefficients (Lame, viscosity, anisotropic and "
    "non-symmetric thermal, piezoelectric, permittivity and time-dependent relaxation tensors, "
    "element densities). Non-trivial: at least 2 elements and no coefficient zero."
)
ASSUMPTIONS = ["piezoelectricity, relaxation and variable density exist only in 2D"]
SHARDS = 3


def tensor(*shape):
    size = int(np.prod(shape))
    return st.lists(gen.nonzero(0.05, 3, 2), min_size=size, max_size=size).map(
        lambda v: np.array(v).reshape(shape).tolist()
    )


@st.composite
def cases(draw, large=False):
    dim = draw(st.sampled_from([2, 2, 3]))
    if large:
        base = gen.large(dim, most=12 if dim == 2 else 4)
    elif dim == 2:
        base = st.one_of(gen.mesh2d(max_cells=3), gen.fan(), gen.simplex(2))
    else:
        base = st.one_of(gen.mesh3d(), gen.simplex(3))
    mesh = draw(gen.affine(base, dim))
    return {
        "dim": dim,
        "mesh": mesh,
        "mu": draw(gen.floats(0.1, 9, 2)),
        "lam": draw(gen.floats(0.1, 9, 2)),
        "theta": draw(gen.floats(0.1, 9, 2)),
        "zeta": draw(gen.floats(0.1, 9, 2)),
        "density": draw(gen.floats(0.1, 9, 2)),
        "expansion": draw(tensor(dim, dim)),
        "conductivity": draw(tensor(dim, dim)),
        "piezo": draw(tensor(2, 2, 2)),
        "permittivity": draw(tensor(2, 2)),
        "relaxation": draw(tensor(2, 2, 2)),
        "rate": draw(tensor(2, 2, 2)),
        "times": draw(st.lists(gen.floats(0, 3, 1), min_size=1, max_size=4)),
        "weights": [
            draw(gen.floats(0.1, 3, 2)) for _ in range(min(len(mesh["elements"]), 6))
        ],
    }


def rotation(dim):
    c, s = np.cos(0.7), np.sin(0.7)
    r = np.eye(dim)
    r[:2, :2] = [[c, -s], [s, c]]
    if dim == 3:
        q = np.eye(3)
        q[1:, 1:] = [[c, -s], [s, c]]
        r = r @ q
    return r


def stiffness_invariants(matrix, fem, mu, lam, what):
    n, dim = fem.n, fem.dim
    scale = np.abs(matrix).max()
    size = 1 + np.abs(fem.nodes).max()
    check(np.abs(matrix - matrix.T).max() < 1e-10 * scale, f"{what} is not symmetric")
    for i in range(dim):
        for j in range(i):
            field = np.zeros((n, dim))
            field[:, i], field[:, j] = fem.nodes[:, j], -fem.nodes[:, i]
            force = matrix @ ref.stacked(field)
            check(np.abs(force).max() < 1e-9 * scale * size * n, f"{what}: rotation costs energy")
        shift = np.zeros((n, dim))
        shift[:, i] = 1
        check(
            np.abs(matrix @ ref.stacked(shift)).max() < 1e-9 * scale * n,
            f"{what}: translation costs energy",
        )
    # energy of a homogeneous deformation u = G x
    g = np.arange(1, dim * dim + 1).reshape(dim, dim) / 7.0
    g[0, -1] = -0.4
    strain = (g + g.T) / 2
    expected = fem.volumes.sum() * (2 * mu * np.sum(strain**2) + lam * np.trace(strain) ** 2)
    u = ref.stacked((fem.nodes - fem.nodes.mean(axis=0)) @ g.T)
    check(abs(u @ matrix @ u - expected) < 1e-7 * expected, f"{what}: energy of u = Gx")


def body(case, ctx):
    from conmech.properties import body_properties as bp

    mesh = cm.make_mesh(case["mesh"], contact=lambda x: False)
    dim = case["dim"]
    fem = ref.P1(mesh.nodes, mesh.elements)
    ctx.label(f"{dim}D")
    ctx.nontrivial(len(fem.volumes) > 1)
    mu, lam, theta, zeta = (case[k] for k in ("mu", "lam", "theta", "zeta"))
    rho = case["density"]
    thermal = make_body(
        mesh,
        bp.ViscoelasticTemperatureProperties(
            mass_density=rho,
            mu=mu,
            lambda_=lam,
            theta=theta,
            zeta=zeta,
            thermal_expansion=np.array(case["expansion"]),
            thermal_conductivity=np.array(case["conductivity"]),
        ),
    ).dynamics
    same(thermal.elasticity, fem.elasticity(mu, lam), "elasticity")
    same(thermal.viscosity, fem.elasticity(theta, zeta), "viscosity")
    stiffness_invariants(np.asarray(thermal.elasticity.data), fem, mu, lam, "elasticity")
    stiffness_invariants(np.asarray(thermal.viscosity.data), fem, theta, zeta, "viscosity")
    same(thermal.acceleration_operator, rho * fem.block_diagonal(fem.mass()), "mass")
    same(
        thermal.thermal_conductivity,
        fem.diffusion(case["conductivity"]),
        "thermal conductivity",
    )
    same(
        thermal.thermal_expansion,
        np.hstack(
            [
                sum(case["expansion"][i][k] * fem.advection(k) for k in range(dim))
                for i in range(dim)
            ]
        ),
        "thermal expansion",
    )
    # frame indifference of elasticity
    r = rotation(dim)
    turned = {
        "nodes": (np.array(mesh.nodes) @ r.T).tolist(),
        "elements": np.array(mesh.elements).tolist(),
    }
    other = cm.make_mesh(turned, contact=lambda x: False)
    key = {tuple(np.round(x, 7)): i for i, x in enumerate(np.asarray(other.nodes))}
    order = [key.get(tuple(np.round(x, 7))) for x in np.array(mesh.nodes) @ r.T]
    if None not in order and len(set(order)) == fem.n:
        ctx.label("rotated")
        properties = bp.ElasticProperties(mass_density=1.0, mu=mu, lambda_=lam)
        rotated = np.asarray(make_body(other, properties).dynamics.elasticity.data)
        take = cm.dofs(order, fem.n, dim)
        big = np.kron(r, np.eye(fem.n))
        same(big.T @ rotated[np.ix_(take, take)] @ big, fem.elasticity(mu, lam), "rotated body")
    if dim == 3:
        return

    piezo = make_body(
        mesh,
        bp.ViscoelasticPiezoelectricProperties(
            mass_density=rho,
            mu=mu,
            lambda_=lam,
            theta=theta,
            zeta=zeta,
            piezoelectricity=np.array(case["piezo"]),
            permittivity=np.array(case["permittivity"]),
        ),
    ).dynamics
    same(piezo.elasticity, fem.elasticity(mu, lam), "elasticity (piezo)")
    same(piezo.viscosity, fem.elasticity(theta, zeta), "viscosity (piezo)")
    same(piezo.permittivity, fem.diffusion(case["permittivity"]), "permittivity")
    same(
        piezo.piezoelectricity,
        np.hstack([fem.diffusion(case["piezo"][0]), fem.diffusion(case["piezo"][1])]),
        "piezoelectricity",
    )

    c0, c1 = np.array(case["relaxation"]), np.array(case["rate"])
    relaxing = make_body(
        mesh,
        bp.ElasticRelaxationProperties(
            mass_density=rho, mu=mu, lambda_=lam, relaxation=lambda t: c0 + t * c1
        ),
    ).dynamics
    for time in case["times"]:  # any order, with repetitions
        same(relaxing.relaxation(time), relaxation(fem, c0 + time * c1), f"relaxation at {time}")
    same(relaxing.elasticity, fem.elasticity(mu, lam), "elasticity (relaxation)")
    buffer = np.zeros_like(c0)

    def refilled(t):  # the same array for all times
        buffer[:] = c0 + t * c1
        return buffer

    lazy = make_body(
        mesh,
        bp.ElasticRelaxationProperties(
            mass_density=rho, mu=mu, lambda_=lam, relaxation=refilled
        ),
    ).dynamics
    for time in case["times"]:
        same(lazy.relaxation(time), relaxation(fem, c0 + time * c1), f"relaxation at {time}")
    isotropic = np.array([[[2 * mu + lam, lam], [mu, mu]], [[mu, mu], [lam, 2 * mu + lam]]])
    again = make_body(
        mesh,
        bp.ElasticRelaxationProperties(
            mass_density=rho, mu=mu, lambda_=lam, relaxation=lambda t: isotropic
        ),
    ).dynamics
    same(again.relaxation(0.3), fem.elasticity(mu, lam), "isotropic relaxation")

    weights = np.array(case["weights"])[np.arange(len(fem.volumes)) % len(case["weights"])]
    dense = make_body(mesh, bp.ElasticProperties(mass_density=rho, mu=mu, lambda_=lam)).dynamics
    dense.reinitialize_matrices(weights)
    same(dense.elasticity, fem.elasticity(mu, lam, weights), "elasticity with density")
    same(dense.acceleration_operator, rho * fem.block_diagonal(fem.mass()), "mass with density")
    # bodies whose operators were used before
    heavy = fem.weighted(weights)
    for time in case["times"]:
        c = c0 + time * c1
        relaxing.reinitialize_matrices(weights)
        same(relaxing.relaxation(time), relaxation(heavy, c), "relaxation with density")
        relaxing.reinitialize_matrices()
        same(relaxing.relaxation(time), relaxation(fem, c), "relaxation after density was dropped")
    piezo.reinitialize_matrices(weights)
    same(piezo.viscosity, heavy.elasticity(theta, zeta), "viscosity with density")
    same(piezo.permittivity, heavy.diffusion(case["permittivity"]), "permittivity with density")
    same(
        piezo.piezoelectricity,
        np.hstack([heavy.diffusion(case["piezo"][0]), heavy.diffusion(case["piezo"][1])]),
        "piezoelectricity with density",
    )
    thermal.reinitialize_matrices(weights)
    same(
        thermal.thermal_conductivity,
        heavy.diffusion(case["conductivity"]),
        "thermal conductivity with density",
    )
    dense.reinitialize_matrices()
    same(dense.elasticity, fem.elasticity(mu, lam), "elasticity after density was dropped")


def relaxation(fem, c):
    blocks = []
    for i in range(2):
        diagonal = fem.diffusion(np.diag(np.diag(c[i])))
        mixed = fem.diffusion(c[i] - np.diag(np.diag(c[i])))
        blocks.append([diagonal, mixed] if i == 0 else [mixed, diagonal])
    return np.block(blocks)


# ------------------------------------------------------- algebra of operators: no aliasing


@st.composite
def programs(draw):
    n = draw(st.integers(1, 3))
    dim = draw(st.sampled_from(["SM1", "SM2", "SM3"]))
    size = n * int(dim[-1])
    matrix = st.lists(gen.floats(-3, 3, 1), min_size=size * size, max_size=size * size)
    ops = st.lists(
        st.tuples(
            st.sampled_from(
                ["+", "r+", "+=", "+=a", "*", "r*", "*=", "copy", "@", "r@", "T", "get", "SM1", "+a"]
            ),
            st.integers(0, 3),
            st.integers(0, 3),
            gen.nonzero(0.1, 2, 1),
        ),
        min_size=1,
        max_size=10,
    )
    return {
        "kind": dim,
        "n": n,
        "start": [draw(matrix) for _ in range(2)],
        "ops": [list(o) for o in draw(ops)],
    }


def algebra(case, ctx):
    from conmech.struct import stiffness_matrix as sm

    cls = getattr(sm, case["kind"])
    size = case["n"] * int(case["kind"][-1])
    arrays = [np.array(a, dtype=float).reshape(size, size) for a in case["start"]]
    real = [cls(a.copy()) for a in arrays]
    model = [a.copy() for a in arrays]
    ctx.nontrivial(len(case["ops"]) >= 3 and size > 1)
    for op, i, j, c in case["ops"]:
        i, j = i % len(real), j % len(real)
        a, b, x, y = real[i], real[j], model[i], model[j]
        if op == "+":
            real.append(a + b), model.append(x + y)
        elif op == "+a":
            real.append(a + y.copy()), model.append(x + y)
        elif op == "r+":
            real.append(a.__radd__(b)), model.append(y + x)
        elif op == "+=":
            before = a
            a += b
            check(a is before, "+= makes another object")
            model[i] = x + y
        elif op == "+=a":
            before = a
            a += y.copy()
            check(a is before, "+= makes another object")
            model[i] = x + y
        elif op == "*":
            real.append(a * c), model.append(x * c)
        elif op == "r*":
            real.append(c * a), model.append(x * c)
        elif op == "*=":
            before = a
            a *= c
            check(a is before, "*= makes another object")
            model[i] = x * c
        elif op == "copy":
            real.append(a.copy()), model.append(x.copy())
        elif op == "@":
            check(np.allclose(a @ b, x @ y) and np.allclose(a @ y[0], x @ y[0]), "matrix product")
        elif op == "r@":
            check(np.allclose(a.__rmatmul__(y[0]), y[0] @ x), "product from the left")
        elif op == "T":
            check(np.allclose(a.T, x.T), "transpose")
        elif op == "get":
            check(np.allclose(a[:1, -1:], x[:1, -1:]), "indexing")
        elif op == "SM1" and case["kind"] != "SM1":
            k = case["n"]
            check(np.allclose(a.SM1.data, x[:k, :k]), "scalar block")
        for k, (value, expected) in enumerate(zip(real, model)):
            check(isinstance(value, cls), f"operator {k} became {type(value).__name__} after {op}")
            check(
                np.allclose(value.data, expected, rtol=1e-9, atol=1e-9),
                f"operator {k} is wrong after {op} on {i} and {j}",
            )
        if any(np.abs(m).max() > 1e6 for m in model) or len(real) > 6:
            break


TESTS = [
    Test("operators", cases, body, quick=200, thorough=4000),
    Test("large", lambda: cases(large=True), body, quick=8, thorough=100),
    Test("algebra", programs, algebra, quick=200, thorough=4000),
]
