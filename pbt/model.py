"""
Simulations of every kind which conmech offers (2D; in 3D without contact), and the reference for one step of
each: given the state before the step, the equations of the step are assembled by pbt.ref and
solved by semismooth Newton.  Comparing step by step keeps rounding from accumulating.

A case is a case of sim.body2d plus "kind", "method", "dt", "steps" and coefficients; see
``history_case``.
"""

import functools

import numpy as np
from hypothesis import strategies as st

from pbt import cm, gen, laws, ref, sim

KINDS = ("quasistatic", "dynamic", "relaxation", "wave", "temperature", "piezo", "dynamic piezo")

FLOATING = ("dynamic", "wave", "temperature")  # determined without prescribed values


def matrix22(low, high):
    """Symmetric positive definite 2 x 2."""

    @st.composite
    def build(draw):
        a, b = draw(gen.floats(low, high, 2)), draw(gen.floats(low, high, 2))
        c = draw(gen.floats(-0.5, 0.5, 2)) * min(a, b)
        return [[a, c], [c, b]]

    return build()


@st.composite
def history_case(draw, kind, methods=("schur", "global"), law_pool=None, max_cells=2, steps=4,
                 touching=None, prescribed=True, scales=(1, 1, 1, 0.1, 0.01), strong=False, **kwargs):
    method = draw(st.sampled_from(list(methods)))
    scalar = kind == "wave"
    pool = law_pool or {
        "relaxation": laws.STATIC,
        "wave": laws.SCALAR,
    }.get(kind, laws.RATE)
    if method == "global" or kind in ("piezo", "dynamic piezo") and draw(st.booleans()):
        touching = False  # global: recorded finding KF-d
    case = draw(
        sim.body2d(
            law_pool=pool,
            max_cells=max_cells,
            time=True,
            comps=1 if scalar else 2,
            touching=touching,
            prescribed=prescribed,
            contact_required=draw(st.integers(0, 3)) > 0,
            dirichlet_required=kind not in FLOATING or draw(st.integers(0, 3)) > 0,
            **kwargs,
        )
    )
    case["kind"] = kind
    case["method"] = method
    case["dt"] = draw(st.sampled_from([0.01, 0.05, 0.1, 0.25, 0.6]))
    case["steps"] = draw(st.sampled_from([*range(2, steps + 1), 1]))
    size = 0.1
    comps = 1 if scalar else 2
    case["u0"] = draw(st.one_of(st.none(), sim.vector_field(comps, size=size)))
    if kind == "relaxation":
        case["b0"] = draw(st.one_of(st.none(), sim.vector_field(2, size=size)))
        case["relax"] = draw(relaxing())
    else:
        case["v0"] = draw(st.one_of(st.none(), sim.vector_field(comps, size=0.5)))
    if scalar:
        case["speed"] = draw(gen.floats(0.3, 3, 1))
    else:
        case["th"] = draw(gen.floats(0.2, 5, 1))
        case["ze"] = draw(gen.floats(0.2, 5, 1))
    if kind == "temperature":
        case["dt"] = draw(st.sampled_from([0.1, 0.2] if strong else [0.01, 0.02, 0.05, 0.1]))
        size = draw(st.sampled_from([2.0, 3.0] if strong else [0.6, 2.0]))
        case["expansion"] = [
            [draw(gen.floats(-size, size, 2)) for _ in range(2)] for _ in range(2)
        ]
        case["conductivity"] = draw(matrix22(0.1, 2))
        case["t0"] = draw(st.one_of(st.none(), sim.vector_field(1, size=1.0)))
        case["law2"] = draw(st.sampled_from([None, "relu5", "early"]))
    if kind in ("piezo", "dynamic piezo"):
        case["dt"] = draw(st.sampled_from([0.1, 0.2] if strong else [0.01, 0.02, 0.05, 0.1]))
        size = 2.0 if strong else 0.9
        case["piezo"] = [
            [[draw(gen.floats(-size, size, 2)) for _ in range(2)] for _ in range(2)]
            for _ in range(2)
        ]
        case["permittivity"] = draw(matrix22(1, 6))
        case["p0"] = draw(st.one_of(st.none(), sim.vector_field(1, size=1.0)))
        count = draw(st.integers(1, 2))
        case["law2"] = None
        if count == 1 and touching is False:  # otherwise electrodes may be in contact: KF-d
            case["law2"] = draw(st.sampled_from([None, "relu5", "early"]))
        case["electrodes"] = [
            [draw(gen.floats(-2, 2, 1))]
            + ([draw(gen.floats(-1, 1, 1)) for _ in range(2)] if draw(st.booleans()) else [0, 0])
            for _ in range(count)
        ]
        case["at"] = "dirichlet"
        if count == 1 and case["law2"] is None:
            case["at"] = draw(st.sampled_from(["dirichlet", "opposite", "both"]))
        case["numbered"] = count == 2 or draw(st.booleans())
        if case["numbered"]:  # number of an electrode which is described, but has no faces
            case["empty"] = draw(st.sampled_from([None, None, *range(count + 1)]))
            case["lead"] = draw(st.sampled_from([0, 0, 0, 1, 9, 10]))  # more of such numbers
    if draw(st.integers(0, 5)) == 0:  # released without loads
        for key in ("inner", "outer"):
            case[key] = {"c": [0.0] * comps, "a": None, "t": [0, 0]}
        if scalar and draw(st.booleans()):
            case["u0"] = {"c": [draw(gen.nonzero(0.05, 0.5, 2))], "a": None}
            case["v0"] = None
    scale = draw(st.sampled_from(list(scales)))
    if scale != 1:
        shrink(case, scale)
    return case


def long_case(kind, most=30, **kwargs):
    """Many steps of small bodies."""

    def prolong(drawn):
        case, steps, dt = drawn
        return {**case, "steps": steps, "dt": dt}

    return st.tuples(
        history_case(kind, methods=("schur",), **kwargs),
        st.integers(10, most),
        st.sampled_from([0.01, 0.02, 0.05]),
    ).map(prolong)


def large_case(kind, most=12, **kwargs):
    """Hundreds of nodes, two steps."""
    kwargs = {"steps": 2, **kwargs}
    return history_case(kind, methods=("schur",), mesh=gen.large(2, 6, most), **kwargs)


@st.composite
def history_case3(draw, kind, methods=("schur", "global"), steps=3):
    """Bodies in space; contact is not reached."""
    case = draw(
        sim.body3d(
            time=True,
            dirichlet_required=kind not in FLOATING or draw(st.integers(0, 3)) > 0,
        )
    )
    case["kind"] = kind
    case["method"] = draw(st.sampled_from(list(methods)))
    case["dt"] = draw(st.sampled_from([0.01, 0.05, 0.1, 0.25]))
    case["steps"] = draw(st.integers(1, steps))
    case["u0"] = draw(st.one_of(st.none(), sim.vector_field(3, dim=3, size=0.1)))
    case["v0"] = draw(st.one_of(st.none(), sim.vector_field(3, dim=3, size=0.5)))
    case["th"] = draw(gen.floats(0.2, 5, 1))
    case["ze"] = draw(gen.floats(0.2, 5, 1))
    if kind == "temperature":
        case["dt"] = draw(st.sampled_from([0.01, 0.02, 0.05]))
        case["expansion"] = [[draw(gen.floats(-0.6, 0.6, 2)) for _ in range(3)] for _ in range(3)]
        a, b, c = (draw(gen.floats(0.1, 2, 2)) for _ in range(3))
        case["conductivity"] = [[a, 0.0, 0.0], [0.0, b, 0.0], [0.0, 0.0, c]]
        e = draw(gen.floats(-0.4, 0.4, 2)) * min(a, b, c)
        for i, j in draw(st.lists(st.sampled_from([(0, 1), (0, 2), (1, 2)]), max_size=3)):
            case["conductivity"][i][j] = case["conductivity"][j][i] = e
        case["t0"] = draw(st.one_of(st.none(), sim.vector_field(1, dim=3, size=1.0)))
        case["law2"] = None
    scale = draw(st.sampled_from([1, 1, 0.1, 0.01]))
    if scale != 1:
        shrink(case, scale)
    return case


def shrink(case, scale):
    """Smaller loads, initial fields and prescribed values."""
    for key in ("inner", "outer", "u0", "v0", "b0", "t0", "p0"):
        if case.get(key) is not None:
            spec = case[key]
            spec["c"] = [scale * c for c in spec["c"]]
            if spec["a"] is not None:
                spec["a"] = [[scale * a for a in row] for row in spec["a"]]
    if case["value"] is not None:
        case["value"] = [scale * v for v in case["value"]]
    if "electrodes" in case:
        case["electrodes"] = [[scale * v for v in e] for e in case["electrodes"]]


@st.composite
def relaxing(draw):
    """
    Components of the relaxation tensor, each with its own rate of decay (some do not decay):
    [c000, c011, c100, c111, c001 = c110, c010 = c101], positive semidefinite at any time.
    """
    if draw(st.integers(0, 3)) == 0:  # an isotropic one
        mu, lam, rate = (draw(gen.floats(0.1, 2, 1)) for _ in range(3))
        return {"diagonal": [2 * mu + lam, mu, mu, 2 * mu + lam], "mixed": [0.3, 0.9], "rates": [rate] * 6}
    return {
        "diagonal": [draw(gen.floats(0.1, 4, 1)) for _ in range(4)],
        "mixed": [draw(st.sampled_from([0.0, 0.3, -0.6, 0.9])) for _ in range(2)],
        "rates": [draw(st.one_of(st.just(0.0), gen.floats(0.1, 3, 1))) for _ in range(6)],
    }


def affine(spec, comps=2, width=2):
    """Initial field: array of nodes -> array."""
    if spec is None:
        return lambda x: np.zeros((len(x), width))
    c = np.array(spec["c"], dtype=float)
    a = None if spec["a"] is None else np.array(spec["a"], dtype=float)

    def f(x):
        result = np.zeros((len(x), width))
        result[:, :comps] = c if a is None else c + np.asarray(x) @ a.T
        return result

    return f


def flat(spec):
    """Initial scalar field: array of nodes -> one number per node."""
    f = affine(spec, 1, 1)
    return lambda x: f(x)[:, 0]


def relaxation(relax, time):
    fade = [1.0 / (1.0 + rate**2 * time) for rate in relax["rates"]]
    a, b, c, d = (v * f for v, f in zip(relax["diagonal"], fade))
    e = relax["mixed"][0] * fade[4] * np.sqrt(a * d)
    g = relax["mixed"][1] * fade[5] * np.sqrt(b * c)
    return np.array([[[a, e], [g, b]], [[c, g], [e, d]]])


class Simulation:
    """
    wrap: applied to every callback which conmech gets; problem: an existing problem object to
    use; cls: an existing problem class (with its loads and coefficients) to use.
    """

    def __init__(self, case, wrap=None, problem=None, cls=None):
        self.case, self.problem, self.cls = case, problem, cls
        self.wrap = wrap or (lambda f: f)
        self.kind = case["kind"]
        self.dim = len(case["mesh"]["nodes"][0])
        self.comps = 1 if self.kind == "wave" else self.dim
        self.setup = sim.Setup(case, comps=self.comps)
        self.law2_class, self.law2 = laws.law(case["law2"]) if case.get("law2") else (None, None)
        self.dt = case["dt"]
        self.u0 = affine(case["u0"], self.comps, self.dim)
        self.v0 = affine(case.get("v0"), self.comps, self.dim)
        self.b0 = affine(case.get("b0"), self.dim, self.dim)
        self.make()

    # ------------------------------------------------------------------ the code under test

    def description(self):
        return self.setup.description()

    def boundaries(self):
        wrap = self.wrap
        bounds = {
            "contact": wrap(self.setup.is_contact),
            "dirichlet": wrap(self.setup.is_dirichlet),
        }
        if self.case["value"] is not None:
            bounds["dirichlet"] = (bounds["dirichlet"], wrap(self.setup.value))
        if "electrodes" in self.case:
            electrodes = [
                (wrap(self.electrode(k)), wrap(sim.condition(value)))
                for k, value in enumerate(self.case["electrodes"])
            ]
            if self.case.get("empty") is not None:
                electrodes.insert(self.case["empty"], (lambda x: False, sim.condition([7, 0, 0])))
            nowhere = (lambda x: False, sim.condition([7, 0, 0]))
            electrodes = [nowhere] * self.case.get("lead", 0) + electrodes
            for k, electrode in enumerate(electrodes):
                name = f"piezo_dirichlet_{k}" if self.case["numbered"] else "piezo_dirichlet"
                bounds[name] = electrode
        return cm.boundaries(**bounds)

    def electrode(self, k):
        """
        The first electrode is the side with the dirichlet condition (or the opposite one, or
        both), the second one is the far half of a side next to it (they share no node).
        """
        axis, end, _ = self.case["dirichlet"][0]
        frame = self.setup.frame
        if k == 0:
            opposite = "max" if end == "min" else "min"
            ends = {"dirichlet": [end], "opposite": [opposite], "both": [end, opposite]}
            return frame.on([[axis, e, None] for e in ends[self.case.get("at", "dirichlet")]])
        side = frame.on([[1 - axis, "min", None]])
        half = frame.size[axis] / 2
        if end == "min":
            return lambda x: side(x) and frame.back(x)[axis] > half + cm.TOL
        return lambda x: side(x) and frame.back(x)[axis] < half - cm.TOL

    def make(self):
        from conmech.scenarios import problems as pr
        from conmech.simulations import problem_solver as ps

        case, setup, wrap = self.case, self.setup, self.wrap
        attributes = {"inner_forces": wrap(setup.inner), "outer_forces": wrap(setup.outer)}
        attributes["time_step"] = self.dt
        kwargs = {}
        law = setup.law_class
        if self.kind == "wave":
            if law is None:
                base = pr.WaveProblem
            else:
                interior = case.get("interior")
                base = pr.InteriorContactWaveProblem if interior else pr.ContactWaveProblem
                kwargs["contact_law"] = law
            kwargs["propagation"] = case["speed"]
            solver = ps.WaveSolver
        else:
            kwargs.update(mu_coef=case["mu"], la_coef=case["lam"], contact_law=law)
            base, solver = {
                "quasistatic": (pr.QuasistaticDisplacementProblem, ps.TimeDependentSolver),
                "dynamic": (pr.DynamicDisplacementProblem, ps.TimeDependentSolver),
                "relaxation": (pr.RelaxationQuasistaticProblem, ps.QuasistaticRelaxation),
                "temperature": (pr.TemperatureDynamicProblem, ps.TemperatureTimeDependentSolver),
                "piezo": (
                    pr.PiezoelectricQuasistaticProblem,
                    ps.PiezoelectricTimeDependentSolver,
                ),
                "dynamic piezo": (
                    pr.PiezoelectricDynamicProblem,
                    ps.PiezoelectricTimeDependentSolver,
                ),
            }[self.kind]
            if self.kind == "relaxation":
                attributes["relaxation"] = functools.partial(relaxation, case["relax"])
            attributes["th_coef"], attributes["ze_coef"] = case["th"], case["ze"]
            if "expansion" in case:
                attributes["thermal_expansion"] = np.array(case["expansion"])
                attributes["thermal_conductivity"] = np.array(case["conductivity"])
                attributes["contact_law_2"] = self.law2_class
            if "piezo" in case:
                attributes["piezoelectricity"] = np.array(case["piezo"])
                attributes["permittivity"] = np.array(case["permittivity"])
                attributes["contact_law_2"] = self.law2_class
        self.attributes = attributes
        if self.cls is not None:
            self.problem = self.cls(
                mesh_descr=self.description(), boundaries=self.boundaries(), **kwargs
            )
        if self.problem is None:
            self.problem = cm.make_problem(
                base, self.description(), self.boundaries(), attributes, **kwargs
            )
        self.solver = solver(self.problem, case["method"])
        setup.look_at(self.solver.body.mesh)
        self.prepare()

    def initial(self):
        kwargs = {"initial_displacement": self.u0}
        if self.kind == "relaxation":
            kwargs["initial_absement"] = self.b0
        else:
            kwargs["initial_velocity"] = self.v0
        if self.kind == "temperature":
            kwargs["initial_temperature"] = flat(self.case["t0"])
        if "piezo" in self.kind:
            kwargs["initial_electric_potential"] = flat(self.case["p0"])
        return {key: self.wrap(value) for key, value in kwargs.items()}

    def solve(self, n_steps, output_step=None, **kwargs):
        arguments = {**self.initial(), **kwargs}
        return list(self.solver.solve(n_steps=n_steps, output_step=output_step, **arguments))

    def run(self):
        """Every step of the simulation, the initial state first, as dictionaries."""
        steps = self.case["steps"]
        options = self.case.get("options", {})
        states = self.solve(steps, output_step=tuple(range(1, steps + 1)), **options)
        return [self.start()] + [self.read(state) for state in states]

    def start(self):
        nodes = np.asarray(self.solver.body.mesh.nodes, dtype=float)
        result = {"time": 0.0, "u": self.u0(nodes), "v": self.v0(nodes), "b": self.b0(nodes)}
        result["t"] = flat(self.case.get("t0"))(nodes)
        result["p"] = flat(self.case.get("p0"))(nodes)
        return result

    def read(self, state):
        result = {
            "time": float(state.time),
            "u": np.array(state.displacement, dtype=float),
            "v": np.array(state.velocity, dtype=float),
            "b": np.array(state.absement, dtype=float),
        }
        if self.kind == "temperature":
            result["t"] = np.array(state.temperature, dtype=float)
        if "piezo" in self.kind:
            result["p"] = np.array(state.electric_potential, dtype=float)
        return result

    # --------------------------------------------------------------------------- reference

    def prepare(self, weights=None):
        """Operators; weights of elements multiply the material (but not the mass)."""
        fem, case = self.setup.fem, self.case
        self.material = material = fem.weighted(weights)
        self.mass = fem.mass()
        if self.kind == "wave":
            self.stiffness = case["speed"] ** 2 * material.laplacian()
            return
        self.elastic = material.elasticity(case["mu"], case["lam"])
        self.viscous = material.elasticity(case["th"], case["ze"])
        self.inertia = fem.block_diagonal(self.mass)
        if self.kind == "temperature":
            self.conduction = material.diffusion(case["conductivity"])
            self.expansion = np.hstack(
                [
                    sum(case["expansion"][i][k] * fem.advection(k) for k in range(self.dim))
                    for i in range(self.dim)
                ]
            )
        if "piezo" in self.kind:
            self.inertia = 0.1 * self.inertia
            self.permittivity = material.diffusion(case["permittivity"])
            self.piezo = np.hstack(
                [material.diffusion(case["piezo"][0]), material.diffusion(case["piezo"][1])]
            )
            faces = sorted(fem.boundary_faces())
            self.p_fixed, self.p_values = [], []
            for k, value in enumerate(case["electrodes"]):
                on = self.electrode(k)
                chosen = {
                    n for f in faces if on(fem.nodes[list(f)].mean(axis=0)) for n in f
                } - set(self.p_fixed)
                self.p_fixed += sorted(chosen)
                self.p_values += sim.condition(value)(fem.nodes[sorted(chosen)]).tolist()

    def step(self, old):
        """
        The state after one step, from the state before it: dictionary with the unknown of the
        step ("v" or "u"), the rest of the state and "residual" of the reference solution.
        """
        setup, dt = self.setup, self.dt
        if self.kind in ("temperature", "piezo", "dynamic piezo"):
            return self.coupled_step(old)
        matrix, rhs, contact = self.system(old)
        solution, residual = ref.minimise(matrix, rhs, contact, setup.fixed, setup.values)
        active = contact.active_samples(solution)[0] if contact is not None else 0
        field = np.zeros_like(old["u"])
        field[:, : self.comps] = ref.unstacked(solution, self.comps)
        new = {"time": old["time"] + dt, "residual": residual, "active": active, **_keep(old)}
        new["slack"] = ref.tolerance(0.0, matrix, contact, solution, setup.fixed)
        if self.kind == "relaxation":
            new.update(u=field, b=old["b"] + dt * field)
        else:
            new.update(v=field, u=old["u"] + dt * field)
        return new

    def system(self, old):
        """Matrix, right-hand side and contact energy of the step which starts from ``old``."""
        setup, dt = self.setup, self.dt
        load = setup.load(old["time"])
        if self.kind == "wave":
            u, v = old["u"][:, 0], old["v"][:, 0]
            matrix = self.mass / dt + dt * self.stiffness
            rhs = load - self.stiffness @ u + self.mass @ v / dt
            static = old["u"][:, :1]
        else:
            u, v, b = (ref.stacked(old[k]) for k in ("u", "v", "b"))
            static = old["u"]
            if self.kind == "quasistatic":
                matrix = self.viscous + dt * self.elastic
                rhs = load - self.elastic @ u
            elif self.kind == "dynamic":
                matrix = self.viscous + self.inertia / dt + dt * self.elastic
                rhs = load - self.elastic @ u + self.inertia @ v / dt
            else:
                relaxing = self.relaxing(old["time"])
                matrix = self.elastic + dt * relaxing
                rhs = load - relaxing @ b
        if self.case.get("interior"):
            contact = Interior(self.mass, setup.law, old["u"][:, 0], dt)
        else:
            contact = setup.contact(static=static, dt=dt)
        return matrix, rhs, contact

    def relaxing(self, time):
        """The operator of sigma_ij = sum_kl c_ijkl d_l u_k with the tensor at a time."""
        fem, c = self.material, relaxation(self.case["relax"], time)
        blocks = []
        for i in range(2):
            diagonal = fem.diffusion(np.diag(np.diag(c[i])))
            mixed = fem.diffusion(c[i] - np.diag(np.diag(c[i])))
            blocks.append([diagonal, mixed] if i == 0 else [mixed, diagonal])
        return np.block(blocks)

    def coupled_step(self, old):
        setup, dt, case = self.setup, self.dt, self.case
        time = old["time"] + dt
        u, v = ref.stacked(old["u"]), ref.stacked(old["v"])
        load = setup.load(time) - self.elastic @ u
        if self.kind == "piezo":
            matrix = self.viscous + dt * self.elastic
        else:
            matrix = self.viscous + self.inertia / dt + dt * self.elastic
            load = load + self.inertia @ v / dt
        contact = setup.contact(static=old["u"], dt=dt)
        contact2 = None
        if self.law2 is not None:
            contact2 = ref.Contact(
                setup.fem, setup.groups["contact"], self.law2, None, dt, variable_dim=1
            )
        if self.kind == "temperature":
            second = self.mass / dt + self.conduction
            fixed = np.array(setup.dirichlet_nodes, dtype=int)
            values = setup.values[: len(fixed)]
            key = "t"
        else:
            second = self.permittivity
            fixed, values = np.array(self.p_fixed, dtype=int), np.array(self.p_values)
            key = "p"
        w = old[key].copy()
        velocity, rates, worst = v, [], 0.0
        for _ in range(60):
            coupling = self.expansion.T @ w if key == "t" else -self.piezo.T @ w
            velocity, r1 = ref.minimise(
                matrix, load + coupling, contact, setup.fixed, setup.values, start=velocity
            )
            if key == "t":
                rhs = self.mass @ old["t"] / dt - self.expansion @ velocity
            else:
                rhs = self.piezo @ (u + dt * velocity)
            new_w, r2 = ref.minimise(second, rhs, contact2, fixed, values, start=w)
            change = np.linalg.norm(new_w - w)
            rates.append(change)
            w, worst = new_w, max(r1, r2)
            if change <= 1e-12 * (1e-12 + np.linalg.norm(w)):
                break
        rate = max(
            [b / a for a, b in zip(rates[1:4], rates[2:5]) if a > 1e-10 * (1 + rates[0])],
            default=0.0,
        )
        field = ref.unstacked(velocity, self.comps)
        new = {"time": time, "residual": worst, "rate": rate, **_keep(old)}
        new["slack"] = ref.tolerance(0.0, matrix, contact, velocity, setup.fixed)
        new["active"] = contact.active_samples(velocity)[0] if contact is not None else 0
        new["active2"] = contact2.active_samples(w)[0] if contact2 is not None else 0
        new.update(v=field, u=old["u"] + dt * field)
        new[key] = w
        return new


class Interior:
    """0.5 sum_i (M 1)_i p(v_i, u_i, dt): contact of a whole membrane."""

    def __init__(self, mass, law, displacement, dt):
        self.weights = mass.sum(axis=0)
        self.law, self.displacement, self.dt = law, displacement, dt

    def evaluate(self, v):
        energy, grad, hess = 0.0, np.zeros(len(v)), np.zeros(len(v))
        for i, (value, u) in enumerate(zip(v, self.displacement)):
            e, d, dd = self.law.interior(value, u, self.dt)
            energy += self.weights[i] * e
            grad[i] = self.weights[i] * d
            hess[i] = self.weights[i] * dd
        return energy, grad, np.diag(hess)

    def active_samples(self, v):
        _, grad, _ = self.evaluate(v)
        return int(np.sum(np.abs(grad) > 1e-12)), len(v)


def _keep(old):
    return {k: old[k] for k in ("u", "v", "b", "t", "p") if k in old}


# ---------------------------------------------------------------------------- shared checks

RTOL, ATOL = 1e-3, 1e-6
COUPLED_RTOL = 5e-3


def atol(slack, size):
    """Absolute tolerance: differences have absolute steps, so that small solutions have it too."""
    return (ATOL + min(0.1 * slack, 1e-4)) * np.sqrt(size)


def verify_history(simulation, history, ctx):
    """Every step solves its equations, starting from the state before it."""
    from pbt.core import check

    kind, dt, case = simulation.kind, simulation.dt, simulation.case
    unknown = "u" if kind == "relaxation" else "v"
    check(
        len(history) == case["steps"] + 1,
        lambda: f"{len(history) - 1} states for {case['steps']} output steps",
    )
    active = moved = 0
    for k, (old, new) in enumerate(zip(history, history[1:])):
        expected = simulation.step(old)
        if not np.isfinite(expected["residual"]) or expected["residual"] > 1e-7:
            ctx.label("reference did not converge")
            return
        if expected.get("rate", 0.0) > 0.02:
            ctx.label("strong coupling")
        if expected.get("rate", 0.0) > 0.2:
            ctx.label("weakly contracting coupling")
            return
        where = f"step {k + 1} of {case['steps']}, {kind}, {case['method']}"
        check(
            abs(new["time"] - (k + 1) * dt) < 1e-9,
            lambda: f"{where}: time {new['time']}, expected {(k + 1) * dt}",
        )
        keys = [unknown] + [x for x in ("t", "p") if x in new]
        for key in keys:
            rtol = (RTOL if "rate" not in expected else COUPLED_RTOL) + expected["slack"]
            check(
                cm.close(
                    new[key], expected[key], rtol, atol(expected["slack"], expected[key].size)
                ),
                lambda: f"{where}: {key} is off by {cm.distance(new[key], expected[key])}",
            )
        if unknown == "v":
            check(
                cm.close(new["u"], old["u"] + dt * new["v"], 1e-9, 1e-10),
                f"{where}: displacement is not the integral of velocity",
            )
        else:
            check(
                cm.close(new["b"], old["b"] + dt * new["u"], 1e-9, 1e-10),
                f"{where}: absement is not the integral of displacement",
            )
        active += expected["active"]
        moved += np.linalg.norm(expected[unknown]) > 1e-4
    ctx.label(kind, case["method"], f"law {case['law']}", "contact" if active else "no contact")
    if simulation.setup.touching:
        ctx.label("contact meets dirichlet")
    if case["value"] is not None:
        ctx.label("prescribed values")
    ctx.nontrivial(moved and case["steps"] >= 2)


def history_body(case, ctx):
    simulation = Simulation(case)
    if simulation.setup.straddling:
        ctx.label("straddling face, skipped")
        return
    verify_history(simulation, simulation.run(), ctx)
