"""
Generated 2D mechanical bodies (mesh, frame, boundary classes, prescribed values, material, law,
loads) and the reference description of the discrete problem on the mesh which conmech built.
"""

import numpy as np
from hypothesis import strategies as st

from pbt import cm, gen, laws, ref

SIDES = [[0, "min"], [0, "max"], [1, "min"], [1, "max"]]


def vector_field(comps, dim=2, size=3.0, affine=True, time=False):
    @st.composite
    def build(draw):
        spec = {"c": [draw(gen.floats(-size, size, 2)) for _ in range(comps)], "a": None}
        if affine and draw(st.integers(0, 3)) == 0:
            spec["a"] = [
                [draw(gen.floats(-size / 2, size / 2, 1)) for _ in range(dim)]
                for _ in range(comps)
            ]
        spec["t"] = [draw(gen.floats(-2, 4, 1)), draw(gen.floats(-3, 3, 1))] if time else [0, 0]
        return spec

    return build()


@st.composite
def body2d(
    draw,
    law_pool=("relu5",),
    max_cells=3,
    time=False,
    comps=2,
    prescribed=True,
    touching=None,
    contact_required=False,
    dirichlet_required=True,
    load=3.0,
    holes=True,
    mesh=None,
):
    """
    touching: None: contact faces may or may not share nodes with dirichlet ones,
              False: they never do.
    """
    mesh = draw(mesh or gen.mesh2d(max_cells=max_cells, holes=holes))
    base = np.array(mesh["nodes"])
    size = base.max(axis=0)
    frame = {"angle": 0.0, "mirror": False, "shift": [0.0, 0.0]}
    if draw(st.integers(0, 2)) == 0:
        frame = {
            "angle": draw(gen.floats(-3, 3, 1)),
            "mirror": draw(st.booleans()),
            "shift": [draw(gen.floats(-2, 2, 1)), draw(gen.floats(-2, 2, 1))],
        }
    sides = draw(st.permutations(SIDES))
    if touching is False:
        # dirichlet on one side, contact at most on the opposite one
        dirichlet = [[*sides[0], None]]
        opposite = [sides[0][0], "max" if sides[0][1] == "min" else "min"]
        options = [[opposite]] if contact_required else [[opposite], [opposite], []]
        contact = draw(st.sampled_from(options))
    else:
        count = draw(st.sampled_from([1, 1, 1, 2]))
        dirichlet = [[*s, None] for s in sides[:count]]
        least = 1 if contact_required else 0
        contact = sides[count : count + draw(st.integers(least, 2))]
    if not dirichlet_required and draw(st.booleans()):
        dirichlet = []
    full = []
    for axis, end in contact:
        cut = None
        value = 0.0 if end == "min" else size[axis]
        along = np.unique(base[np.abs(base[:, axis] - value) < 1e-9][:, 1 - axis])
        if len(along) > 2 and draw(st.integers(0, 3)) == 0:
            cut = float(draw(st.sampled_from(along[1:-1].tolist())))
        full.append([axis, end, cut])
    everywhere = touching is not False and draw(st.integers(0, 9)) == 0
    case = {
        "mesh": mesh,
        "frame": frame,
        "dirichlet": dirichlet,
        "contact": "all" if everywhere else full,
        "law": draw(st.sampled_from(list(law_pool))),
        "mu": draw(gen.floats(1, 8, 1)),
        "lam": draw(gen.floats(0.5, 8, 1)),
        "inner": draw(vector_field(comps, size=load, time=time)),
        "outer": draw(vector_field(comps, size=load, time=time)),
        "value": None,
    }
    if prescribed and draw(st.integers(0, 2)) == 0:
        case["value"] = [draw(gen.floats(-0.2, 0.2, 2)) for _ in range(3)]
    return case


def condition(coefficients, dim=2):
    """Prescribed values at an array of nodes: affine, one number per node."""
    c = np.zeros(dim + 1) if coefficients is None else np.array(coefficients, dtype=float)
    return lambda x: c[0] + np.asarray(x) @ c[1:]


SIDES3 = [[axis, end] for axis in range(3) for end in ("min", "max")]


@st.composite
def body3d(draw, max_cells=2, time=False, dirichlet_required=True, load=3.0):
    """Boxes with voids; a contact part (of at most one side) which is never reached."""
    mesh = draw(gen.mesh3d(max_cells=max_cells))
    frame = {"angle": 0.0, "mirror": False, "shift": [0.0, 0.0, 0.0]}
    if draw(st.integers(0, 2)) == 0:
        frame = {
            "angle": draw(gen.floats(-3, 3, 1)),
            "mirror": draw(st.booleans()),
            "shift": [draw(gen.floats(-2, 2, 1)) for _ in range(3)],
        }
    sides = draw(st.permutations(SIDES3))
    count = draw(st.sampled_from([1, 1, 2]))
    dirichlet = [[*s, None] for s in sides[:count]]
    if not dirichlet_required and draw(st.booleans()):
        dirichlet = []
    case = {
        "mesh": mesh,
        "frame": frame,
        "dirichlet": dirichlet,
        "contact": [[*sides[count], None]] if draw(st.booleans()) else [],
        "law": draw(st.sampled_from([None, "far"])),
        "mu": draw(gen.floats(1, 8, 1)),
        "lam": draw(gen.floats(0.5, 8, 1)),
        "inner": draw(vector_field(3, dim=3, size=load, time=time)),
        "outer": draw(vector_field(3, dim=3, size=load, time=time)),
        "value": None,
    }
    if draw(st.integers(0, 2)) == 0:
        case["value"] = [draw(gen.floats(-0.2, 0.2, 2)) for _ in range(4)]
    return case


class Setup:
    """Everything conmech needs for the case, and the reference for the mesh it builds."""

    def __init__(self, case, comps=2):
        self.case, self.comps = case, comps
        self.frame = cm.Frame(case["mesh"], **case["frame"])
        self.is_contact = self.frame.on(case["contact"])
        self.is_dirichlet = self.frame.on(case["dirichlet"])
        self.dim = len(case["mesh"]["nodes"][0])
        self.value = condition(case["value"], self.dim)
        self.inner, self.outer = cm.field(case["inner"]), cm.field(case["outer"])
        self.law_class, self.law = laws.law(case["law"]) if case.get("law") else (None, None)

    def boundaries(self):
        dirichlet = self.is_dirichlet
        if self.case["value"] is not None:
            dirichlet = (dirichlet, self.value)
        return cm.boundaries(contact=self.is_contact, dirichlet=dirichlet)

    def description(self):
        return cm.mesh_description(self.frame.mesh)

    def look_at(self, mesh):
        """Reference data of the mesh which conmech built (its numbering)."""
        self.fem, self.groups, self.contact_nodes, self.dirichlet_nodes = cm.classes(
            mesh, self.is_contact, self.is_dirichlet
        )
        n = self.fem.n
        self.fixed = cm.dofs(self.dirichlet_nodes, n, self.comps)
        nodal = self.value(self.fem.nodes[self.dirichlet_nodes]) if self.dirichlet_nodes else []
        self.values = np.tile(nodal, self.comps) if len(nodal) else np.zeros(0)
        return self

    def load(self, time):
        inner = np.array([self.inner(x, time) for x in self.fem.nodes])
        outer = np.array([self.outer(x, time) for x in self.fem.nodes])
        total = self.fem.body_load(inner) + self.fem.surface_load(outer, self.groups["neumann"])
        return ref.stacked(total)

    def contact(self, static=None, dt=0.0):
        if self.law is None or self.dim == 3:  # 3D: never reached
            return None
        return ref.Contact(
            self.fem, self.groups["contact"], self.law, static, dt, variable_dim=self.comps
        )

    @property
    def touching(self):
        fixed = set(self.dirichlet_nodes)
        return any(fixed & set(f) for f in self.groups["contact"])

    @property
    def straddling(self):
        """A contact face with a node which is neither contact nor dirichlet."""
        known = set(self.contact_nodes) | set(self.dirichlet_nodes)
        return any(set(f) - known for f in self.groups["contact"])
