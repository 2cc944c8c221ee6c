"""
Access to the code under test: descriptions and problems built from JSON cases through its public
API, and a memo for the numba closures which conmech compiles anew for each solver.
"""

import functools
from dataclasses import dataclass

import numpy as np

from pbt import ref

TOL = 1e-9


# ------------------------------------------------------------------------------ speeding up


@functools.lru_cache(maxsize=None)
def speed_up():
    """
    The factories of jitted functions are pure functions of the law functions and dimensions.
    Compiling takes seconds, so keep one compiled function per distinct set of arguments (the
    laws of pbt.laws are created once, so their functions are the same objects).  Applies only
    where the factory still exists under its name; without it checks are slower, not different.
    """
    import importlib

    for module_name, names in (
        ("conmech.solvers.optimization.optimization", ("make_cost_functional", "make_subgradient", "make_equation")),
        ("conmech.solvers.direct", ("make_equation",)),
    ):
        try:
            module = importlib.import_module(module_name)
        except ImportError:
            continue
        for name in names:
            original = getattr(module, name, None)
            if callable(original):
                setattr(module, name, _memo(original))


def _memo(original):
    cache = {}

    @functools.wraps(original)
    def wrapped(*args, **kwargs):
        key = (args, tuple(sorted(kwargs.items())))
        try:
            return cache[key]
        except KeyError:
            result = cache[key] = original(*args, **kwargs)
            return result
        except TypeError:
            return original(*args, **kwargs)

    return wrapped


# ----------------------------------------------------------------------------------- meshes


@functools.lru_cache(maxsize=None)
def _description_class():
    from conmech.mesh.zoo.raw_mesh import RawMesh
    from conmech.properties.mesh_description import MeshDescription

    @dataclass
    class GivenMeshDescription(MeshDescription):
        nodes: object = None
        elements: object = None

        def build(self):
            return RawMesh(
                np.array(self.nodes, dtype=float), np.array(self.elements, dtype=np.int64)
            )

    return GivenMeshDescription


def mesh_description(mesh, position=None):
    return _description_class()(
        initial_position=None if position is None else np.array(position, dtype=float),
        nodes=mesh["nodes"],
        elements=mesh["elements"],
    )


def boundaries(**kwargs):
    from conmech.mesh.boundaries_description import BoundariesDescription

    return BoundariesDescription(**kwargs)


def make_mesh(mesh, position=None, **kwargs):
    from conmech.mesh.mesh import Mesh

    return Mesh(mesh_description(mesh, position), boundaries(**kwargs))


# ---------------------------------------------------------------------------- box-like bodies


class Frame:
    """
    Rotation / mirror / shift of a grid-like body whose untransformed lower corner is the origin;
    membership in its sides is decided in untransformed coordinates with a tolerance.
    """

    def __init__(self, mesh, angle=0.0, mirror=False, shift=(0.0, 0.0)):
        self.base = np.array(mesh["nodes"], dtype=float)
        dim = self.base.shape[1]
        self.size = self.base.max(axis=0)
        self.matrix = np.eye(dim)
        if angle:
            c, s = np.cos(angle), np.sin(angle)
            self.matrix[:2, :2] = [[c, -s], [s, c]]
        if mirror:
            self.matrix = self.matrix @ np.diag([-1.0] + [1.0] * (dim - 1))
        self.shift = np.zeros(dim)
        self.shift[: len(shift)] = shift
        self.mesh = {
            "nodes": (self.base @ self.matrix.T + self.shift).tolist(),
            "elements": mesh["elements"],
        }

    def back(self, x):
        return (np.asarray(x) - self.shift) @ self.matrix

    def on(self, spec):
        """spec: list of [axis, "min"|"max", cut or None]: the part of a side with coordinate
        (axis + 1) % dim at most cut; or the string "all"."""
        if spec == "all":
            return lambda x: True
        sides = []
        for axis, end, cut in spec:
            value = 0.0 if end == "min" else self.size[axis]
            sides.append((axis, value, cut))

        def predicate(x):
            y = self.back(x)
            for axis, value, cut in sides:
                if abs(y[axis] - value) < TOL:
                    if cut is None or y[(axis + 1) % len(y)] <= cut + TOL:
                        return True
            return False

        return predicate


def classes(mesh, is_contact, is_dirichlet):
    """Reference classification of a reordered conmech mesh: faces and nodes, by definition."""
    fem = ref.P1(mesh.nodes, mesh.elements)
    faces = fem.boundary_faces()
    groups = {"contact": [], "dirichlet": [], "neumann": []}
    for face in sorted(faces):
        centre = fem.nodes[list(face)].mean(axis=0)
        c, d = bool(is_contact(centre)), bool(is_dirichlet(centre))
        if c:
            groups["contact"].append(face)
        if d:
            groups["dirichlet"].append(face)
        if not c and not d:
            groups["neumann"].append(face)
    on_boundary = sorted({n for f in faces for n in f})
    dirichlet = [n for n in on_boundary if is_dirichlet(fem.nodes[n])]
    contact = [n for n in on_boundary if is_contact(fem.nodes[n]) and n not in set(dirichlet)]
    return fem, groups, contact, dirichlet


def dofs(nodes, n, dim):
    nodes = np.asarray(nodes, dtype=int)
    return np.concatenate([nodes + i * n for i in range(dim)]) if len(nodes) else np.zeros(0, int)


# ------------------------------------------------------------------------------- field specs


def field(spec):
    """
    JSON spec of a vector field of space and time -> f(x, t): constant part times a time profile
    plus a linear part.  {"c": [..], "a": [[..]] or None, "t": [p, q]} : (c + A x)(1 + p t + q t^2)
    """
    c = np.array(spec["c"], dtype=float)
    a = None if spec.get("a") is None else np.array(spec["a"], dtype=float)
    p, q = spec.get("t") or (0.0, 0.0)

    def f(x, t=None):
        t = 0.0 if t is None else t
        base = c if a is None else c + a @ np.asarray(x)
        return base * (1.0 + p * t + q * t * t)

    return f


def make_problem(base, mesh, bounds, attributes, **kwargs):
    """An instance of a fresh subclass of a conmech problem class."""
    members = {
        key: staticmethod(value) if callable(value) and not isinstance(value, type) else value
        for key, value in attributes.items()
    }
    cls = type("Generated" + base.__name__, (base,), members)
    return cls(mesh_descr=mesh, boundaries=bounds, **kwargs)


def close(a, b, rtol, atol=0.0):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape or not np.all(np.isfinite(a)):
        return False
    return bool(np.linalg.norm(a - b) <= rtol * np.linalg.norm(b) + atol)


def distance(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return f"shapes {a.shape} and {b.shape}"
    return f"{np.linalg.norm(a - b):.3e} (norm {np.linalg.norm(b):.3e})"
