"""
Independent reference: P1 finite elements, boundary geometry, contact energy and a semismooth
Newton minimiser.  Written from the textbook definitions, without looking at how conmech
assembles: gradients by solving the Vandermonde system, elasticity by Voigt B matrices.

Vectors of d-dimensional fields are stacked by component: [x of all nodes, y of all nodes, ...].
"""

import copy
import itertools
import math

import numpy as np


class P1:
    def __init__(self, nodes, elements):
        self.nodes = np.asarray(nodes, dtype=float)
        self.elements = np.asarray(elements, dtype=int)
        self.n, self.dim = self.nodes.shape
        self.volumes = np.empty(len(self.elements))
        self.gradients = []  # per element: (dim + 1) x dim
        for k, element in enumerate(self.elements):
            points = self.nodes[element]
            vander = np.hstack((np.ones((self.dim + 1, 1)), points))
            self.volumes[k] = abs(np.linalg.det(vander)) / math.factorial(self.dim)
            self.gradients.append(np.linalg.solve(vander, np.eye(self.dim + 1))[1:].T)

    # ------------------------------------------------------------------ scalar matrices

    def mass(self):
        result = np.zeros((self.n, self.n))
        d = self.dim
        local = (np.ones((d + 1, d + 1)) + np.eye(d + 1)) / ((d + 1) * (d + 2))
        for element, volume in zip(self.elements, self.volumes):
            result[np.ix_(element, element)] += volume * local
        return result

    def advection(self, axis):
        """int phi_i d_axis phi_j"""
        result = np.zeros((self.n, self.n))
        for element, volume, grad in zip(self.elements, self.volumes, self.gradients):
            result[np.ix_(element, element)] += np.outer(
                np.full(self.dim + 1, volume / (self.dim + 1)), grad[:, axis]
            )
        return result

    def diffusion(self, tensor, weights=None):
        """int (T grad phi_j) . grad phi_i with T[k, l] multiplying d_k phi_i d_l phi_j"""
        tensor = np.asarray(tensor, dtype=float)
        result = np.zeros((self.n, self.n))
        for k, (element, volume, grad) in enumerate(
            zip(self.elements, self.volumes, self.gradients)
        ):
            weight = 1.0 if weights is None else weights[k]
            result[np.ix_(element, element)] += weight * volume * grad @ tensor @ grad.T
        return result

    def weighted(self, weights):
        """The same elements with the material multiplied by the weight of each of them."""
        result = copy.copy(self)
        if weights is not None:
            result.volumes = np.asarray(self.volumes) * np.asarray(weights)
        return result

    def laplacian(self):
        return self.diffusion(np.eye(self.dim))

    # ------------------------------------------------------------------ vector operators

    def _dofs(self, element):
        return np.concatenate([element + i * self.n for i in range(self.dim)])

    def strain_matrix(self, grad):
        """Voigt (engineering shear) strain of the field with components stacked."""
        m = self.dim + 1
        pairs = list(itertools.combinations(range(self.dim), 2))
        rows = self.dim + len(pairs)
        b = np.zeros((rows, self.dim * m))
        for i in range(self.dim):
            b[i, i * m : (i + 1) * m] = grad[:, i]
        for r, (i, j) in enumerate(pairs):
            b[self.dim + r, i * m : (i + 1) * m] = grad[:, j]
            b[self.dim + r, j * m : (j + 1) * m] = grad[:, i]
        return b

    def hooke(self, mu, lam):
        rows = self.dim + self.dim * (self.dim - 1) // 2
        result = np.zeros((rows, rows))
        result[: self.dim, : self.dim] = lam
        result[: self.dim, : self.dim] += 2 * mu * np.eye(self.dim)
        result[self.dim :, self.dim :] = mu * np.eye(rows - self.dim)
        return result

    def elasticity(self, mu, lam, weights=None):
        result = np.zeros((self.dim * self.n,) * 2)
        hooke = self.hooke(mu, lam)
        for k, (element, volume, grad) in enumerate(
            zip(self.elements, self.volumes, self.gradients)
        ):
            b = self.strain_matrix(grad)
            dofs = self._dofs(element)
            weight = 1.0 if weights is None else weights[k]
            result[np.ix_(dofs, dofs)] += weight * volume * b.T @ hooke @ b
        return result

    def block_diagonal(self, matrix):
        return np.kron(np.eye(self.dim), matrix)

    # ------------------------------------------------------------------------------ loads

    def body_load(self, values):
        """
        Nodal values (n x k) of a body force: every element gives each of its nodes the share
        |T| / (d + 1) times the mean of the force over the other nodes of that element.  Exact
        for constant forces; the total is exact for affine ones.
        """
        values = np.asarray(values, dtype=float)
        result = np.zeros_like(values)
        d = self.dim
        for element, volume in zip(self.elements, self.volumes):
            total = values[element].sum(axis=0)
            for node in element:
                result[node] += volume / (d + 1) * (total - values[node]) / d
        return result

    def face_measure(self, face):
        points = self.nodes[list(face)]
        if self.dim == 2:
            return float(np.linalg.norm(points[1] - points[0]))
        return 0.5 * float(np.linalg.norm(np.cross(points[1] - points[0], points[2] - points[0])))

    def surface_load(self, values, faces):
        values = np.asarray(values, dtype=float)
        result = np.zeros_like(values)
        for face in faces:
            share = self.face_measure(face) / self.dim
            for node in face:
                result[node] += share * values[node]
        return result

    # --------------------------------------------------------------------------- boundary

    def boundary_faces(self):
        """{sorted face: opposing node}"""
        owner = {}
        for element in self.elements:
            for k in range(self.dim + 1):
                face = tuple(sorted(int(n) for i, n in enumerate(element) if i != k))
                owner.setdefault(face, []).append(int(element[k]))
        return {face: nodes[0] for face, nodes in owner.items() if len(nodes) == 1}

    def outward_normal(self, face, opposing):
        points = self.nodes[list(face)]
        if self.dim == 2:
            t = points[1] - points[0]
            normal = np.array([t[1], -t[0]])
        else:
            normal = np.cross(points[1] - points[0], points[2] - points[0])
        normal = normal / np.linalg.norm(normal)
        if normal @ (self.nodes[opposing] - points.mean(axis=0)) > 0:
            normal = -normal
        return normal


def stacked(values):
    """n x d -> d n"""
    return np.asarray(values, dtype=float).T.reshape(-1)


def unstacked(vector, dim):
    return np.asarray(vector, dtype=float).reshape(dim, -1).T


# ---------------------------------------------------------------------------- contact energy


class Contact:
    """
    Sum over contact faces of  measure / (k + 1) * sum over {centroid, k vertices} e(...), where
    e is the energy density of the law.  ``variable_dim`` is 1 for scalar problems.
    """

    def __init__(self, fem, faces, law, static=None, dt=0.0, variable_dim=None, measure=None):
        self.fem, self.law, self.dt = fem, law, dt
        self.vdim = variable_dim or fem.dim
        owner = fem.boundary_faces()
        self.samples = []  # (weight, node indices, barycentric weights, normal, static value)
        for face in faces:
            face = tuple(sorted(int(n) for n in face))
            normal = fem.outward_normal(face, owner[face])
            length = measure(face) if measure else fem.face_measure(face)
            k = len(face)
            if static is None:
                value = np.zeros(self.vdim)
            else:
                value = np.asarray(static)[list(face)].mean(axis=0)
            bary = [np.full(k, 1 / k)] + [np.eye(k)[i] for i in range(k)]
            for b in bary:
                self.samples.append((length / (k + 1), face, b, normal, value))

    def _split(self, value, normal):
        if self.vdim == 1:
            return float(value[0]), np.zeros(0)
        nu = float(value @ normal)
        return nu, value - nu * normal

    def evaluate(self, vector):
        n, d = self.fem.n, self.vdim
        field = unstacked(vector, d)
        energy, grad = 0.0, np.zeros(n * d)
        hess = np.zeros((n * d, n * d))
        for weight, face, bary, normal, static in self.samples:
            value = bary @ field[list(face)]
            nu, tau = self._split(value, normal)
            snu, stau = self._split(static, normal)
            e, e_n, e_t, e_nn, e_tt = self.law.density(nu, tau, snu, stau, self.dt)
            energy += weight * e
            if d == 1:
                g, h = np.array([e_n]), np.array([[e_nn]])
            else:
                p = np.eye(d) - np.outer(normal, normal)
                g = e_n * normal + p @ e_t
                h = e_nn * np.outer(normal, normal) + p @ e_tt @ p
            dofs = [[node + i * n for i in range(d)] for node in face]
            for a, da in enumerate(dofs):
                if bary[a] == 0:
                    continue
                grad[da] += weight * bary[a] * g
                for b, db in enumerate(dofs):
                    if bary[b]:
                        hess[np.ix_(da, db)] += weight * bary[a] * bary[b] * h
        return energy, grad, hess

    def active_samples(self, vector):
        """How many samples have a non-zero response, and how many there are."""
        field = unstacked(vector, self.vdim)
        count = 0
        for _, face, bary, normal, static in self.samples:
            nu, tau = self._split(bary @ field[list(face)], normal)
            snu, stau = self._split(static, normal)
            _, e_n, e_t, *_ = self.law.density(nu, tau, snu, stau, self.dt)
            count += bool(abs(e_n) > 1e-12 or np.any(np.abs(e_t) > 1e-12))
        return count, len(self.samples)


class NoContact:
    def __init__(self, size):
        self.size = size

    def evaluate(self, _):
        return 0.0, np.zeros(self.size), np.zeros((self.size, self.size))


def minimise(matrix, rhs, contact, fixed, values, iterations=200, start=None):
    """
    argmin 0.5 v.Av - b.v + contact(v) with v[fixed] = values; semismooth Newton + Armijo.
    Returns (v, relative residual).
    """
    size = len(rhs)
    contact = contact or NoContact(size)
    free = np.setdiff1d(np.arange(size), fixed)
    v = np.zeros(size) if start is None else np.array(start, dtype=float)
    v[fixed] = values
    scale = np.linalg.norm(rhs) + np.linalg.norm(matrix[:, fixed] @ np.asarray(values)) + 1e-12

    def parts(v):
        e, g, h = contact.evaluate(v)
        mv = matrix @ v
        return 0.5 * v @ mv - rhs @ v + e, mv - rhs + g, matrix + h

    energy, grad, hess = parts(v)
    for _ in range(iterations):
        if not len(free) or np.linalg.norm(grad[free]) <= 1e-13 * scale:
            break
        step = np.linalg.solve(hess[np.ix_(free, free)], -grad[free])
        slope = grad[free] @ step
        t = 1.0
        while True:
            trial = v.copy()
            trial[free] += t * step
            new = parts(trial)
            if new[0] <= energy + 1e-4 * t * slope + 1e-14 * (abs(energy) + 1e-30) or t < 1e-10:
                break
            t /= 2
        if t < 1e-10:
            break
        v, (energy, grad, hess) = trial, new
    residual = np.linalg.norm(grad[free]) / scale if len(free) else 0.0
    return v, residual


def energy_of(matrix, rhs, contact, v):
    extra = contact.evaluate(v)[0] if contact else 0.0
    return 0.5 * v @ matrix @ v - rhs @ v + extra


def tolerance(base, matrix, contact, v, fixed):
    """
    Relative tolerance of a solution found by an optimiser which differentiates numerically: the
    error of forward differences (steps of 1.5e-8) is amplified by the condition number.
    """
    size = len(v)
    free = np.setdiff1d(np.arange(size), fixed)
    if not len(free):
        return base
    hessian = matrix + (contact.evaluate(v)[2] if contact is not None else 0.0)
    condition = max(np.linalg.cond(m[np.ix_(free, free)]) for m in (matrix, hessian))
    return base + min(2e-7 * condition, 0.05)


def minimise_bounded(matrix, rhs, contact, fixed, values, bounded, rounds=60):
    """As minimise, with v[bounded] >= 0, by a primal-dual active set."""
    bounded = np.setdiff1d(bounded, fixed)
    active = np.zeros(0, dtype=int)
    fixed, values = np.asarray(fixed, dtype=int), np.asarray(values, dtype=float)
    size = len(rhs)
    seen = set()
    for _ in range(rounds):
        both = np.concatenate((fixed, active)).astype(int)
        v, residual = minimise(
            matrix, rhs, contact, both, np.concatenate((values, np.zeros(len(active))))
        )
        grad = matrix @ v - rhs + (contact.evaluate(v)[1] if contact else np.zeros(size))
        stay = [i for i in active if grad[i] > -1e-10]
        new = np.array(sorted(set(stay) | {i for i in bounded if v[i] < -1e-12}), dtype=int)
        if np.array_equal(new, active):
            return v, residual
        if tuple(new) in seen:
            return v, np.inf
        seen.add(tuple(new))
        active = new
    return v, np.inf
