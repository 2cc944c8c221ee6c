"""
A fixed pool of contact laws: each is a conmech law (functions which numba can compile) together
with an independent description of its energy density and derivatives for pbt.ref.Contact.

density(nu, tau, snu, stau, dt) -> e, de/dnu, de/dtau, d2e/dnu2, d2e/dtau2
"""

import functools

import numpy as np


class RefLaw:
    """normal: convex C1 function of nu; friction: coefficient of sqrt(|tau|^2 + eps^2) - eps."""

    def __init__(self, normal, friction=None, eps=1e-2):
        self.normal, self.friction, self.eps = normal, friction, eps

    def density(self, nu, tau, snu, stau, dt):
        e, e_n, e_nn = self.normal(nu, snu, dt)
        e_t, e_tt = np.zeros_like(tau), np.zeros((len(tau), len(tau)))
        if self.friction is not None and len(tau):
            bound = self.friction(snu, dt)
            root = float(np.sqrt(tau @ tau + self.eps**2))
            e += bound * (root - self.eps)
            e_t = bound * tau / root
            e_tt = bound * (np.eye(len(tau)) / root - np.outer(tau, tau) / root**3)
        return e, e_n, e_t, e_nn, e_tt


def _spring(slope, gap=0.0):
    def normal(nu, snu, dt):
        d = nu - gap
        if d <= 0:
            return 0.0, 0.0, 0.0
        return 0.5 * slope * d * d, slope * d, slope

    return normal


def _scaled(normal, factor):
    def result(nu, snu, dt):
        return tuple(factor(snu, dt) * part for part in normal(nu, snu, dt))

    return result


def _implicit(slope, gap):
    """Potential in velocity of a response to displacement snu + dt nu."""

    def normal(nu, snu, dt):
        d = snu + dt * nu - gap
        if d <= 0:
            return 0.0, 0.0, 0.0
        return 0.5 * slope * d * d / dt, slope * d, slope * dt

    return normal


def _damped(obstacle, kappa, beta):
    """0.5 nu (kappa (snu + nu dt - g) + beta nu) where snu + nu dt >= g (convex for snu = ...)."""

    def normal(nu, snu, dt):
        if snu + nu * dt < obstacle:
            return 0.0, 0.0, 0.0
        a = kappa * (snu - obstacle)
        b = kappa * dt + beta
        return 0.5 * nu * (a + b * nu), 0.5 * a + b * nu, b

    return normal


@functools.lru_cache(maxsize=None)
def law(name):
    """(conmech law class, RefLaw)"""
    from conmech.dynamics.contact.contact_law import PotentialOfContactLaw
    from conmech.dynamics.contact.relu_slope_contact_law import make_slope_contact_law

    if name.startswith("relu"):
        slope = float(name[4:])
        return make_slope_contact_law(slope), RefLaw(_spring(slope))

    if name == "gap":

        class Gap(PotentialOfContactLaw):
            @staticmethod
            def potential_normal_direction(
                var_nu: float, static_displacement_nu: float, dt: float
            ) -> float:
                if var_nu <= 0.02:
                    return 0.0
                return 0.5 * 40.0 * (var_nu - 0.02) ** 2

        return Gap, RefLaw(_spring(40.0, 0.02))

    if name == "early":  # responds before the boundary moves outwards

        class Early(PotentialOfContactLaw):
            @staticmethod
            def potential_normal_direction(
                var_nu: float, static_displacement_nu: float, dt: float
            ) -> float:
                if var_nu <= -0.05:
                    return 0.0
                return 0.5 * 12.0 * (var_nu + 0.05) ** 2

        return Early, RefLaw(_spring(12.0, -0.05))

    if name == "friction":

        class Friction(PotentialOfContactLaw):
            @staticmethod
            def potential_normal_direction(
                var_nu: float, static_displacement_nu: float, dt: float
            ) -> float:
                if var_nu <= 0:
                    return 0.0
                return 0.5 * 30.0 * var_nu**2

            @staticmethod
            def potential_tangential_direction(
                var_tau: float, static_displacement_tau: float, dt: float
            ) -> float:
                return np.sqrt(np.sum(var_tau * var_tau) + 1e-4) - 1e-2

            @staticmethod
            def tangential_bound(
                var_nu: float, static_displacement_nu: float, dt: float
            ) -> float:
                return 0.6

        return Friction, RefLaw(_spring(30.0), lambda snu, dt: 0.6)

    if name == "bounds":  # bounds which depend on the static displacement

        class Bounds(PotentialOfContactLaw):
            @staticmethod
            def normal_bound(var_nu: float, static_displacement_nu: float, dt: float) -> float:
                return 2.0 + 50.0 * static_displacement_nu**2

            @staticmethod
            def potential_normal_direction(
                var_nu: float, static_displacement_nu: float, dt: float
            ) -> float:
                if var_nu <= 0:
                    return 0.0
                return 0.5 * 8.0 * var_nu**2

            @staticmethod
            def potential_tangential_direction(
                var_tau: float, static_displacement_tau: float, dt: float
            ) -> float:
                return np.sqrt(np.sum(var_tau * var_tau) + 1e-4) - 1e-2

            @staticmethod
            def tangential_bound(
                var_nu: float, static_displacement_nu: float, dt: float
            ) -> float:
                return 0.3 + 0.5 * abs(static_displacement_nu)

        return Bounds, RefLaw(
            _scaled(_spring(8.0), lambda snu, dt: 2.0 + 50.0 * snu**2),
            lambda snu, dt: 0.3 + 0.5 * abs(snu),
        )

    if name == "implicit":

        class Implicit(PotentialOfContactLaw):
            @staticmethod
            def potential_normal_direction(
                var_nu: float, static_displacement_nu: float, dt: float
            ) -> float:
                d = static_displacement_nu + dt * var_nu - 0.01
                if d <= 0:
                    return 0.0
                return 0.5 * 60.0 * d**2 / dt

        return Implicit, RefLaw(_implicit(60.0, 0.01))

    if name == "winkler":  # an elastic bed: responds in both directions

        class Winkler(PotentialOfContactLaw):
            @staticmethod
            def potential_normal_direction(
                var_nu: float, static_displacement_nu: float, dt: float
            ) -> float:
                return 0.5 * 9.0 * var_nu**2

        return Winkler, RefLaw(lambda nu, snu, dt: (4.5 * nu * nu, 9.0 * nu, 9.0))

    if name == "damped":  # not smooth: only for pointwise comparison of energies
        from conmech.dynamics.contact.damped_normal_compliance import make_damped_norm_compl

        return make_damped_norm_compl(0.02, 15.0, 3.0), RefLaw(_damped(0.02, 15.0, 3.0))

    if name == "const":
        from conmech.dynamics.contact.constant_constact_law import make_const_contact_law

        def normal(nu, snu, dt):
            return (0.0, 0.0, 0.0) if nu <= 0 else (7.0 * nu * snu, 7.0 * snu, 0.0)

        return make_const_contact_law(7.0), RefLaw(normal)

    if name == "far":  # never reached

        class Far(PotentialOfContactLaw):
            @staticmethod
            def potential_normal_direction(
                var_nu: float, static_displacement_nu: float, dt: float
            ) -> float:
                if var_nu <= 1e3:
                    return 0.0
                return 0.5 * (var_nu - 1e3) ** 2

        return Far, RefLaw(_spring(1.0, 1e3))

    if name == "interior":  # acts inside a membrane; used as an instance
        from conmech.dynamics.contact.interior_contact_law import InteriorContactLaw

        class Inside(InteriorContactLaw):
            @staticmethod
            def potential_normal_direction(
                var_nu: float, static_displacement_nu: float, dt: float
            ) -> float:
                d = static_displacement_nu + dt * var_nu - 0.01
                if d <= 0:
                    return 0.0
                return 0.5 * 60.0 * d**2 / dt

        result = RefLaw(_implicit(60.0, 0.01))
        result.interior = _scaled(_implicit(60.0, 0.01), lambda snu, dt: 0.5)
        return Inside(), result

    raise KeyError(name)


STATIC = ["relu5", "relu80", "gap", "early", "friction"]
RATE = ["relu5", "relu80", "gap", "early", "friction", "bounds", "implicit"]
SCALAR = ["relu5", "relu80", "gap", "early", "implicit"]
POINTWISE = RATE + ["damped", "const"]
