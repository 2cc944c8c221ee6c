"""C16: steps of electro-mechanical problems."""

from pbt import cm, model
from pbt.core import Test

RULE = (
    "Generated bodies, piezoelectric and permittivity tensors, one or two electrodes, laws for "
    "motion and for charge, initial fields, loads, quasistatic and dynamic, Schur and global "
    "method; every step is compared with the fixed point of the coupled equations. "
    "Tests named slight: small loads and strong coupling. Non-trivial: "
    "at least 2 steps, motion."
)
ASSUMPTIONS = [
    "faces whose end nodes are not contact nodes are excluded; contact laws are C1 and convex",
    "global optimization only where contact faces have no dirichlet node (KF-d)",
    "coupling iterations contract at least five times per iteration (else skipped)",
]
SHARDS = 4


def prepare():
    cm.speed_up()


TESTS = [
    Test(
        "quasistatic",
        lambda: model.history_case("piezo", steps=3),
        model.history_body,
        quick=100,
        thorough=2000,
    ),
    Test(
        "dynamic",
        lambda: model.history_case("dynamic piezo", steps=3),
        model.history_body,
        quick=100,
        thorough=2000,
    ),
    Test(
        "slight piezo",
        lambda: model.history_case("piezo", steps=2, scales=(0.003, 0.01, 0.03), strong=True),
        model.history_body,
        quick=50,
        thorough=1000,
    ),
    Test(
        "slight dynamic piezo",
        lambda: model.history_case("dynamic piezo", steps=2, scales=(0.003, 0.01, 0.03), strong=True),
        model.history_body,
        quick=50,
        thorough=1000,
    ),
    Test(
        "long_piezo",
        lambda: model.long_case("piezo", most=14),
        model.history_body,
        quick=12,
        thorough=200,
    ),
    Test(
        "large_piezo",
        lambda: model.large_case("piezo"),
        model.history_body,
        quick=8,
        thorough=120,
    ),
    Test(
        "long_dynamic_piezo",
        lambda: model.long_case("dynamic piezo", most=14),
        model.history_body,
        quick=12,
        thorough=200,
    ),
    Test(
        "large_dynamic_piezo",
        lambda: model.large_case("dynamic piezo"),
        model.history_body,
        quick=8,
        thorough=120,
    ),
]
