"""C15: steps of thermo-mechanical problems."""

from pbt import cm, model
from pbt.core import Test

RULE = (
    "Generated bodies, thermal expansion and conductivity tensors, laws for motion and for heat "
    "exchange, initial fields, loads, Schur and global method; every step is compared with the "
    "fixed point of the coupled equations. "
    "Tests named slight: small loads and strong coupling; named space: 3D boxes with voids. Non-trivial: at least 2 steps, motion."
)
ASSUMPTIONS = [
    "faces whose end nodes are not contact nodes are excluded; contact laws are C1 and convex",
    "global optimization only where contact faces have no dirichlet node (KF-d)",
    "coupling iterations contract at least five times per iteration (else skipped)",
]
SHARDS = 4


def prepare():
    cm.speed_up()


TESTS = [
    Test(
        "temperature",
        lambda: model.history_case("temperature", steps=3),
        model.history_body,
        quick=160,
        thorough=3000,
    ),
    Test(
        "slight",
        lambda: model.history_case("temperature", steps=2, scales=(0.003, 0.01, 0.03), strong=True),
        model.history_body,
        quick=80,
        thorough=1500,
    ),
    Test(
        "space",
        lambda: model.history_case3("temperature", steps=2),
        model.history_body,
        quick=24,
        thorough=400,
    ),
    Test(
        "long",
        lambda: model.long_case("temperature", most=14),
        model.history_body,
        quick=12,
        thorough=200,
    ),
    Test(
        "large",
        lambda: model.large_case("temperature"),
        model.history_body,
        quick=8,
        thorough=120,
    ),
]
