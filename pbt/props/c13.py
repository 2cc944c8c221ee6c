"""C13: steps of quasistatic problems with relaxation."""

from pbt import cm, model
from pbt.core import Test

RULE = (
    "Generated bodies, laws, relaxation kernels that change with time, initial absement and "
    "displacement, Schur and global method, 1 to 5 steps; every step is compared with the "
    "reference solution from the state before. Non-trivial: at least 2 steps, deformation."
)
ASSUMPTIONS = [
    "faces whose end nodes are not contact nodes are excluded; contact laws are C1 and convex",
    "global optimization only where contact faces have no dirichlet node (KF-d)",
]
SHARDS = 4


def prepare():
    cm.speed_up()


TESTS = [
    Test(
        "relaxation",
        lambda: model.history_case("relaxation", steps=5),
        model.history_body,
        quick=200,
        thorough=4000,
    ),
    Test(
        "long",
        lambda: model.long_case("relaxation", most=30),
        model.history_body,
        quick=12,
        thorough=200,
    ),
    Test(
        "large",
        lambda: model.large_case("relaxation"),
        model.history_body,
        quick=8,
        thorough=120,
    ),
]
