"""C12: steps of viscoelastic quasistatic and dynamic contact problems."""

from hypothesis import strategies as st

from pbt import cm, model
from pbt.core import Test

RULE = (
    "Generated bodies (meshes, boundary parts, prescribed values, materials, smooth contact laws "
    "with and without friction), time steps, time-dependent loads, initial displacement and "
    "velocity, Schur and global method, 1 to 4 steps; every step is compared with the reference "
    "solution of its equations from the state before; likewise 3D boxes with voids (contact not "
    "reached). Non-trivial: at least 2 steps, motion."
)
ASSUMPTIONS = [
    "faces whose end nodes are not contact nodes are excluded; contact laws are C1 and convex",
    "global optimization only where contact faces have no dirichlet node (KF-d)",
    "3D: contact that responds is excluded (KF-a, KF-b)",
]
SHARDS = 4


def prepare():
    cm.speed_up()


TESTS = [
    Test(
        "quasistatic",
        lambda: model.history_case("quasistatic"),
        model.history_body,
        quick=120,
        thorough=2500,
    ),
    Test(
        "dynamic", lambda: model.history_case("dynamic"), model.history_body, quick=120, thorough=2500
    ),
    Test(
        "space",
        lambda: st.sampled_from(["quasistatic", "dynamic"]).flatmap(model.history_case3),
        model.history_body,
        quick=32,
        thorough=600,
    ),
    Test(
        "long_quasistatic",
        lambda: model.long_case("quasistatic", most=30),
        model.history_body,
        quick=12,
        thorough=200,
    ),
    Test(
        "large_quasistatic",
        lambda: model.large_case("quasistatic"),
        model.history_body,
        quick=8,
        thorough=120,
    ),
    Test(
        "long_dynamic",
        lambda: model.long_case("dynamic", most=30),
        model.history_body,
        quick=12,
        thorough=200,
    ),
    Test(
        "large_dynamic",
        lambda: model.large_case("dynamic"),
        model.history_body,
        quick=8,
        thorough=120,
    ),
]
