"""C14: steps of vibrating membranes, with contact on the boundary or inside."""

from hypothesis import strategies as st

from pbt import cm, gen, model
from pbt.core import Test

RULE = (
    "Generated membranes, wave speeds, boundary or interior contact laws, prescribed values, "
    "time-dependent loads, initial displacement and velocity, Schur and global method; every "
    "step is compared with the reference. Non-trivial: at least 2 steps, motion."
)
ASSUMPTIONS = [
    "faces whose end nodes are not contact nodes are excluded; contact laws are C1 and convex",
    "global optimization only where contact faces have no dirichlet node (KF-d)",
]
SHARDS = 4


def prepare():
    cm.speed_up()


def free():
    """No contact law at all."""
    return model.history_case("wave", law_pool=(None,), steps=5)


def interior():
    case = model.history_case("wave", methods=("global",), law_pool=("interior",), steps=5)
    return case.map(lambda c: {**c, "interior": True})


def released():
    """A membrane at rest, lifted as a whole, without loads: only the obstacle moves it."""
    case = model.history_case("wave", law_pool=("implicit", "early"), steps=3, prescribed=False)
    still = {"c": [0.0], "a": None, "t": [0, 0]}

    def release(pair):
        case, height = pair
        return {
            **case,
            "dirichlet": [],
            "inner": still,
            "outer": still,
            "u0": {"c": [height], "a": None},
            "v0": None,
        }

    return st.tuples(case, gen.nonzero(0.02, 0.5, 2)).map(release)


TESTS = [
    Test("released", released, model.history_body, quick=48, thorough=800),
    Test(
        "boundary", lambda: model.history_case("wave", steps=5), model.history_body, quick=160, thorough=3000
    ),
    Test("free", free, model.history_body, quick=60, thorough=1200),
    Test("interior", interior, model.history_body, quick=80, thorough=1500),
    Test(
        "long",
        lambda: model.long_case("wave", most=30),
        model.history_body,
        quick=12,
        thorough=200,
    ),
    Test(
        "large",
        lambda: model.large_case("wave"),
        model.history_body,
        quick=8,
        thorough=120,
    ),
]
