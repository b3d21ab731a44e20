"""Strategies shared by the property modules (all values are JSON-able)."""
from __future__ import annotations

from hypothesis import strategies as st

seeds = st.integers(0, 2**32 - 1)
profiles = st.sampled_from(["zero", "lan", "lan", "wan", "spiky"])
calm = st.sampled_from(["zero", "lan"])


def times(hi: float, step: float = 0.05):
    """Instants between 0 and hi, on a grid fine enough to hit any command gap."""
    return st.integers(0, int(hi / step)).map(lambda i: round(i * step, 4))


def fine(hi: float):
    return st.one_of(times(hi, 0.25), times(hi, 0.001))


@st.composite
def some(draw, element, lo: int, hi: int):
    return draw(st.lists(element, min_size=lo, max_size=hi))


# how many earlier lives a key has had
worn = st.sampled_from([0] * 20 + [7, 8, 8, 8, 9, 9, 98])

# seconds per second of a case: mostly real time, now and then slow motion, where every interval
# that is not a fraction of a second takes days
units = st.sampled_from([1] * 11 + [100_003])
