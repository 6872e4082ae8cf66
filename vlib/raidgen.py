"""Strategies for arrays and the common read-back oracle; shared by the RAID, MD, DDF and Vinum checks."""

from __future__ import annotations

from hypothesis import strategies as st

from vlib import hist, raid
from vlib.core import subject
from vlib.gen import wide
from vlib.img import Img, pattern

CHUNK = st.one_of(
    st.sampled_from([512, 1024, 4096, 8192, 16384, 65536, 262144, 1 << 20, 1 << 22]),
    st.integers(1, 40).map(lambda k: k * 512),
)
POW2 = st.sampled_from([4096, 4096, 8192, 16384, 65536, 262144, 1 << 20])
OFFSET = st.one_of(st.just(0), st.integers(0, 4096).map(lambda k: k * 512), st.sampled_from([1 << 20, 1 << 33]))
SPOTS = st.lists(wide(0, 0xFFFFFFFF), min_size=2, max_size=6)


def count(low: int, usual: int, most: int):
    """Mostly a small number."""
    return st.one_of(st.integers(low, usual), st.integers(low, usual), st.integers(low, usual), st.integers(low, most))


@st.composite
def geometry(draw, level, chunk=CHUNK, far=True):
    """(level, layout, n, chunk, sizes): a valid array of this level."""
    c = draw(chunk)
    # far more rows than any device has today, as long as no position takes more than 63 bits
    rows = draw(st.one_of(st.integers(1, 12), st.integers(1, 200), wide(1, 1 << 20), wide(1, 1 << 32)))
    if level in (4, 5, 6):
        n = draw(count(4 if level == 6 else 3, 9, 24))
        layout = {4: st.just(0), 5: st.sampled_from(raid.R5_LAYOUTS), 6: st.sampled_from(raid.R6_LAYOUTS)}[level]
        return {"level": level, "layout": draw(layout), "n": n, "chunk": c, "sizes": [rows * c] * n}
    if level == 10:
        n = draw(count(2, 8, 20))
        near = draw(count(1, min(3, n), n))
        f = draw(count(1, min(3, n // near), n // near)) if far else 1
        offset = draw(st.booleans()) if f > 1 else False
        farset = draw(st.sampled_from([0, 0, 1, 2] if f > 1 else [0, 0, 0, 0, 1, 2]))
        rows = rows * f
        return {
            "level": 10,
            "layout": near | f << 8 | (1 << 16 if offset else 0) | farset << 17,
            "n": n,
            "chunk": c,
            "sizes": [rows * c] * n,
        }
    if level == 0:
        n = draw(count(1, 6, 20))
        if draw(st.integers(0, 2)) == 0:
            sizes = [rows * c] * n
        else:
            n = max(2, n)
            base = draw(st.lists(st.integers(1, 6), min_size=2, max_size=4, unique=True))
            sizes = [rows * draw(st.sampled_from(base)) * c for _ in range(n)]
        if c > 512 and draw(st.booleans()):
            # a tail below one chunk is never used
            sizes = [s + draw(st.integers(0, (c - 1) // 512)) * 512 for s in sizes]
        return {"level": 0, "layout": draw(st.sampled_from([2, 2, 1])), "n": n, "chunk": c, "sizes": sizes}
    if level == -1:
        n = draw(count(1, 6, 20))
        sizes = [draw(st.one_of(st.integers(1, 40), wide(1, 1 << 24))) * 512 for _ in range(n)]
        return {"level": -1, "layout": 0, "n": n, "chunk": c, "sizes": sizes}
    n = draw(count(1, 4, 12))
    return {"level": 1, "layout": 0, "n": n, "chunk": 0, "sizes": [rows * 512] * n}


def model(g: dict):
    level = g["level"]
    if level in (4, 5, 6):
        lay = raid.Parity(level, g["layout"], g["n"], g["chunk"])
        lay.size = lay.capacity(g["sizes"][0])
        return lay
    if level == 10:
        x = g["layout"]
        return raid.Raid10(x & 0xFF, x >> 8 & 0xFF, bool(x >> 16 & 1), x >> 17, g["n"], g["chunk"], g["sizes"][0])
    if level == 0:
        return raid.Stripe(g["sizes"], g["chunk"], g["layout"] == 1)
    if level == -1:
        return raid.Linear([s - s % g.get("rounding", 1) for s in g["sizes"]])
    return raid.Mirror(g["n"], min(g["sizes"]))


def plan(layout, size: int, spots, ops) -> list[tuple[int, int]]:
    return hist.resolve(ops, raid.volume_marks(layout, size, spots), size, layout.unit, 9 << 20 if layout.unit >= 1 << 20 else 1 << 21)


def content(size: int, tag: int) -> hist.Model:
    return hist.Model(size, lambda off, n: pattern(tag, off, n))
