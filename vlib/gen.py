"""Numbers over wide ranges.  A plain integer strategy over a wide range yields small numbers nearly always."""

from __future__ import annotations

from hypothesis import strategies as st


def wide(low: int, high: int):
    """Small ones, ones near the end of the range, and ones from all over it."""
    n = (high - low).bit_length() // 8 + 2
    return st.one_of(
        st.integers(low, high),
        st.integers(low, high).map(lambda v: low + high - v),
        st.binary(min_size=n, max_size=n).map(lambda b: low + int.from_bytes(b, "big") % (high - low + 1)),
    )


def different(base: bytes, at: int, i: int) -> bytes:
    """Number ``i`` of a family of identifiers that differ in one byte only."""
    at %= len(base)
    return base[:at] + bytes([i + 1]) + base[at + 1 :]


# How devices are given to the library: per device a plain handle, one that knows its size, one that could know it,
# or one that stands somewhere; and whether they are opened before.
HANDS = st.fixed_dictionaries(
    {
        "kinds": st.lists(st.sampled_from(["plain", "sized", "unsized", "moved"]), min_size=1, max_size=4),
        "opened": st.sampled_from([0, 0, 0, 1, 2]),
        "bare": st.booleans(),
    }
)


def hand(imgs: list, hands: dict, opener=None):
    """The devices as they are given to the library."""
    out = []
    for i, img in enumerate(imgs):
        kind = hands["kinds"][i % len(hands["kinds"])]
        if kind == "sized":
            img.size = img.length
        elif kind == "unsized":
            img.size = None
        elif kind == "moved":
            img.seek(min(img.length, 1000 * i + 777))
        if opener is not None and (hands["opened"] == 2 or (hands["opened"] == 1 and i % 2 == 0)):
            img = opener(img)
        out.append(img)
    return out[0] if len(out) == 1 and hands["bare"] else out
