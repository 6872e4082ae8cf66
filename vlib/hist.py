"""Read histories: sequences of seeks and reads on a stream, judged against a model of the whole content."""

from __future__ import annotations

import io

from hypothesis import strategies as st

from vlib.core import Violation, expect, same, short, subject


class Model:
    """What a stream has to contain: ``size`` bytes, ``read(offset, length)`` gives them."""

    def __init__(self, size: int, read):
        self.size = size
        self.read = read

    @classmethod
    def of(cls, data: bytes) -> Model:
        return cls(len(data), lambda off, n: data[off : off + n])


# Extents are (anchor, delta, length): anchor is an index into the "marks" (interesting positions) of a volume, so the
# generator needs no knowledge of the volume's size.
def extents(max_ops: int = 6, max_len: int = 70000):
    length = st.one_of(
        st.sampled_from([1, 2, 7, 511, 512, 513, 4096, 8191, 8192, 8193, 16384, 65536]),
        st.integers(0, 64),
        st.integers(0, max_len),
        st.integers(-9, -1),
        st.sampled_from([-12, -17]),
    )
    delta = st.one_of(
        st.sampled_from([0, 0, -1, 1, -512, 512, -8192, 8192]), st.integers(-700, 700), st.integers(-70000, 70000)
    )
    op = st.tuples(st.integers(0, 63), delta, length)
    return st.lists(op, min_size=1, max_size=max_ops)


def resolve(ops, marks: list[int], size: int, unit: int = 4096, longest: int = 1 << 21) -> list[tuple[int, int]]:
    """Turn generated extents into concrete (offset, length) pairs inside [0, size].

    Negative lengths are in halves of ``unit`` (the chunk or block size of the volume), within reason.
    """
    out = []
    for anchor, delta, length in ops:
        if length < 0:
            length = min(-length * unit // 2, longest if length < -9 else 1 << 21)
        pos = marks[anchor % len(marks)] + delta
        pos = min(max(pos, 0), size)
        out.append((pos, length))
    return out


def clip(ranges, size: int):
    """The part of each range a volume of ``size`` bytes has to deliver (rounded out so buffered reads see real data)."""
    for off, length in ranges:
        n = max(0, min(length, size - off))
        if n:
            yield off, n


def verify(fh, model: Model, ranges, what: str, sizes: bool = True) -> int:
    """Read the ranges one after the other with all the ways a stream can be read; compare with the model."""
    checked = 0
    size = model.size
    for idx, (off, length) in enumerate(ranges):
        n = max(0, min(length, size - off))
        want = model.read(off, n) if n else b""
        mode = idx % 5
        with subject(f"{what}: read {length} bytes at {off}"):
            if mode == 1 and size and sizes:
                got_pos = fh.seek(off - size, io.SEEK_END)
            elif mode == 2:
                cur = fh.tell()
                got_pos = fh.seek(off - cur, io.SEEK_CUR)
            else:
                got_pos = fh.seek(off)
        expect(got_pos is None or got_pos == off, f"{what}: seek to {off} reports {got_pos}")
        with subject(f"{what}: read {length} bytes at {off}"):
            if mode == 3:
                buf = bytearray(length)
                count = fh.readinto(buf)
                got = bytes(buf[:count])
            elif mode == 4 and length > 3:
                got = fh.read(length // 3)
                got += fh.read(length - length // 3)
            else:
                got = fh.read(length)
            tell = fh.tell()
        compare(got, want, off, what)
        same(tell, off + n, f"{what}: position after reading {length} bytes at {off}")
        checked += n
    return checked


def compare(got: bytes, want: bytes, off: int, what: str) -> None:
    if got == want:
        return
    if len(got) != len(want):
        raise Violation(f"{what}: at {off} got {len(got)} bytes, expected {len(want)}")
    bad = next(i for i in range(len(want)) if got[i] != want[i])
    raise Violation(
        f"{what}: wrong byte at {off + bad} (read started at {off}): got {short(got[bad:bad + 8])}, "
        f"expected {short(want[bad:bad + 8])}"
    )


def verify_whole(fh, model: Model, what: str) -> None:
    """Read everything at once from the start, and check that the stream ends where the model ends."""
    with subject(f"{what}: read everything"):
        fh.seek(0)
        got = fh.read()
    compare(got, model.read(0, model.size), 0, what)
    with subject(f"{what}: read at the end"):
        tail = fh.read(10)
    same(tail, b"", f"{what}: read at the end")
