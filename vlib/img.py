"""Synthetic devices: huge virtual files whose bytes are a function of position, with explicit pieces laid over them."""

from __future__ import annotations

import io

import numpy as np

_M1 = np.uint64(0x9E3779B97F4A7C15)
_M2 = np.uint64(0xC2B2AE3D27D4EB4F)
_M3 = np.uint64(0x165667B19E3779F9)
_S1 = np.uint64(29)
_S2 = np.uint64(32)


def pattern(tag: int, offset: int, length: int) -> bytes:
    """Bytes of the position dependent pattern ``tag`` in [offset, offset + length)."""
    if length <= 0:
        return b""
    first = offset // 8
    last = (offset + length + 7) // 8
    with np.errstate(over="ignore"):
        idx = np.arange(last - first, dtype=np.uint64) + np.uint64(first & 0xFFFFFFFFFFFFFFFF)
        val = (idx + np.uint64((tag * 0x1000003D + 7) & 0xFFFFFFFFFFFFFFFF) * _M3) * _M1
        val ^= val >> _S1
        val *= _M2
        val ^= val >> _S2
    buf = val.tobytes()
    start = offset - first * 8
    return buf[start : start + length]


class Img(io.RawIOBase):
    """A read-only seekable device of ``size`` bytes.

    Everything not covered by a piece is poison: the pattern of ``tag``.  Later pieces win over earlier ones.
    """

    def __init__(self, size: int, tag: int = 0, zero: bool = False):
        super().__init__()
        self.length = size
        self.tag = tag
        self.zero = zero
        self.pieces: list[tuple[int, bytes]] = []
        self.pos = 0
        self.reads = 0
        self.budget: int | None = 500_000

    def put(self, offset: int, data: bytes) -> None:
        if offset < 0:
            raise RuntimeError("harness: negative piece offset")
        if data:
            self.pieces.append((offset, bytes(data)))
            self.length = max(self.length, offset + len(data))

    def fork(self) -> Img:
        new = Img(self.length, self.tag, self.zero)
        new.pieces = list(self.pieces)
        return new

    def peek_at(self, offset: int, length: int) -> bytes:
        length = max(0, min(length, self.length - offset))
        if not length:
            return b""
        end = offset + length
        # fast path: fully inside the last matching piece
        hits = [(o, d) for o, d in self.pieces if o < end and o + len(d) > offset]
        if len(hits) == 1 and hits[0][0] <= offset and hits[0][0] + len(hits[0][1]) >= end:
            o, d = hits[0]
            return d[offset - o : end - o]
        buf = bytearray(length) if self.zero else bytearray(pattern(self.tag, offset, length))
        for o, d in hits:
            s = max(o, offset)
            e = min(o + len(d), end)
            buf[s - offset : e - offset] = d[s - o : e - o]
        return bytes(buf)

    # file interface
    def readable(self) -> bool:
        return True

    def seekable(self) -> bool:
        return True

    def seek(self, pos: int, whence: int = io.SEEK_SET) -> int:
        if whence == io.SEEK_SET:
            if pos < 0:
                raise ValueError(f"negative seek value {pos}")
            self.pos = pos
        elif whence == io.SEEK_CUR:
            self.pos = max(0, self.pos + pos)
        elif whence == io.SEEK_END:
            self.pos = max(0, self.length + pos)
        else:
            raise ValueError("invalid whence")
        return self.pos

    def tell(self) -> int:
        return self.pos

    def read(self, n: int | None = -1) -> bytes:
        self.reads += 1
        if self.budget is not None and self.reads > self.budget:
            raise BudgetExceeded(f"more than {self.budget} reads")
        if n is None or n < 0:
            n = max(0, self.length - self.pos)
            if n > 1 << 28:
                raise RuntimeError("harness: unbounded read of a huge device")
        data = self.peek_at(self.pos, n)
        self.pos += len(data)
        return data

    def readall(self) -> bytes:
        return self.read(-1)

    def readinto(self, b) -> int:
        data = self.read(len(b))
        b[: len(data)] = data
        return len(data)

    def materialise(self) -> io.BytesIO:
        return io.BytesIO(self.peek_at(0, self.length))


class BudgetExceeded(BaseException):
    """Raised (as a BaseException, so that nobody swallows it) when a device was read implausibly often."""
