"""Forward layout models of arrays: from a position in the volume to the member(s) that hold it.

Written from the layout definitions (md(4), the DDF specification and the comments in the Linux md drivers), in the
direction a writer needs.  Nothing here is derived from the library under test.
"""

from __future__ import annotations

from vlib.img import Img, pattern

R5_LAYOUTS = [0, 1, 2, 3, 4, 5]
R6_LAYOUTS = [0, 1, 2, 3, 4, 5, 8, 9, 10, 16, 17, 18, 19, 20]


def parity_slots(level: int, layout: int, n: int, row: int) -> tuple[list[int], bool, int]:
    """-> (parity members of this row with P first, data continues after the parity?, members in the rotation)"""
    if level == 4:
        return [n - 1], False, n
    if level == 5:
        return {
            0: lambda: ([n - 1 - row % n], False, n),
            1: lambda: ([row % n], False, n),
            2: lambda: ([n - 1 - row % n], True, n),
            3: lambda: ([row % n], True, n),
            4: lambda: ([0], False, n),
            5: lambda: ([n - 1], False, n),
        }[layout]()
    if layout >= 16:  # a RAID5 layout over all but the last member, Q always on the last
        slots, cont, _ = parity_slots(5, layout - 16, n - 1, row)
        return [slots[0], n - 1], cont, n - 1
    p_left = n - 1 - row % n
    p_right = row % n
    return {
        0: lambda: ([p_left, (p_left + 1) % n], False, n),
        1: lambda: ([p_right, (p_right + 1) % n], False, n),
        2: lambda: ([p_left, (p_left + 1) % n], True, n),
        3: lambda: ([p_right, (p_right + 1) % n], True, n),
        4: lambda: ([0, 1], False, n),
        5: lambda: ([n - 2, n - 1], False, n),
        8: lambda: ([p_right, (p_right + 1) % n], False, n),
        9: lambda: ([n - 1 - (row + 1) % n, (n - (row + 1) % n) % n], False, n),
        10: lambda: ([p_left, (p_left - 1) % n], True, n),
    }[layout]()


def data_slots(level: int, layout: int, n: int, row: int) -> list[int]:
    parity, cont, ring = parity_slots(level, layout, n, row)
    if not cont:
        return [m for m in range(ring) if m not in parity]
    # data starts behind the last parity of the rotation and wraps around
    in_ring = [p for p in parity if p < ring]
    start = in_ring[0]
    while start in in_ring:
        start = (start + 1) % ring
    if len(in_ring) == 2 and layout == 10:
        start = (parity[0] + 1) % ring  # Q D D P: data follows P
    return [m for m in ((start + k) % ring for k in range(ring)) if m not in parity]


class Parity:
    """RAID4/5/6."""

    def __init__(self, level: int, layout: int, n: int, chunk: int):
        self.level, self.layout, self.n, self.chunk = level, layout, n, chunk
        self.ndata = n - (2 if level == 6 else 1)
        self.unit = chunk

    def capacity(self, member: int) -> int:
        return member // self.chunk * self.chunk * self.ndata

    def marks(self) -> list[int]:
        row = self.chunk * self.ndata
        return [self.chunk, row, row * self.n]

    def pieces(self, off: int, length: int):
        end = off + length
        while off < end:
            idx, inside = divmod(off, self.chunk)
            row, k = divmod(idx, self.ndata)
            n = min(end - off, self.chunk - inside)
            yield data_slots(self.level, self.layout, self.n, row)[k], row * self.chunk + inside, off, n
            off += n

    def write(self, put, tag: int, off: int, length: int) -> None:
        """Write this part of the volume with everything else of the touched rows, and their P parity."""
        for _, moff, voff, n in self.pieces(off, length):
            row, inside = divmod(moff, self.chunk)
            acc = 0
            for k, member in enumerate(data_slots(self.level, self.layout, self.n, row)):
                data = pattern(tag, (row * self.ndata + k) * self.chunk + inside, n)
                acc ^= int.from_bytes(data, "little")
                put(member, moff, data)
            p = parity_slots(self.level, self.layout, self.n, row)[0][0]
            put(p, moff, acc.to_bytes(n, "little"))


class Stripe:
    """RAID0 over members of the given sizes.

    Chunks go to the members of a zone in turn, counted from the start of the zone, or in the ``original`` layout from
    the start of the volume.
    """

    def __init__(self, sizes: list[int], chunk: int, original: bool = False):
        self.chunk = chunk
        self.original = original
        self.n = len(sizes)
        self.unit = chunk
        rounded = [s // chunk * chunk for s in sizes]
        self.zones = []  # (volume start, volume end, member start, members)
        start, level = 0, 0
        for size in sorted(set(rounded)):
            if size <= level:
                continue
            members = [i for i, s in enumerate(rounded) if s >= size]
            end = start + (size - level) * len(members)
            self.zones.append((start, end, level, members))
            start, level = end, size
        self.size = start

    def marks(self) -> list[int]:
        return [self.chunk, self.chunk * self.n, *(z[1] for z in self.zones)]

    def pieces(self, off: int, length: int):
        end = min(off + length, self.size)
        while off < end:
            vstart, vend, mstart, members = next(z for z in self.zones if off < z[1])
            idx, inside = divmod(off - vstart, self.chunk)
            row, k = divmod(idx, len(members))
            if self.original:
                k = off // self.chunk % len(members)
            n = min(end - off, self.chunk - inside)
            yield members[k], mstart + row * self.chunk + inside, off, n
            off += n

    def write(self, put, tag: int, off: int, length: int) -> None:
        for member, moff, voff, n in self.pieces(off, length):
            put(member, moff, pattern(tag, voff, n))


class Raid10:
    """near/far copies; every copy is written."""

    def __init__(self, near: int, far: int, offset: bool, farset: int, n: int, chunk: int, member: int):
        self.near, self.far, self.offset, self.farset, self.n, self.chunk = near, far, offset, farset, n, chunk
        self.unit = chunk
        self.stride = member // chunk // far if not offset else 1  # in chunks
        rows = member // chunk // far
        self.size = rows * n // near * chunk

    @property
    def layout(self) -> int:
        return self.near | self.far << 8 | (1 << 16 if self.offset else 0) | self.farset << 17

    def marks(self) -> list[int]:
        return [self.chunk, self.chunk * self.n, self.chunk * self.n // self.near]

    def copies(self, idx: int):
        """All (member, chunk on member) of data chunk ``idx``."""
        for c in range(self.near):
            row, dev = divmod(idx * self.near + c, self.n)
            yield dev, row * (self.far if self.offset else 1), c

    def pieces(self, off: int, length: int):
        end = off + length
        while off < end:
            idx, inside = divmod(off, self.chunk)
            n = min(end - off, self.chunk - inside)
            dev, row, _ = next(iter(self.copies(idx)))
            yield dev, row * self.chunk + inside, off, n
            off += n

    def write(self, put, tag: int, off: int, length: int) -> None:
        end = off + length
        size = {0: self.n, 1: self.n // self.far, 2: self.far * self.near}[self.farset]
        while off < end:
            idx, inside = divmod(off, self.chunk)
            n = min(end - off, self.chunk - inside)
            data = pattern(tag, off, n)
            for dev, row, _ in self.copies(idx):
                for f in range(self.far):
                    if f:
                        if self.n % size:
                            break  # uneven far sets: only the first copy is modelled
                        group = dev // size
                        dev = (dev + self.near) % size + group * size
                    put(dev, (row + f * self.stride) * self.chunk + inside, data)
            off += n


class Linear:
    def __init__(self, sizes: list[int]):
        self.sizes = sizes
        self.n = len(sizes)
        self.size = sum(sizes)
        self.unit = 8192

    def marks(self) -> list[int]:
        out, pos = [], 0
        for s in self.sizes:
            pos += s
            out.append(pos)
        return out

    def pieces(self, off: int, length: int):
        pos = 0
        end = min(off + length, self.size)
        for m, s in enumerate(self.sizes):
            a, b = max(off, pos), min(end, pos + s)
            if a < b:
                yield m, a - pos, a, b - a
            pos += s

    def write(self, put, tag: int, off: int, length: int) -> None:
        for member, moff, voff, n in self.pieces(off, length):
            put(member, moff, pattern(tag, voff, n))


class Mirror:
    def __init__(self, n: int, size: int):
        self.n, self.size, self.unit = n, size, 8192

    def marks(self) -> list[int]:
        return [self.size // 2]

    def pieces(self, off: int, length: int):
        yield 0, off, off, length

    def write(self, put, tag: int, off: int, length: int) -> None:
        for m in range(self.n):
            put(m, off, pattern(tag, off, length))


def write_ranges(layout, members: list[tuple[Img, int]], tag: int, size: int, ranges) -> None:
    """Write the parts of the volume that will be read.  ``members``: (device, byte where the data area starts)."""

    def put(member: int, off: int, data: bytes) -> None:
        img, base = members[member]
        if img is not None:
            img.put(base + off, data)

    for off, length in ranges:
        length = min(length, size - off)
        if length > 0:
            layout.write(put, tag, off, length)


def volume_marks(layout, size: int, spots=()) -> list[int]:
    """Interesting positions: start, end, the layout's own boundaries, and generated chunk boundaries anywhere."""
    out = [0, size, *(m for m in layout.marks() if m <= size)]
    for spot in spots:
        out.append((spot * size >> 32) // layout.unit * layout.unit)
    return out
