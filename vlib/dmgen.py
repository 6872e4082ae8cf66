"""Strategies for thin pools."""

from __future__ import annotations

from hypothesis import strategies as st

from vlib import dm, hist
from vlib.gen import wide
from vlib.img import Img, pattern


@st.composite
def mappings(draw, data_blocks: int):
    """block -> (data block, time); any mixture of runs and holes."""
    out = {}
    pos = draw(st.sampled_from([0, 0, 1, 5, 1 << 20, 1 << 40]))
    for _ in range(draw(st.integers(0, 8))):
        pos += draw(st.one_of(st.integers(0, 3), st.sampled_from([1, 1, 50, 100000])))
        start = draw(st.integers(0, data_blocks - 1))
        step = draw(st.sampled_from([1, 1, -1, 0, 3]))
        for i in range(draw(st.integers(1, 5))):
            out[pos] = ((start + i * step) % data_blocks, draw(st.sampled_from([0, 1, 5, 0xFFFFFF])))
            pos += 1
    return out


@st.composite
def pools(draw, block=None, data_blocks=None, devices=4):
    data_sectors = draw(st.sampled_from([128, 128, 256, 384, 1024, 2048]) if block is None else block)
    data_blocks = draw(st.one_of(st.integers(1, 30), st.sampled_from([1 << 20, 1 << 36])) if data_blocks is None else data_blocks)
    ids = draw(st.lists(st.one_of(st.integers(0, 9), wide(0, (1 << 24) - 1)), min_size=1, max_size=devices, unique=True))
    devs = {}
    for i in ids:
        how = draw(st.integers(0, 9))
        devs[i] = None if how == 9 else draw(mappings(data_blocks))
    if draw(st.booleans()) and len(ids) > 1 and devs[ids[0]]:
        # a snapshot shares the blocks of its origin
        devs[ids[1]] = {**devs[ids[0]], **(devs[ids[1]] or {})}
    return {
        "sectors": draw(st.sampled_from([8, 8, 8, 16, 128])),
        # devices nothing was written to yet have details of nothing but zeros
        "fresh": draw(st.booleans()),
        "data_sectors": data_sectors,
        "data_blocks": data_blocks,
        "steps": draw(st.lists(st.integers(1, 5), min_size=1, max_size=3)),
        "widths": draw(st.lists(st.one_of(st.integers(1, 4), st.integers(1, 100)), min_size=1, max_size=4)),
        "slack": draw(st.integers(0, 7)),
        "extra": draw(st.sampled_from([0, 0, 1])),
        "low": draw(st.sampled_from([0, 0, 1, 3])),
        "devices": devs,
    }


def device(pool: dict, dev: int, size: int | None, data, origin: hist.Model | None = None) -> hist.Model:
    """What a thin device contains; ``data(offset, length)`` reads the pool's data device, ``origin`` has what is not mapped."""
    bs = pool["data_sectors"] * 512
    mapping = pool["devices"][dev] or {}

    def read(off, n):
        out = []
        end = off + n
        while off < end:
            block, inside = divmod(off, bs)
            step = min(end - off, bs - inside)
            if block in mapping:
                out.append(data(mapping[block][0] * bs + inside, step))
            else:
                known = max(0, min(step, origin.size - off)) if origin else 0
                out.append((origin.read(off, known) if known else b"").ljust(step, b"\x00"))
            off += step
        return b"".join(out)

    return hist.Model((1 << 70) if size is None else size, read)


def marks(pool: dict, dev: int, size: int) -> list[int]:
    """Interesting positions: the edges of mapped runs."""
    bs = pool["data_sectors"] * 512
    mapping = pool["devices"][dev] or {}
    out = {0, bs, size}
    for block in mapping:
        if block - 1 not in mapping:
            out.add(block * bs)
        if block + 1 not in mapping:
            out.add((block + 1) * bs)
    return sorted(x for x in out if 0 <= x <= size)


def metadata(pool: dict, tag: int = 19) -> Img:
    img = Img(pool["sectors"] * 512 * 4, tag=tag)
    dm.thin_metadata(img, 0, pool)
    return img
