"""Device-mapper metadata encoder: b-trees and thin pools, written from the kernel's persistent-data documentation."""

from __future__ import annotations

import struct

from vlib.img import Img

INTERNAL, LEAF = 1, 2
MAX = 0xFFFFFFFFFFFFFFFF


class Blocks:
    """Hands out metadata blocks and writes nodes into them."""

    def __init__(self, img: Img, sectors: int, steps=(1,), first: int = 1, base: int = 0):
        self.img, self.size, self.steps, self.next, self.base = img, sectors * 512, list(steps), first, base
        self.count = 0
        self.nodes = 0

    def alloc(self) -> int:
        block = self.next
        self.next += self.steps[self.count % len(self.steps)]
        self.count += 1
        return block

    def room(self, value_size: int) -> int:
        return (self.size - 32) // (8 + value_size)

    def node(self, flags: int, entries: list[tuple[int, bytes]], value_size: int, slack: int, block: int | None = None) -> int:
        block = self.alloc() if block is None else block
        most = min(self.room(value_size), len(entries) + slack)
        assert len(entries) <= most
        raw = struct.pack("<IIQIIII", 0xABCD, flags, block, len(entries), most, value_size, 0)
        raw += b"".join(struct.pack("<Q", k) for k, _ in entries) + b"\xa5" * 8 * (most - len(entries))
        raw += b"".join(v for _, v in entries)
        self.img.put(self.base + block * self.size, raw.ljust(self.size, b"\x5a"))
        self.nodes += 1
        return block

    def tree(self, items: list[tuple[int, bytes]], value_size: int, widths: list[int], slack: int = 3, extra: int = 0, low: int = 0) -> int:
        """A tree with these (sorted) items; ``widths`` is the number of entries per node, used in turn.

        ``low``: how far below its child's first key the key of an internal entry is (as long as the keys stay in order)
        """
        turn = 0

        def split(things, size, least=1):
            nonlocal turn
            while things:
                width = max(least, min(self.room(size), widths[turn % len(widths)]))
                turn += 1
                yield things[:width]
                things = things[width:]

        if not items:
            return self.node(LEAF, [], value_size, slack)
        level = []
        for group in split(items, value_size):
            level.append((group[0][0], group[-1][0], self.node(LEAF, group, value_size, slack)))
        while len(level) > 1 or extra > 0:
            if len(level) == 1:
                extra -= 1
            upper = []
            before = -1
            for group in split(level, 8, 2):
                entries = []
                for first, last, block in group:
                    key = max(before + 1, first - low)
                    entries.append((key, struct.pack("<Q", block)))
                    before = last
                upper.append((entries[0][0], group[-1][1], self.node(INTERNAL, entries, 8, slack)))
            level = upper
        return level[0][2]


def superblock(data_root: int, details_root: int, data_sectors: int, metadata_sectors: int, blocks: int) -> bytes:
    raw = struct.pack("<IIQ", 0x1111, 0, 0) + b"\x00" * 16 + struct.pack("<QIIQQ", 27022010, 2, 7, 3, 0)
    raw += b"\x00" * 256
    raw += struct.pack("<QQIIQIII", data_root, details_root, data_sectors, metadata_sectors, blocks, 0, 0, 0)
    return raw


def details(mapped: int, transaction: int = 1, created: int = 2, snapshotted: int = 3) -> bytes:
    return struct.pack("<QQII", mapped, transaction, created, snapshotted)


def thin_metadata(img: Img, base: int, pool: dict) -> int:
    """Write a pool's metadata at ``base``; -> size in bytes.

    pool: sectors (metadata block size), data_sectors (data block size), steps, widths, slack, extra, low,
    devices {id: {block: (data block, time)} or None when it is in the details only}
    """
    blocks = Blocks(img, pool["sectors"], pool["steps"], base=base)
    shape = (pool["widths"], pool["slack"], pool["extra"], pool["low"])
    top = []
    for dev, mapping in sorted(pool["devices"].items()):
        if mapping is None:
            continue
        items = [(b, struct.pack("<Q", d << 24 | t)) for b, (d, t) in sorted(mapping.items())]
        top.append((dev, struct.pack("<Q", blocks.tree(items, 8, *shape))))
    data_root = blocks.tree(top, 8, *shape)
    info = [(dev, details(len(m or {})) if m or not pool.get("fresh") else bytes(24)) for dev, m in sorted(pool["devices"].items())]
    details_root = blocks.tree(info, 24, *shape)
    img.put(base, superblock(data_root, details_root, pool["data_sectors"], pool["sectors"], blocks.next))
    return (blocks.next + 1) * blocks.size
