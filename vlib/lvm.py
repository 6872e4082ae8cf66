"""LVM2 on-disk structures: label, physical volume header, metadata areas (written from the LVM2 sources' layout.h)."""

from __future__ import annotations

import struct
import zlib

from vlib.img import Img

MDA_MAGIC = b" LVM2 x[5A%r0N*>"
ID_CHARS = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ!#"


def new_id(n: int) -> str:
    """The n-th id, 32 characters without dashes; it differs from the next one in a single character."""
    x = 0x9E3779B97F4A7C15F39CC0605CEDC8341082276BF3A27251F86C6A11D0C18E95
    steps = [n // 32 + (n % 32 > i * 19 % 32) for i in range(32)]
    return "".join(ID_CHARS[((x >> 6 * i) + steps[i]) % 64] for i in range(32))


def dashed(i: str) -> str:
    cuts = [0, 6, 10, 14, 18, 22, 26, 32]
    return "-".join(i[a:b] for a, b in zip(cuts, cuts[1:]))


def write_label(img: Img, sector: int, header: int, pv_id: str, size: int, data_start: int, areas: list[tuple[int, int]], extension: bool = True) -> None:
    """The label in ``sector``, with the header ``header`` bytes behind the start of the label."""
    body = pv_id.encode() + struct.pack("<Q", size)
    body += struct.pack("<QQQQ", data_start, 0, 0, 0)
    for offset, length in areas:
        body += struct.pack("<QQ", offset, length)
    body += struct.pack("<QQ", 0, 0)
    if extension:
        body += struct.pack("<IIQQ", 2, 1, 0, 0)
    raw = b"LABELONE" + struct.pack("<QII", sector, 0, header) + b"LVM2 001"
    raw = raw.ljust(header, b"\x00") + body
    assert len(raw) <= 512, len(raw)
    img.put(sector * 512, raw.ljust(512, b"\x00"))


def write_area(img: Img, start: int, size: int, texts: list[dict]) -> None:
    """A metadata area with raw locations; ``offset`` in the area (from 512 on) where the text starts, it may wrap."""
    locations = b""
    for t in texts:
        raw = t["text"].encode() + b"\x00"
        room = size - t["offset"]
        assert len(raw) <= size - 512, (len(raw), size)
        img.put(start + t["offset"], raw[:room])
        if len(raw) > room:
            img.put(start + 512, raw[room:])
        locations += struct.pack("<QQII", t["offset"], len(raw), zlib.crc32(raw), t.get("flags", 0))
    header = struct.pack("<I", 0xDEADBEEF) + MDA_MAGIC + struct.pack("<IQQ", 1, start, size) + locations
    img.put(start, header.ljust(512, b"\x00"))
