"""Vinum drives: header, configuration text (written from FreeBSD's geom_vinum)."""

from __future__ import annotations

import struct

from vlib.img import Img

HEADER, CONFIG, LENGTH = 4096, 4608, 65536
DATA = CONFIG + 2 * LENGTH
ACTIVE = (0x494E2056494E4F00, 0x56494E554D2D3100)
INACTIVE = (0x4E4F2056494E4F00, 0x56494E554D2D2D00)


def write_drive(img: Img, magic: int, name: bytes, time: tuple[int, int], size: int, first: bytes, second: bytes | None = None, full: bool = True, remains: bytes = b"") -> None:
    """``full``: the header states the whole room for the configuration, not only the sectors that are used.

    ``remains``: what a longer name of the drive left behind the terminator.
    """
    stated = LENGTH if full else max(512, (len(first) + 511) // 512 * 512)
    label = b"host".ljust(32, b"\x00") + (name + b"\x00" + remains)[:32].ljust(32, b"\x00")
    label += struct.pack(">QQQQQ", 1000000000, 5, *time, size)
    img.put(HEADER, (struct.pack(">QQ", magic, stated) + label).ljust(512, b"\x00"))
    img.put(CONFIG, first.ljust(LENGTH, b"\x00"))
    img.put(CONFIG + LENGTH, (first if second is None else second).ljust(LENGTH, b"\x00"))


class Writer:
    """Lines of the configuration; how sizes are written is up to ``choices``."""

    UNITS = ((1, b""), (512, b"s"), (512, b"b"), (512, b"S"), (512, b"B"), (1 << 10, b"k"), (1 << 10, b"K"), (1 << 20, b"m"), (1 << 20, b"M"),
             (1 << 30, b"g"), (1 << 30, b"G"))  # fmt: skip

    def __init__(self, choices: list[int] = ()):
        self.choices = list(choices)
        self.at = 0

    def pick(self, things):
        if not self.choices:
            return things[0]
        self.at += 1
        return things[self.choices[self.at % len(self.choices)] % len(things)]

    def size(self, n: int) -> bytes:
        fits = [(f, u) for f, u in self.UNITS if n % f == 0]
        if not self.choices:
            fits = [(f, u) for f, u in fits if u == b"s"] or fits
        factor, unit = self.pick(fits)
        return b"%d%s" % (n // factor, unit)

    def volume(self, v: dict) -> bytes:
        return b"volume %s state %s" % (v["name"], v["state"])

    def plex(self, p: dict) -> bytes:
        org = p["org"]
        if org in (b"striped", b"raid5"):
            org += b" " + self.size(p["stripe"])
        return b"plex name %s org %s %s %s state %s" % (p["name"], org, self.pick([b"vol", b"volume"]), p["volume"], p["state"])

    def sd(self, s: dict) -> bytes:
        return b"sd name %s drive %s %s %s driveoffset %s plex %s plexoffset %s state %s" % (
            s["name"], s["drive"], self.pick([b"len", b"length"]), self.size(s["length"]), self.size(s["offset"]), s["plex"],
            self.size(s["plexoffset"]), s["state"],
        )  # fmt: skip

    def text(self, config: dict, order: list[int] = ()) -> bytes:
        lines = [self.volume(v) for v in config["volumes"]]
        lines += [self.plex(p) for p in config["plexes"]]
        lines += [self.sd(s) for s in config["sds"]]
        if order:
            lines = [line for _, line in sorted(zip([order[i % len(order)] * 31 % 17 for i in range(len(lines))], lines))]
        return b"".join(line + b"\n" for line in lines)
