"""Linux MD superblocks (0.90 and 1.x), written from the kernel's md_p.h."""

from __future__ import annotations

import struct

from vlib.img import Img

MAGIC = 0xA92B4EFC


def sb1(a: dict) -> bytes:
    """Version 1 superblock; sizes and offsets in sectors."""
    head = struct.pack("<IIII", MAGIC, 1, a.get("features", 0), 0)
    head += a["uuid"] + (a["name"] + a.get("name_rest", b""))[:32].ljust(32, b"\x00")
    head += struct.pack("<QiIQ", a["ctime"], a["level"], a["layout"], a["size"])
    head += struct.pack("<III", a["chunk"], a["raid_disks"], a.get("bitmap", 8))
    head += struct.pack("<IQIIII", 0, 0, 0, 0, 0, 0)
    assert len(head) == 128, len(head)
    head += struct.pack("<QQQQ", a["data_offset"], a["data_size"], a["super_offset"], a.get("recovered", 0))
    head += struct.pack("<II", a["dev_number"], 3) + a["device_uuid"]
    head += struct.pack("<BBHi", 0, 9, 8, 16)
    assert len(head) == 192, len(head)
    head += struct.pack("<QQQII", a["utime"], a["events"], 0xFFFFFFFFFFFFFFFF, 0x1234, len(a["roles"]))
    head = head.ljust(256, b"\x00")
    return head + b"".join(struct.pack("<H", r) for r in a["roles"])


def sb90(a: dict) -> bytes:
    """Version 0.90 superblock (4096 bytes); ``size`` in KiB, ``chunk`` in bytes."""
    u = a["uuid"]
    words = [0] * 32
    words[0:5] = [MAGIC, 0, 90, 0, 0]
    words[5] = int.from_bytes(u[0:4], "little")
    words[6] = a["ctime"]
    words[7] = a["level"] & 0xFFFFFFFF
    words[8] = a["size"]
    words[9] = len(a["disks"])
    words[10] = a["raid_disks"]
    words[11] = a.get("minor", 127)
    words[12] = 0
    words[13:16] = struct.unpack("<3I", u[4:16])
    state = [0] * 32
    state[0] = a["utime"]
    state[1] = 1
    state[2] = state[3] = a["raid_disks"]
    state[6] = 0x5678
    state[7] = a["events"] & 0xFFFFFFFF
    state[8] = a["events"] >> 32
    pers = [0] * 64
    pers[0] = a["layout"]
    pers[1] = a["chunk"]
    out = struct.pack("<128I", *words, *state, *pers)
    descs = {number: (number, raid_disk, st) for number, raid_disk, st in a["disks"]}
    for i in range(27):
        number, raid_disk, st = descs.get(i, (0, 0, 0))
        out += struct.pack("<5I", number, 8, i, raid_disk, st) + b"\x00" * 108
    out = out.ljust(4096 - 128, b"\x00")
    number, raid_disk, st = descs[a["dev_number"]]
    out += struct.pack("<5I", number, 8, 1, raid_disk, st) + b"\x00" * 108
    assert len(out) == 4096
    return out


def location(version: str, sectors: int) -> int:
    """Sector of the superblock on a device of this many sectors."""
    return {
        "0.90": lambda: sectors // 128 * 128 - 128,
        "1.0": lambda: (sectors - 16) // 8 * 8,
        "1.1": lambda: 0,
        "1.2": lambda: 8,
    }[version]()


def write(img: Img, version: str, sectors: int, a: dict) -> None:
    pos = location(version, sectors)
    raw = sb90(a) if version == "0.90" else sb1({**a, "super_offset": pos})
    img.put(pos * 512, raw)
