"""Encoders for partition tables, written from the on-disk formats (no code of the library is used)."""

from __future__ import annotations

import struct
import uuid

from vlib.img import Img

EXTENDED = (0x05, 0x0F, 0x85)
BSD_MBR_TYPES = (0xA5, 0xA6, 0xA9, 0x6C)
BSD_GPT_TYPES = (
    "9d087404-1ca5-11dc-8817-01301bb8a9f5",
    "3d48ce54-1d16-11dc-8696-01301bb8a9f5",
    "516e7cb4-6ecf-11d6-8ff8-00022d09712b",
)
PLAIN_MBR_TYPES = [t for t in range(1, 256) if t not in EXTENDED and t not in BSD_MBR_TYPES and t != 0xEE]

VBR_SIGNATURES = [b"MSDOS5.0", b"MSWIN4.1", b"NTFS    ", b"EXFAT   ", b"-FVE-FS-", b"SYSLINUX", b"mkfs.fat", b"mkdosfs\x00"]
# what makes the eight bytes from 3 on the name of the system that formatted a filesystem
VBR_NAMES = [b"MSDOS", b"MSWIN", b"NTFS", b"FAT", b"EXFAT", b"-FVE-FS-", b"SYSLINUX", b"mkfs.fat", b"mkdosfs"]


def mbr_entry(boot: int, ptype: int, lba: int, count: int, chs: bytes = b"\xfe\xff\xff") -> bytes:
    return struct.pack("<B3sB3sII", boot, chs, ptype, chs, lba, count)


def boot_code(kind: int, text_at: int = 0, text: bytes = b"") -> bytes:
    """446 - 6 bytes of harmless boot code; ``text`` may be any message, as real boot code has them.

    A negative ``text_at`` puts the text near the eight bytes in which filesystems have their name, without spelling
    out one in there.
    """
    base = {
        0: b"\x00" * 0x1B8,
        1: (b"\x33\xc0\x8e\xd0\xbc\x00\x7c\x8e\xc0\x8e\xd8\xbe\x00\x7c\xbf\x00\x06" + b"\xe9\x90\xf4" * 200)[:0x1B8],
        2: (b"\xeb\x63\x90" + b"\xd0\xbc\x00\x7c\xfb\x50\x07\x50" + b"\xf7" * 0x1B8)[:0x1B8],
    }[kind % 3]
    if text and text_at < 0:
        at = -text_at - 1
        near = base[:at] + text + base[at + len(text) :]
        if not any(name in near[3:11] for name in VBR_NAMES):
            base = near
    elif text:
        at = 11 + text_at % (0x1B8 - 11 - len(text))
        base = base[:at] + text + base[at + len(text) :]
    assert len(base) == 0x1B8
    return base


def boot_sector(entries: list[bytes], serial: int = 0, code: bytes | None = None, sig: int = 0xAA55) -> bytes:
    code = boot_code(0) if code is None else code
    table = b"".join(entries)
    assert len(table) == 64
    return code + struct.pack("<IH", serial, 0) + table + struct.pack("<H", sig)


EMPTY = b"\x00" * 16


def build_mbr(img: Img, spec: dict) -> list[dict]:
    """Write the table of ``spec`` and return what a reader has to find.

    spec: ss, base (byte offset of the MBR), serial, code, slots: four of
      None | ("p", boot, type, lba, count) | ("x", type, lba, count, [(ebr_rel, boot, type, rel, count, more) ...])
    In an extended slot ``ebr_rel`` is relative to the start of the extended partition (the first one is 0) and ``rel``
    to its own EBR; a logical type of 0 is an EBR without a partition.  ``more`` is the number of empty
    entries in front and the further partitions of the same EBR, at most two altogether.
    """
    ss, base = spec["ss"], spec["base"]
    want = []
    entries = []
    logical = 5
    for slot, item in enumerate(spec["slots"]):
        if item is None:
            entries.append(EMPTY)
        elif item[0] == "p":
            _, boot, ptype, lba, count = item
            entries.append(mbr_entry(boot, ptype, lba, count))
            want.append(
                {
                    "number": slot + 1,
                    "offset": base + lba * ss,
                    "size": count * ss,
                    "type": ptype,
                    "flags": boot,
                    "logical": False,
                }
            )
        else:
            _, xtype, lba, count, chain = item
            entries.append(mbr_entry(0, xtype, lba, count))
            for idx, (ebr_rel, *first, more) in enumerate(chain):
                # empty entries, the partition, more of them (which no usual tool writes), and the link
                datas = [None] * more[0] + [first, *more[1]]
                table = [mbr_entry(*d) if d and d[1] else EMPTY for d in datas]
                if idx + 1 < len(chain):
                    link = mbr_entry(0, [0x05, 0x0F, 0x85][(idx + xtype) % 3], chain[idx + 1][0], min(chain[idx + 1][4], 0xFFFFFFF0) + 1)
                    table.append(link)
                pos = base + (lba + ebr_rel) * ss
                img.put(pos, boot_sector((table + [EMPTY] * 3)[:4], sig=0xAA55))
                for boot, ptype, rel, cnt in [d for d in datas if d and d[1]]:
                    want.append(
                        {
                            "number": logical,
                            "offset": pos + rel * ss,
                            "size": cnt * ss,
                            "type": ptype,
                            "flags": boot,
                            "logical": True,
                        }
                    )
                    logical += 1
    img.put(base, boot_sector(entries, spec.get("serial", 0), spec.get("code")))
    return want


def gpt_header(spec: dict) -> bytes:
    head = struct.pack(
        "<8sIIIIQQQQ16sQIII",
        b"EFI PART",
        0x10000,
        92,
        spec.get("crc", 0x1234),
        0,
        1,
        spec.get("backup", 0xFFFFF),
        spec.get("first_usable", 34),
        spec.get("last_usable", 0xFFFDE),
        uuid.UUID(int=spec.get("guid", 1)).bytes_le,
        spec["array"],
        spec["count"],
        spec["esize"],
        0x4321,
    )
    return head.ljust(512, b"\x00")


def gpt_entry(item) -> bytes:
    """item: (type uuid str, guid int, first, last, flags, name bytes (72))."""
    ptype, guid, first, last, flags, name = item
    return (
        uuid.UUID(ptype).bytes_le
        + uuid.UUID(int=guid).bytes_le
        + struct.pack("<QQQ", first, last, flags)
        + name.ljust(72, b"\x00")[:72]
    )


def build_gpt(img: Img, spec: dict) -> None:
    """Header at LBA ``hdr`` and entry array; spec: ss, hdr, array, count, esize, entries {slot: item}."""
    ss = spec["ss"]
    table = bytearray(spec["count"] * spec["esize"])
    for slot, item in spec["entries"].items():
        pos = slot * spec["esize"]
        entry = gpt_entry(item)
        # whatever is beyond the 128 defined bytes of a larger entry is not ours to interpret
        table[pos : pos + spec["esize"]] = entry + b"\xa5" * (spec["esize"] - 128)
    img.put(spec["array"] * ss, bytes(table))
    img.put(spec["hdr"] * ss, gpt_header(spec))


def apm_entry(count: int, start: int, size: int, name: bytes, ptype: bytes, extra: int | list[int] = 0) -> bytes:
    """``extra``: what the boot fields say, or all fields behind the type."""
    if isinstance(extra, int):
        extra = [0, size, 0x33, extra, extra, 0, 0, 0, 0, 0]
    return (
        struct.pack(
            ">2sHIII32s32s",
            b"PM",
            0,
            count,
            start,
            size,
            name,
            ptype,
        )
        + struct.pack(">10I", *extra)
        + b"68000".ljust(16, b"\x00")
    ).ljust(512, b"\x00")


def bsd_label32(spec: dict) -> bytes:
    """spec: parts: list of (size, offset, fstype) sectors, magic2, secsize."""
    parts = spec["parts"]
    head = struct.pack("<IHH16s16s", spec.get("magic", 0x82564557), 5, 0, b"SCSI", b"fictitious")
    head += struct.pack("<6I", spec.get("secsize", 512), 63, 16, 100, 1008, 100800)
    head += struct.pack("<HHI", 0, 0, 0)
    head += struct.pack("<4H3I", 3600, 1, 0, 0, 0, 0, 0)
    head += struct.pack("<5I5I", *([0] * 10))
    head += struct.pack("<IHHII", spec.get("magic2", 0x82564557), 0, len(parts), 8192, 8192)
    assert len(head) == 148, len(head)
    for idx, (size, offset, fstype) in enumerate(parts):
        head += struct.pack("<IIIBBH", size, offset, 2048, fstype, 8, idx)
    return head


def bsd_label64(spec: dict) -> bytes:
    """spec: parts: list of (boffset, bsize, fstype, type uuid int, stor uuid int)."""
    parts = spec["parts"]
    head = struct.pack("<IIII", spec.get("magic", 0xC4464C59), 0xCAFE, 1 << 20, len(parts))
    head += uuid.UUID(int=77).bytes_le
    head += struct.pack("<5Q", 1 << 40, 0x1000, 0x100000, 1 << 40, 0)
    head += b"pack".ljust(64, b"\x00") + b"\x00" * 64
    assert len(head) == 200, len(head)
    for boff, bsize, fstype, tguid, sguid in parts:
        head += struct.pack("<QQBBBBIII", boff, bsize, fstype, 0, 0, 0, 0, 0, 0)
        head += uuid.UUID(int=tguid).bytes_le + uuid.UUID(int=sguid).bytes_le
    return head
