import uuid

from hypothesis import strategies as st

from vlib import diskgen, disks
from vlib.core import Check, Part, same, subject
from vlib.gen import wide
from vlib.img import Img

from dissect.volume.disk import Disk
from dissect.volume.disk.schemes import BSD

FS = {
    0: "unused",
    1: "swap",
    2: "Version 6",
    3: "Version 7",
    4: "System V",
    5: "4.1BSD",
    6: "Eighth Edition",
    7: "4.2BSD",
    8: "MSDOS",
    9: "4.4LFS",
    10: "unknown",
    11: "HPFS",
    12: "ISO9660",
    13: "boot",
    14: "vinum",
    15: "raid",
    16: "Filecore",
    17: "EXT2FS",
    18: "NTFS",
    20: "ccd",
    21: "jfs",
    22: "HAMMER",
    23: "HAMMER2",
    24: "UDF",
    26: "EFS",
    27: "ZFS",
    30: "nandfs",
    # not assigned
    99: "?",
    255: "?",
}
FSTYPE = st.one_of(st.sampled_from([0, 1, 7, 7, 10, 14, 99, 255]), st.sampled_from(sorted(FS)))
SMALL = st.integers(0, 400)
BIG = st.one_of(SMALL, wide(0, 1 << 24), wide(0, 0xFFFFFFFF))


@st.composite
def labels32(draw, big=True):
    n = draw(st.integers(8, 20))
    raw = draw(st.one_of(st.just(0), st.just(63), SMALL, BIG if big else SMALL))
    parts = []
    for idx in range(n):
        if idx == 2:
            parts.append((draw(st.integers(0, 100000)), raw, draw(FSTYPE)))
        elif draw(st.integers(0, 2)) == 0:
            parts.append(draw(st.sampled_from([(0, 0, 0), (0, 5000, 7), (5000, raw, 0)])))
        else:
            off = draw(
                st.one_of(
                    SMALL.map(lambda v: min(raw + v, 0xFFFFFFFF)), st.just(raw), st.integers(0, raw), BIG if big else SMALL
                )
            )
            parts.append((draw(st.integers(1, 500) if not big else wide(1, 0xFFFFFFFF)), off, draw(FSTYPE)))
    return {"kind": 32, "parts": parts}


@st.composite
def labels64(draw, big=True):
    n = draw(st.integers(3, 16))
    parts = []
    for idx in range(n):
        if draw(st.integers(0, 2)) == 0 and idx != 2:
            parts.append(draw(st.sampled_from([(0, 0, 0, 0, 0), (0, 0, 7, 1, 1), (4096, 4096, 0, 1, 1)])))
        else:
            limit = 1 << 60 if big else 200000
            off = draw(st.one_of(st.just(0), st.integers(1, 200000), wide(1, limit)))
            size = draw(st.one_of(st.integers(1, 200000), wide(1, limit)))
            if off and draw(st.integers(0, 9)) == 9:
                size = 0
            parts.append((off, size, draw(FSTYPE), draw(st.integers(0, 9)), draw(st.integers(0, (1 << 128) - 1))))
    return {"kind": 64, "parts": parts}


def label(big=True):
    return st.one_of(labels32(big), labels64(big))


def write_label(img, pos, ss, spec):
    """Put the label of a slice starting at ``pos`` and return what has to be listed, relative to the slice."""
    want = []
    if spec["kind"] == 32:
        img.put(pos + ss, disks.bsd_label32({"parts": spec["parts"]}))
        raw = spec["parts"][2][1]
        for idx, (size, off, fstype) in enumerate(spec["parts"]):
            if idx == 2 or not size or not fstype or off < raw:
                continue
            want.append({"number": idx + 1, "offset": (off - raw) * ss, "size": size * ss, "type": fstype, "guid": None, "type_str": FS[fstype]})
    else:
        img.put(pos + ss, disks.bsd_label64({"parts": spec["parts"]}))
        for idx, (off, size, fstype, _, sguid) in enumerate(spec["parts"]):
            if idx == 2 or not fstype or (not off and not size):
                continue
            want.append({"number": idx + 1, "offset": off, "size": size, "type": fstype, "guid": uuid.UUID(int=sguid), "type_str": FS[fstype]})
    return want


def label_end(spec):
    return 148 + 16 * 22 if spec["kind"] == 32 else 200 + 64 * 16


def check_standalone(ctx, spec):
    img = Img(1 << 20, tag=6)
    img.put(0, b"\x00" * spec["ss"])
    want = write_label(img, 0, spec["ss"], spec["label"])
    with subject("open the disk"):
        disk = Disk(img, spec["ss"])
        parts, scheme = disk.partitions, disk.scheme
    same(type(scheme), BSD, "scheme")
    diskgen.check_partitions(parts, want, "disklabel")
    ctx.label(f"{spec['label']['kind']} bit", f"{min(4, len(want))}+ partitions", f"sector size {spec['ss']}")
    ctx.label("raw offset" if spec["label"]["kind"] == 32 and spec["label"]["parts"][2][1] else "")
    if not want:
        ctx.mark_trivial()


@st.composite
def nested(draw):
    """Four entries of a MBR or GPT, some of them BSD slices with or without a label."""
    gpt = draw(st.booleans())
    ss = draw(st.sampled_from([512, 512, 4096]))
    items = []
    for _ in range(draw(st.integers(1, 4))):
        kind = draw(st.sampled_from(["plain", "bsd", "bsd", "nolabel"]))
        count = draw(st.sampled_from([0, 1])) if kind == "nolabel" and draw(st.booleans()) else draw(st.integers(64, 3000))
        items.append(
            {
                "kind": kind,
                "type": draw(st.integers(0, 3)),
                "count": max(1, count),
                "gap": draw(st.integers(0, 50)),
                "label": draw(label(big=False)) if kind == "bsd" else None,
                "bad": draw(st.sampled_from(["zero", "random", "magic2", "cut"])) if kind == "nolabel" else None,
                "flags": draw(diskgen.FLAG),
            }
        )
    return {"gpt": gpt, "ss": ss, "items": items, "shift": draw(st.integers(0, 3)), "order": draw(st.booleans())}


def check_nested(ctx, spec):
    ss, gpt = spec["ss"], spec["gpt"]
    img = Img(1 << 26, tag=66)
    lba = 70
    entries, want, content = [], [], []
    for idx, item in enumerate(spec["items"]):
        lba += item["gap"]
        if gpt:
            ptype = disks.BSD_GPT_TYPES[item["type"] % 3] if item["kind"] != "plain" else "0fc63daf-8483-4772-8e79-3d69d8477de4"
        else:
            ptype = disks.BSD_MBR_TYPES[item["type"]] if item["kind"] != "plain" else 0x83
        entries.append((ptype, lba, item["count"], item["flags"]))
        pos, size = lba * ss, item["count"] * ss
        own = {"number": idx + 1, "offset": pos, "size": size, "type": uuid.UUID(ptype) if gpt else ptype}
        if gpt:
            own["size_short"] = size - ss
        if item["kind"] == "bsd":
            inner = write_label(img, pos, ss, item["label"])
            for w in inner:
                content.append((len(want), pos + w["offset"], min(w["size"], size - ss - w["offset"])))
                want.append(w)
        else:
            if item["kind"] == "nolabel":
                if item["bad"] == "zero":
                    img.put(pos, b"\x00" * min(size, 2 * ss))
                elif item["bad"] == "magic2" and item["count"] > 3:
                    img.put(pos + ss, disks.bsd_label32({"parts": [(10, 0, 7)] * 8, "magic2": 0x82564556}))
                elif item["bad"] == "cut" and item["count"] == 1 and not gpt:
                    # a slice of one sector; the label behind it belongs to somebody else
                    img.put(pos + ss, disks.bsd_label32({"parts": [(10, 0, 7)] * 8}))
                    lba += 4
            content.append((len(want), pos, size - ss))
            want.append(own)
        lba += item["count"]
    if gpt:
        table = {
            i: (ptype, 1000 + i, first, first + count - 1, flags, b"", "")
            for i, (ptype, first, count, flags) in enumerate(entries)
        }
        g = {"ss": ss, "hdr": 1, "array": 2, "count": 16, "esize": 128, "entries": table}
        diskgen.make_gpt(img, g)
        slots = [diskgen.protective(g), None, None, None]
    else:
        slots = [("p", flags, ptype, first, count) for ptype, first, count, flags in entries]
        slots += [None] * (4 - len(slots))
    diskgen.make_mbr(img, {"ss": ss, "base": 0, "serial": 77, "code": (0, 0, b""), "slots": slots})
    with subject("open the disk"):
        disk = Disk(img, ss)
        parts = disk.partitions
    diskgen.check_partitions(parts, want, "nested disklabel")
    for idx, pos, room in content:
        n = min(1500, room, want[idx]["size"])
        if n <= 0:
            continue
        with subject(f"read partition {idx + 1}"):
            got = parts[idx].open().read(n)
        same(got, img.peek_at(pos, n), f"first bytes of partition {idx + 1} (at {pos} on the disk)")
    kinds = [i["kind"] for i in spec["items"]]
    ctx.label("GPT" if gpt else "MBR", f"{kinds.count('bsd')} labels")
    ctx.label("slice without label" if "nolabel" in kinds else "", "neighbour" if "plain" in kinds else "")
    if not set(kinds) - {"plain"}:
        ctx.mark_trivial()


@st.composite
def standalone(draw):
    return {"ss": draw(st.sampled_from([512, 512, 2048, 4096])), "label": draw(label())}


CHECK = Check(
    "C06",
    "a label with at least one listed partition, or at least one BSD slice",
    [
        Part("standalone", standalone(), check_standalone, quick=1600, thorough=20000),
        Part("nested", nested(), check_nested, quick=2000, thorough=25000),
    ],
)

if __name__ == "__main__":
    CHECK.main()
