from hypothesis import strategies as st

from vlib import diskgen, disks
from vlib.core import Check, Part, same, subject
from vlib.img import Img

from dissect.volume.disk import Disk
from dissect.volume.disk.schemes import GPT


def build(spec, slot=0):
    img = Img(1 << 20, tag=3)
    want = diskgen.make_gpt(img, spec)
    slots = [None] * 4
    slots[slot] = diskgen.protective(spec)
    diskgen.make_mbr(img, {"ss": spec["ss"], "base": 0, "serial": 0, "code": (1, 0, b""), "slots": slots})
    return img, want


def check(ctx, spec):
    img, want = build(spec)
    with subject("open the disk"):
        disk = Disk(img, spec["ss"])
        parts, scheme = disk.partitions, disk.scheme
    same(type(scheme), GPT, "scheme")
    diskgen.check_partitions(parts, want, "GPT")
    ctx.label(f"{min(len(want), 4)}+ partitions", f"entry size {spec['esize']}", f"sector size {spec['ss']}")
    ctx.label("array moved" if spec["array"] != 2 else "", "last slot" if spec["count"] - 1 in spec["entries"] else "")
    ctx.label("full name" if any(len(i[6].encode("utf-16-le")) == 72 for i in spec["entries"].values()) else "")
    if not want:
        ctx.mark_trivial()


UNIT = st.one_of(
    st.sampled_from([0x41, 0x62, 0xE9, 0x65E5]),
    st.integers(0xD800, 0xDBFF),
    st.integers(0xDC00, 0xDFFF),
    st.sampled_from([0xD83D, 0xDCBE]),
)


@st.composite
def broken_names(draw):
    """Arrays in which names contain halves of surrogate pairs."""
    spec = draw(diskgen.gpts(slots_max=8))
    entries = {}
    for slot, item in spec["entries"].items():
        units = draw(st.lists(UNIT, min_size=1, max_size=36))
        entries[slot] = (*item[:5], b"".join(u.to_bytes(2, "little") for u in units).ljust(72, b"\x00"), units)
    return {**spec, "entries": entries}


def characters(units):
    """The characters of a string of UTF-16 units, without the units that are none."""
    out = []
    idx = 0
    while idx < len(units):
        unit = units[idx]
        after = units[idx + 1] if idx + 1 < len(units) else 0
        if 0xD800 <= unit < 0xDC00 and 0xDC00 <= after < 0xE000:
            out.append(chr(0x10000 + ((unit - 0xD800) << 10) + after - 0xDC00))
            idx += 1
        elif not 0xD800 <= unit < 0xE000:
            out.append(chr(unit))
        idx += 1
    return "".join(out)


def check_broken(ctx, spec):
    img, want = build({**spec, "entries": {slot: (*item[:6], "") for slot, item in spec["entries"].items()}})
    with subject("open the disk"):
        parts = Disk(img, spec["ss"]).partitions
        names = [p.name for p in parts]
    diskgen.check_partitions(parts, [{k: v for k, v in w.items() if k != "name"} for w in want], "GPT")
    expected = [characters(spec["entries"][slot][6]) for slot in sorted(spec["entries"])]
    # whether a unit that is no character is left out or replaced is not claimed
    readable = ["".join(c for c in n if c != "\ufffd" and not 0xD800 <= ord(c) < 0xE000) for n in names]
    same(readable, expected, "names without what is no character")
    ctx.label(f"{min(len(want), 4)}+ partitions")
    if not want:
        ctx.mark_trivial()


def probe_size():
    spec = {
        "ss": 512,
        "hdr": 1,
        "array": 2,
        "count": 4,
        "esize": 128,
        "entries": {0: ("0fc63daf-8483-4772-8e79-3d69d8477de4", 7, 2048, 4095, 0, b"", "")},
    }
    img, want = build(spec)
    with subject("open the disk"):
        size = Disk(img).partitions[0].size
    if size == 2048 * 512:
        return None
    same(size, 2047 * 512, "size of the partition from LBA 2048 to 4095")
    return "partition from LBA 2048 to 4095 has size 2047 sectors"


CHECK = Check(
    "C03",
    "an array with at least one used entry",
    [Part("array", diskgen.gpts(), check, quick=3000, thorough=40000),
     Part("broken names", broken_names(), check_broken, quick=400, thorough=4000)],
    known=[("GPT-SIZE", probe_size)],
    assumptions=["used entries have a first sector other than 0 and a type GUID other than 0"],
)

if __name__ == "__main__":
    CHECK.main()
