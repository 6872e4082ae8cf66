from hypothesis import strategies as st

from checks import c05, c06
from vlib import diskgen, disks, hist
from vlib.core import Check, Part, same, subject
from vlib.gen import wide
from vlib.img import Img

from dissect.volume.disk import Disk

LBA = st.one_of(st.integers(1, 300), wide(1, 1 << 24), st.sampled_from([0x7FFFFFFF, 0x80000000, 0xFFFFFFFF]))
CNT = st.one_of(st.integers(1, 20), st.integers(1, 400), wide(1, 0xFFFFFFFF))


@st.composite
def disk_specs(draw, kinds=("mbr", "mbr", "gpt", "apm", "bsd", "nested")):
    kind = draw(st.sampled_from(kinds))
    if kind == "mbr":
        inner = draw(diskgen.mbrs(extended=(0, 2), limit=3, lba=LBA, count=CNT))
    elif kind == "gpt":
        inner = draw(diskgen.gpts(slots_max=8, lba=LBA, count_strategy=CNT))
    elif kind == "apm":
        inner = draw(c05.maps())
    elif kind == "bsd":
        inner = draw(c06.label())
    else:
        inner = (draw(c06.label(big=False)), draw(LBA), draw(st.integers(20, 3000)), draw(st.sampled_from(disks.BSD_MBR_TYPES)))
    return {"kind": kind, "inner": inner}


def build(spec):
    """-> (image, sector size, position to open at, [(start, size)] on the image)"""
    kind, inner = spec["kind"], spec["inner"]
    img = Img(1 << 46, tag=8)
    ss, base = 512, 0
    if kind == "mbr":
        want = diskgen.make_mbr(img, inner)
        ss, base = inner["ss"], inner["base"]
    elif kind == "gpt":
        want = diskgen.make_gpt(img, inner)
        ss = inner["ss"]
        slots = [diskgen.protective(inner), None, None, None]
        diskgen.make_mbr(img, {"ss": ss, "base": 0, "serial": 0, "code": (0, 0, b""), "slots": slots})
    elif kind == "apm":
        want = c05.build(img, inner)
        ss = inner["ss"]
    elif kind == "bsd":
        img.put(0, b"\x00" * 512)
        want = c06.write_label(img, 0, 512, inner)
    else:
        label, lba, count, ptype = inner
        inside = c06.write_label(img, lba * ss, ss, label)
        # only what is inside the slice can be expected of a partition inside it
        want = []
        for w in inside:
            room = count * ss - w["offset"]
            want.append({"offset": lba * ss + w["offset"], "size": min(w["size"], room) if room >= w["size"] else -1})
        slots = [None, ("p", 0, ptype, lba, count), None, None]
        diskgen.make_mbr(img, {"ss": ss, "base": 0, "serial": 0, "code": (0, 0, b""), "slots": slots})
    img.length = max(img.length, 1 << 62)
    return img, ss, base, want


@st.composite
def cases(draw):
    return {
        "disk": draw(disk_specs()),
        "ops": draw(st.lists(st.tuples(st.integers(0, 15), hist.extents(1)), min_size=1, max_size=10)),
    }


def check(ctx, spec):
    img, ss, base, want = build(spec["disk"])
    ref = img.fork()
    img.seek(base)
    with subject("open the disk"):
        disk = Disk(img, ss)
        parts = disk.partitions
    same(len(parts), len(want), "number of partitions")
    if not parts:
        ctx.mark_trivial()
        return
    streams = {}
    used = set()
    for pick, ops in spec["ops"]:
        idx = pick % len(parts)
        start, size = want[idx]["offset"], want[idx]["size"]
        if size < 0:
            continue
        with subject("size of the partition"):
            reported = parts[idx].size
        if reported != size:
            same(reported, want[idx].get("size_short"), f"size of partition {idx + 1}")
            size = reported
        if idx not in streams:
            with subject(f"open partition {idx + 1}"):
                streams[idx] = parts[idx].open()
        model = hist.Model(size, lambda off, n, start=start: ref.peek_at(start + off, n))
        marks = [0, size, size // 2, min(size, 4096)]
        ranges = hist.resolve(ops, marks, size)
        hist.verify(streams[idx], model, ranges, f"partition {idx + 1}")
        if size <= 300000 and pick == 0:
            hist.verify_whole(streams[idx], model, f"partition {idx + 1}")
        used.add(idx)
    ctx.label(spec["disk"]["kind"], f"{min(3, len(used))} partitions read", "beyond 4 GiB" if any(want[i]["offset"] > 1 << 32 for i in used) else "")


CHECK = Check(
    "C08",
    "a disk with at least one partition",
    [Part("content", cases(), check, quick=4000, thorough=50000)],
)

if __name__ == "__main__":
    CHECK.main()
