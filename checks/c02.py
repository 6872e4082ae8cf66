from vlib import diskgen
from vlib.core import Check, Part, expect, subject
from vlib.img import Img

from dissect.volume.disk import Disk


def check(ctx, spec):
    img = Img(1 << 20, tag=spec["serial"])
    want = diskgen.make_mbr(img, spec)
    img.seek(spec["base"])
    with subject("open the disk"):
        disk = Disk(img, spec["ss"])
        parts = disk.partitions
    diskgen.check_partitions(parts, want, "MBR with logical partitions")
    numbers = [p.number for p in parts]
    expect(len(set(numbers)) == len(numbers), f"partitions share a number: {numbers}")
    logical = [w for w in want if w["logical"]]
    ext = [s for s in spec["slots"] if s and s[0] == "x"]
    ctx.label(f"{len(ext)} extended", f"{min(len(logical), 4)}+ logical", "not at offset 0" if spec["base"] else "")
    ctx.label("empty EBR" if any(not i[2] for x in ext for i in x[4]) else "")
    ctx.label("out of order" if any([i[0] for i in x[4]] != sorted(i[0] for i in x[4]) for x in ext) else "")
    if not logical:
        ctx.mark_trivial()


CHECK = Check(
    "C02",
    "at least one logical partition",
    [
        Part("one", diskgen.mbrs(extended=(1, 1)), check, quick=5000, thorough=60000),
        Part("two", diskgen.mbrs(extended=(2, 2), limit=5), check, quick=4000, thorough=50000),
    ],
)

if __name__ == "__main__":
    CHECK.main()
