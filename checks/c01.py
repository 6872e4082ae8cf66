from hypothesis import strategies as st

from checks import c05, c06
from vlib import diskgen, disks
from vlib.core import Check, Part, same, subject
from vlib.img import Img

from dissect.volume.disk import Disk
from dissect.volume.disk.schemes import MBR


def check(ctx, spec):
    img = Img(1 << 20, tag=spec["serial"])
    want = diskgen.make_mbr(img, spec)
    img.seek(spec["base"])
    with subject("open the disk"):
        disk = Disk(img, spec["ss"]) if spec["ss"] != 512 or spec["serial"] & 1 else Disk(img)
    diskgen.check_partitions(disk.partitions, want, "MBR")
    with subject("serial"):
        serial, scheme = disk.serial, disk.scheme
    same(serial, spec["serial"], "serial")
    same(type(scheme), MBR, "scheme")
    ctx.label(f"{len(want)} partitions", "4K" if spec["ss"] == 4096 else "", "not at offset 0" if spec["base"] else "")
    ctx.label("gap in slots" if any(s is None for s in spec["slots"][:-1]) else "", "text" if spec["code"][2] else "")
    if not want:
        ctx.mark_trivial()


def check_slices(ctx, spec):
    """The serial does not depend on what the partitions contain."""
    img = Img(1 << 20, tag=spec["serial"])
    diskgen.make_mbr(img, spec)
    labels = 0
    for slot in spec["slots"]:
        if slot and slot[2] in disks.BSD_MBR_TYPES and slot[4] > 4:
            img.put((slot[3] + 1) * spec["ss"], disks.bsd_label32({"parts": [(10, 0, 7)] * 8}))
            labels += 1
    with subject("open the disk"):
        serial = Disk(img, spec["ss"]).serial
    same(serial, spec["serial"], "serial")
    ctx.label(f"{labels} labels")
    if not labels:
        ctx.mark_trivial()


@st.composite
def others(draw):
    kind = draw(st.sampled_from(["gpt", "apm", "bsd"]))
    inner = {"gpt": diskgen.gpts(slots_max=8, hdr=st.just(1)), "apm": c05.maps(), "bsd": c06.label(big=False)}[kind]
    return {"kind": kind, "inner": draw(inner), "serial": draw(st.integers(1, diskgen.U32))}


def check_others(ctx, spec):
    """Only a table with a signature gives a disk a serial; the protective one in front of a GPT is not it."""
    kind, inner = spec["kind"], spec["inner"]
    img = Img(1 << 20, tag=1, zero=True)
    ss = 512
    if kind == "gpt":
        ss = inner["ss"]
        diskgen.make_gpt(img, inner)
        slots = [diskgen.protective(inner), None, None, None]
        diskgen.make_mbr(img, {"ss": ss, "base": 0, "serial": spec["serial"], "code": (0, 0, b""), "slots": slots})
    elif kind == "apm":
        ss = inner["ss"]
        c05.build(img, inner)
    else:
        c06.write_label(img, 0, ss, inner)
    with subject("open the disk"):
        serial = Disk(img, ss).serial
    same(serial, None, f"serial of a disk with {kind}")
    ctx.label(kind)


# nothing but the type says whether an entry is used
LBA = st.one_of(diskgen.LBA, st.just(0))
COUNT = st.one_of(diskgen.COUNT, st.just(0))
TYPES = st.one_of(diskgen.PLAIN, st.sampled_from(disks.BSD_MBR_TYPES))

CHECK = Check(
    "C01",
    "a table with at least one used slot",
    [Part("primary", diskgen.mbrs(lba=LBA, count=COUNT), check, quick=16000, thorough=200000),
     Part("serial", diskgen.mbrs(base=False, types=TYPES), check_slices, quick=1000, thorough=10000),
     Part("others", others(), check_others, quick=600, thorough=6000)],
    assumptions=["an entry is empty when its type is 0"],
)

if __name__ == "__main__":
    CHECK.main()
