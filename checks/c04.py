from hypothesis import strategies as st

from vlib import diskgen
from vlib.core import Check, Part, same, subject
from vlib.gen import wide
from vlib.img import Img

from dissect.volume.disk import Disk
from dissect.volume.disk.schemes import GPT


# an ordinary entry may cover the boot sector itself
LBA = st.one_of(diskgen.LBA, diskgen.LBA, diskgen.LBA, st.just(0))
TYPE = st.one_of(diskgen.PLAIN, diskgen.PLAIN, st.sampled_from([0xEF, 0xED, 0xAF, 0x0C]))


@st.composite
def hybrids(draw):
    gpt = draw(diskgen.gpts(slots_max=32, hdr=st.one_of(st.just(1), st.integers(1, 40), wide(1, 1 << 31))))
    kinds = draw(st.permutations(["e"] + [draw(st.sampled_from(["e", "p", "p", "-"])) for _ in range(3)]))
    slots = []
    first = True
    for kind in kinds:
        if kind == "-":
            slots.append(None)
        elif kind == "p":
            slots.append(("p", draw(diskgen.FLAG), draw(TYPE), draw(LBA), draw(diskgen.COUNT)))
        elif first:
            slots.append(("p", 0, 0xEE, gpt["hdr"], draw(diskgen.COUNT)))
            first = False
        else:
            # further protective entries cover other parts of the disk
            slots.append(("p", 0, 0xEE, draw(diskgen.LBA), draw(diskgen.COUNT)))
    return {"gpt": gpt, "slots": slots, "code": draw(diskgen.boot_codes())}


def check(ctx, spec):
    gpt = spec["gpt"]
    img = Img(1 << 20, tag=4)
    inner = diskgen.make_gpt(img, gpt)
    outer = diskgen.make_mbr(
        img, {"ss": gpt["ss"], "base": 0, "serial": 9, "code": spec["code"], "slots": spec["slots"]}
    )
    want = []
    for item in outer:
        if item["type"] != 0xEE:
            want.append(item)
        elif inner is not None:
            want.extend(inner)
            inner = None
    with subject("open the disk"):
        disk = Disk(img, gpt["ss"])
        parts, scheme = disk.partitions, disk.scheme
    same(type(scheme), GPT, "scheme")
    diskgen.check_partitions(parts, want, "hybrid")
    ee = sum(1 for s in spec["slots"] if s and s[2] == 0xEE)
    plain = sum(1 for s in spec["slots"] if s and s[2] != 0xEE)
    ctx.label(f"{ee} protective", f"{plain} ordinary", f"{min(3, len(gpt['entries']))}+ GPT partitions")
    if not plain and ee == 1:
        ctx.mark_trivial()


CHECK = Check(
    "C04",
    "ordinary entries next to the protective one, or several protective ones",
    [Part("hybrid", hybrids(), check, quick=3000, thorough=40000)],
)

if __name__ == "__main__":
    CHECK.main()
