from hypothesis import strategies as st

from vlib import diskgen, disks
from vlib.core import Check, Part, same, subject
from vlib.gen import wide
from vlib.img import Img, pattern

from dissect.volume.disk import Disk
from dissect.volume.disk.schemes import APM

TEXT = st.one_of(
    st.sampled_from(["", "Apple", "Apple_HFS", "Apple_partition_map", "Apple_Free", "Windows_NTFS", "x" * 32]),
    st.text(alphabet="abcXYZ_ -.09", max_size=32),
    st.text(alphabet="aé日z", max_size=10),
)
# starts and lengths are kept in 32 bits; the first entry is usually the map itself
LBA = st.one_of(st.integers(0, 64), wide(0, 1 << 24), st.sampled_from([0x7FFFFFFF, 0x80000000, 0xFFFFFFFF]), wide(0, 0xFFFFFFFF))


@st.composite
def maps(draw):
    n = draw(st.one_of(st.integers(1, 6), st.integers(1, 40)))
    parts = [(draw(LBA), draw(LBA), draw(TEXT), draw(TEXT)) for _ in range(n)]
    if draw(st.integers(0, 7)) == 7:
        # a long map, of which only the starts differ all along
        n = draw(st.integers(41, 300))
        parts = [((start + 7 * i) & 0xFFFFFFFF, size, name, ptype) for i in range(n) for start, size, name, ptype in [parts[i % len(parts)]]]
    ss, er = draw(st.sampled_from([512, 512, 1024, 2048, 4096])), draw(st.booleans())
    return {
        "ss": ss,
        "er": er,
        # with a driver descriptor every entry takes a block of the size it states
        "block": draw(st.sampled_from([512, ss, ss, ss, 1024, 8192, 32768])) if er else 512,
        "parts": parts,
        # the fields about data and boot code, which are none of the partition's
        "extra": draw(st.one_of(st.sampled_from([0, 1, 0xFFFFFFFF]), st.lists(wide(0, 0xFFFFFFFF), min_size=10, max_size=10))),
        # left over from earlier strings, behind the terminator
        "rest": draw(st.sampled_from([b"", b"", b"_partition_map", b"\xff\xff"])),
    }


def field(text, rest):
    return (text.encode() + b"\x00" + rest if rest else text.encode())[:32]


def build(img, spec):
    n, block = len(spec["parts"]), spec["block"]
    pos = 0
    if spec["er"]:
        head = b"ER" + block.to_bytes(2, "big") + (0x10000).to_bytes(4, "big") + b"\x00" * 504
        img.put(0, head)
        pos = block
    want, rest = [], spec.get("rest", b"")
    for idx, (start, size, name, ptype) in enumerate(spec["parts"]):
        entry = disks.apm_entry(n, start, size, field(name, rest), field(ptype, rest), spec["extra"])
        img.put(pos + idx * block, entry)
        want.append(
            {
                "number": idx + 1,
                "offset": start * spec["ss"],
                "size": size * spec["ss"],
                "name": name,
                "type": ptype,
            }
        )
    # the sector after the map is not part of it, even if it looks like an entry of it
    img.put(pos + n * block, disks.apm_entry(n, 1, 1, b"beyond", b"beyond"))
    return want


def check(ctx, spec):
    img = Img(2 << 20, tag=5)
    want = build(img, spec)
    with subject("open the disk"):
        disk = Disk(img, spec["ss"])
        parts, scheme = disk.partitions, disk.scheme
    same(type(scheme), APM, "scheme")
    diskgen.check_partitions(parts, want, "Apple map")
    ctx.label("driver descriptor" if spec["er"] else "at the start", f"{max(k for k in (1, 4, 41, 128, 256) if k <= len(want))}+ partitions" if want else "empty", f"sector size {spec['ss']}", f"block size {spec['block']}")


CHECK = Check(
    "C05",
    "every map (at least one entry)",
    [Part("map", maps(), check, quick=3000, thorough=40000)],
    assumptions=["a descriptor's block size is a power of two of at least 512, texts are UTF-8"],
)

if __name__ == "__main__":
    CHECK.main()
