from hypothesis import strategies as st

from vlib import hist, mdgen, raid, raidgen
from vlib.core import Check, Part, fail, same, subject
from vlib.gen import HANDS, hand

from dissect.volume.md.md import MD, MDPhysicalDisk


@st.composite
def cases(draw, level):
    a = draw(mdgen.arrays(level))
    return {
        **a,
        "order": draw(st.permutations(range(a["n"]))),
        "hands": draw(HANDS),
        "spots": draw(raidgen.SPOTS),
        "ops": draw(hist.extents(6)),
    }


def known_size(a):
    """The size the library is known to give for parity arrays and for 0.90 superblocks."""
    field = mdgen.superblock(a, 0)["size"] * 512
    if a["level"] in (4, 5, 6) or (a["version"] == "0.90" and a["level"] == 1):
        return field
    if a["version"] == "0.90" and a["level"] == 10:
        return raidgen.model({**a, "sizes": [field] * a["n"]}).size
    return None


def check(ctx, a):
    lay = raidgen.model({**a, "chunk": a["chunk"] or 4096})
    with subject("assemble"):
        empty = mdgen.build(a)
        [conf] = MD([empty[m][0] for m in a["order"]]).configurations
        [vd] = conf.virtual_disks
        size = vd.size
    what = f"version {a['version']} level {a['level']} layout {a['layout']:#x} chunk {a['chunk']} of {a['n']}"
    if size != lay.size:
        if size != known_size(a):
            fail(f"{what}: size of the volume is {size}, expected {lay.size} (members {a['sizes']})")
        ctx.label("size as in the known finding")
    size = min(size, lay.size)
    ranges = raidgen.plan(lay, size, a["spots"], a["ops"])
    if a["level"] == 1:
        ranges = [(o, min(n, size - o)) for o, n in ranges if o < size]
    members = mdgen.build(a)
    raid.write_ranges(lay, members, 16, size, ranges)
    with subject(f"{what}: open"):
        [conf] = MD(hand([members[m][0] for m in a["order"]], a["hands"], MDPhysicalDisk)).configurations
        fh = conf.virtual_disks[0].open()
    hist.verify(fh, raidgen.content(size, 16), ranges, what, sizes=a["level"] != 1)
    ctx.label(f"version {a['version']}", f"layout {a['layout']:#x}", "data offset" if members[0][1] else "")
    ctx.label("original layout" if a["level"] == 0 and a["layout"] == 1 else "", "members rounded" if any(s % a.get("rounding", 1) for s in a["sizes"]) else "")
    ctx.label("non power of two" if a["chunk"] & (a["chunk"] - 1) else "")
    if not any(min(n, size - o) > 0 for o, n in ranges):
        ctx.mark_trivial()


def probe(version, level):
    a = {
        "version": version, "level": level, "layout": 2 if level == 5 else 0, "n": 3 if level == 5 else 2,
        "chunk": 65536 if level == 5 else 0, "sizes": [1 << 20] * 3, "uuid": b"u" * 16, "name": b"", "ctime": (0, 0),
        "utime": (0, 0), "events": 1, "data_offset": [2048] * 3, "slack": [0] * 3, "numbers": [0, 1, 2],
    }  # fmt: skip

    def run():
        with subject("assemble"):
            size = MD([img for img, _ in mdgen.build(a)]).configurations[0].virtual_disks[0].size
        want = (2 if level == 5 else 1) << 20
        if size == want:
            return None
        same(size, known_size(a), f"size of the level {level} volume")
        return f"version {version} level {level}: size {size:#x} instead of {want:#x}"

    return run


CHECK = Check(
    "C16",
    "at least one byte is read",
    [
        Part("linear", cases(-1), check, quick=500, thorough=6000),
        Part("raid0", cases(0), check, quick=1200, thorough=15000),
        Part("raid1", cases(1), check, quick=400, thorough=4000),
        Part("raid4", cases(4), check, quick=300, thorough=4000),
        Part("raid5", cases(5), check, quick=700, thorough=8000),
        Part("raid6", cases(6), check, quick=700, thorough=8000),
        Part("raid10", cases(10), check, quick=900, thorough=12000),
    ],
    known=[("MD-PARITY-SIZE", probe("1.2", 5)), ("MD-090-SIZE", probe("0.90", 1))],
)

if __name__ == "__main__":
    CHECK.main()
