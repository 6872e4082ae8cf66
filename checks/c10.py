from hypothesis import strategies as st

from vlib import hist, raid, raidgen
from vlib.core import Check, Part, attempt, expect, subject
from vlib.gen import wide
from vlib.img import Img

from dissect.volume.raid.raid import PhysicalDisk, VirtualDisk


@st.composite
def arrays(draw, level, ops=6):
    g = draw(raidgen.geometry(level))
    n = g["n"]
    return {
        **g,
        "bases": [draw(raidgen.OFFSET) for _ in range(n)],
        "starts": [draw(raidgen.OFFSET) for _ in range(n)] if draw(st.booleans()) else [0] * n,
        "order": draw(st.permutations(range(n))),
        "trim": draw(st.sampled_from([0, 0, 0, 1, 5])),
        "spots": draw(raidgen.SPOTS),
        "ops": draw(hist.extents(ops)),
    }


def assemble(spec, ranges=None, missing=(), tag=10):
    """-> (virtual disk, layout model, volume size, read plan), with the planned parts written to the members."""
    lay = raidgen.model(spec)
    size = max(1, lay.size - spec["trim"] * 512)
    if ranges is None:
        ranges = raidgen.plan(lay, size, spec["spots"], spec["ops"])
    imgs = []
    for m in range(spec["n"]):
        imgs.append(Img(spec["bases"][m] + spec["starts"][m] + spec["sizes"][m] + 4096, tag=1000 + m))
    members = [(img, spec["bases"][m] + spec["starts"][m]) for m, img in enumerate(imgs)]
    raid.write_ranges(lay, members, tag, size, ranges)
    disk_map = {
        m: (spec["starts"][m], PhysicalDisk(imgs[m], spec["bases"][m], spec["sizes"][m]))
        for m in spec["order"]
        if m not in missing
    }
    vd = VirtualDisk("vol", "uuid", size, spec["level"], spec["layout"], spec["chunk"], spec["n"], disk_map)
    return vd, lay, size, ranges


def check(ctx, spec):
    vd, lay, size, ranges = assemble(spec)
    what = f"level {spec['level']} layout {spec['layout']:#x} of {spec['n']}"
    with subject(f"{what}: open"):
        fh = vd.open()
    hist.verify(fh, raidgen.content(size, 10), ranges, what)
    if size < 200000:
        small = [(0, size)]
        vd, *_ = assemble(spec, small)
        with subject(f"{what}: open"):
            fh = vd.open()
        hist.verify_whole(fh, raidgen.content(size, 10), what)
        ctx.label("read whole")
    ctx.label(f"layout {spec['layout']:#x}", f"{spec['n']} members")
    span = max((min(n, size - o) for o, n in ranges), default=0)
    ctx.label("crosses chunks" if span > spec["chunk"] else "within chunks", "non power of two" if spec["chunk"] & spec["chunk"] - 1 else "")
    if not any(min(n, size - o) > 0 for o, n in ranges):
        ctx.mark_trivial()


@st.composite
def unknown(draw, level):
    """An array that states a layout there is not for its level."""
    spec = draw(arrays(level))
    if level == 10:
        layout = spec["layout"] & 0x1FFFF | draw(st.one_of(st.integers(3, 9), wide(3, 0x7FFF))) << 17
    else:
        known = raid.R5_LAYOUTS if level == 5 else raid.R6_LAYOUTS
        layout = draw(st.one_of(st.integers(0, 40), wide(0, 0xFFFFFFFF)).filter(lambda x: x not in known))
    return {**spec, "stated": layout}


def check_unknown(ctx, spec):
    vd, lay, size, ranges = assemble(spec)
    vd.layout = spec["stated"]
    what = f"level {spec['level']} of {spec['n']} with the unknown layout {spec['stated']:#x}"
    fh, error = attempt(vd.open)
    for off, length in ranges:
        length = min(length, size - off)
        if error is None and length > 0:
            data, refused = attempt(lambda: (fh.seek(off), fh.read(length))[1])
            expect(refused is not None, f"{what}: {length} bytes at {off} are read as if it were known")
            ctx.label("refused on reading")
    ctx.label("refused on opening" if error is not None else "")
    if error is None and not any(min(n, size - o) > 0 for o, n in ranges):
        ctx.mark_trivial()


CHECK = Check(
    "C10",
    "at least one byte is read, or the volume is refused",
    [
        Part("raid4", arrays(4), check, quick=600, thorough=8000),
        Part("raid5", arrays(5), check, quick=2000, thorough=25000),
        Part("raid6", arrays(6), check, quick=3000, thorough=40000),
        Part("unknown5", unknown(5), check_unknown, quick=250, thorough=2500),
        Part("unknown6", unknown(6), check_unknown, quick=250, thorough=2500),
    ],
)

if __name__ == "__main__":
    CHECK.main()
