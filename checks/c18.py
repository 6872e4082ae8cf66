from hypothesis import strategies as st

from vlib import ddfgen, hist, raid, raidgen
from vlib.core import Check, Part, same, subject
from vlib.gen import HANDS, hand

from dissect.volume.ddf.ddf import DDF, DDFPhysicalDisk


@st.composite
def cases(draw, kinds):
    g = draw(ddfgen.groups(kinds=kinds, vds=2))
    return {
        "group": g,
        "hands": draw(HANDS),
        "order": draw(st.permutations(range(len(g["refs"])))),
        "reads": [{"spots": draw(raidgen.SPOTS), "ops": draw(hist.extents(5))} for _ in g["vds"]],
    }


def check(ctx, spec):
    g = spec["group"]
    ss = g["sector"]
    imgs = [ddfgen.disk(g, d, 3000 + d) for d in range(len(g["refs"]))]
    plans = []
    for i, (vd, reads) in enumerate(zip(g["vds"], spec["reads"])):
        lay = raidgen.model(vd["model"])
        size = vd["size"] * vd["unit"]
        ranges = raidgen.plan(lay, size, reads["spots"], reads["ops"])
        if size < 100000:
            ranges = [*ranges, (0, size)]
        if vd["model"]["level"] == 1:
            ranges = [(o, min(n, size - o)) for o, n in ranges if o < size]
        raid.write_ranges(lay, [(imgs[d], start * ss) for d, start in zip(vd["disks"], vd["starts"])], 18 + i, size, ranges)
        plans.append((size, ranges))
    with subject("read the DDF metadata"):
        [conf] = DDF(hand([imgs[d] for d in spec["order"]], spec["hands"], lambda img: DDFPhysicalDisk(img, ss)), ss).configurations
        found = {vd.uuid: vd for vd in conf.virtual_disks}
    same(sorted(found), sorted(vd["guid"].hex() for vd in g["vds"]), "volumes")
    read = 0
    for i, (vd, (size, ranges)) in enumerate(zip(g["vds"], plans)):
        what = f"{vd['kind']} of {vd['pec'] * vd['sec']} disks, strip {vd['unit'] << vd['strip']}"
        with subject(f"{what}: open"):
            fh = found[vd["guid"].hex()].open()
        read += hist.verify(fh, raidgen.content(size, 18 + i), ranges, what, sizes=vd["model"]["level"] != 1)
        ctx.label(vd["kind"], "start block" if any(vd["starts"]) else "", "different starts" if len(set(vd["starts"])) > 1 else "")
    ctx.label(f"{len(plans)} volumes", f"sector size {ss}")
    if not read:
        ctx.mark_trivial()


def part(name, quick, *kinds):
    return Part(name, cases({k: ddfgen.KINDS[k] for k in kinds}), check, quick=quick, thorough=quick * 12)


ALL = sorted(ddfgen.KINDS)
CHECK = Check(
    "C18",
    "at least one byte is read",
    [
        part("concat", 200, "concat"),
        part("raid0", 500, "raid0"),
        part("raid1", 250, "raid1", "raid1x3"),
        part("parity", 1200, *(k for k in ALL if k[:5] in ("raid4", "raid5", "raid6"))),
        part("raid10", 700, "raid10", "raid10x3", "raid1e adjacent", "raid1e offset"),
        part("mixed", 500, *(k for k in ALL if k != "concat")),
    ],
    assumptions=["a concatenation takes its members entirely"],
)

if __name__ == "__main__":
    CHECK.main()
