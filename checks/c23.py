from hypothesis import strategies as st

from vlib import hist, lvmgen, lvmtext
from vlib.core import Check, Part, same, subject
from vlib.gen import HANDS, hand

from dissect.volume.lvm import LVM2
from dissect.volume.lvm.physical import LVM2Device


@st.composite
def cases(draw):
    g = draw(lvmgen.stores())
    return {"group": g, "hands": draw(HANDS), "order": draw(st.permutations(range(len(g["used"])))), "ops": [draw(hist.extents(6)) for _ in g["volumes"]]}


def check(ctx, spec):
    g = spec["group"]
    text = lvmtext.Printer(g["choices"]).text(lvmgen.group_tree(g))
    imgs = lvmgen.build(g, [text] * len(g["used"]))
    with subject("open the group"):
        vs = LVM2(hand([imgs[i] for i in spec["order"]], spec["hands"], LVM2Device))
    read = 0
    for (name, segs), ops in zip(g["volumes"].items(), spec["ops"]):
        model = lvmgen.volume(g, segs)
        unit = (segs[0]["stripe_size"] or g["extent"]) * 512
        ranges = hist.resolve(ops, lvmgen.volume_marks(g, segs), model.size, unit)
        what = f"volume of {[(len(s['stripes']), s['count'], s['stripe_size']) for s in segs]} (stripes, extents, stripe size), extents of {g['extent']} sectors"
        with subject(f"{what}: open"):
            fh = vs.vg.logical_volumes[name].open()
            size = fh.size
        same(size, model.size, f"{what}: size")
        read += hist.verify(fh, model, ranges, what)
        if model.size < 60000:
            hist.verify_whole(fh, model, what)
            ctx.label("read whole")
        ctx.label("striped" if any(s["stripe_size"] for s in segs) else "linear", f"{min(len(segs), 3)}+ segments")
    ctx.label(f"{len(g['used'])} devices", "header size too small" if any(g["short"]) else "")
    if not read:
        ctx.mark_trivial()


CHECK = Check(
    "C23",
    "at least one byte is read",
    [Part("volumes", cases(), check, quick=1500, thorough=20000)],
)

if __name__ == "__main__":
    CHECK.main()
