from hypothesis import strategies as st

from vlib import hist, raid, raidgen, vinum, vinumgen
from vlib.core import Check, Part, same, subject
from vlib.gen import HANDS, hand

from dissect.volume.vinum.vinum import Vinum, VinumPhysicalDisk


@st.composite
def cases(draw):
    system = draw(vinumgen.systems())
    return {
        "system": system,
        "spots": [draw(raidgen.SPOTS) for _ in system["volumes"]],
        "ops": [draw(hist.extents(6)) for _ in system["volumes"]],
        "hands": draw(HANDS),
        "given": draw(st.permutations(range(len(system["used"])))),
    }


def prepare(spec):
    """-> (drives, {volume name: (size, read plan)})"""
    system = spec["system"]
    text = vinum.Writer(system["choices"]).text(vinumgen.config(system), system["order"])
    imgs = [vinumgen.drive(system, i, text) for i in range(len(system["used"]))]
    plans = {}
    for v, (vol, spots, ops) in enumerate(zip(system["volumes"], spec["spots"], spec["ops"])):
        lays = [vinumgen.plex_model(p) for p in vol["plexes"]]
        size = lays[0].size
        ranges = raidgen.plan(lays[0], size, spots, ops)
        for lay, p in zip(lays, vol["plexes"]):
            raid.write_ranges(lay, [(imgs[s["drive"]], s["offset"]) for s in p["sds"]], 280 + v, size, ranges)
        plans[vol["name"]] = (280 + v, size, ranges)
    return imgs, plans


def check(ctx, spec):
    system = spec["system"]
    imgs, plans = prepare(spec)
    with subject("open the system"):
        configuration = Vinum(hand([imgs[i] for i in spec["given"]], spec["hands"], VinumPhysicalDisk)).configurations[0]
        disks = {vd.volume.name: vd for vd in configuration.virtual_disks}
    same(sorted(disks), sorted(plans), "volumes")
    read = 0
    for vol in system["volumes"]:
        tag, size, ranges = plans[vol["name"]]
        shape = [(p["org"], len(p["sds"]), p["stripe"]) for p in vol["plexes"]]
        what = f"volume {vol['name']!r} of plexes {shape}"
        with subject(f"{what}: open"):
            got = disks[vol["name"]].size
            fh = disks[vol["name"]].open()
        same(got, size, f"{what}: size")
        read += hist.verify(fh, raidgen.content(size, tag), ranges, what)
        ctx.label(vol["plexes"][0]["org"], "mirrored" if len(vol["plexes"]) > 1 else "not mirrored")
        sds = vol["plexes"][0]["sds"]
        ctx.label("subdisks share a drive" if len({s["drive"] for s in sds}) < len(sds) else "")
        ctx.label("subdisk behind the start of its drive" if any(s["offset"] > vinum.DATA for s in sds) else "all at the start")
    if not read:
        ctx.mark_trivial()


CHECK = Check(
    "C28",
    "at least one byte is read",
    [Part("volumes", cases(), check, quick=1500, thorough=20000)],
)

if __name__ == "__main__":
    CHECK.main()
