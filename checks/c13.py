from hypothesis import strategies as st

from checks import c10
from vlib import ddfgen, hist, mdgen, raid, raidgen, vinum, vinumgen
from vlib.core import Check, Part, attempt, expect, subject
from vlib.img import pattern

from dissect.volume.ddf.ddf import DDF
from dissect.volume.exceptions import RAIDError
from dissect.volume.md.md import MD
from dissect.volume.vinum.vinum import Vinum

TOLERATED = {-1: 0, 0: 0, 4: 1, 5: 1, 6: 2}


@st.composite
def arrays(draw):
    level = draw(st.sampled_from([-1, 0, 4, 5, 5, 6, 6, 10, 10, 1]))
    spec = draw(c10.arrays(level, ops=8))
    n = spec["n"]
    if level == -1:
        spec = {**spec, "starts": [0] * n, "chunk": 4096}
    few = draw(st.booleans())
    missing = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=min(n, 3) if few else n, unique=True))
    return {**spec, "trim": 0, "missing": missing}


def members_of(spec, vd):
    return [
        (vd.disk_map[m][1].fh, spec["bases"][m] + spec["starts"][m]) if m in vd.disk_map else (None, 0)
        for m in range(spec["n"])
    ]


def check(ctx, spec):
    level, n, gone = spec["level"], spec["n"], len(spec["missing"])
    vd, lay, size, ranges = c10.assemble(spec, missing=spec["missing"])
    what = f"level {level} layout {spec['layout']:#x} of {n} without {sorted(spec['missing'])}"
    tolerated = TOLERATED.get(level)
    fh, error = attempt(vd.open)
    ctx.label(f"level {level}", f"{gone} missing")
    if tolerated is not None and gone > tolerated:
        expect(error is not None, f"{what}: opened although {gone} members are missing")
        expect(isinstance(error, RAIDError), f"{what}: {type(error).__name__} instead of RAIDError: {error}")
        ctx.label("refused")
        return
    if error is not None:
        expect(level not in (4, 5, 6), f"{what}: refused although the level tolerates it: {error!r}")
        ctx.label("refused")
        return
    good = bad = 0
    for off, length in ranges:
        length = min(length, size - off)
        if length <= 0:
            continue
        data, error = attempt(lambda: (fh.seek(off), fh.read(length))[1])
        if error is None:
            hist.compare(data, pattern(10, off, length), off, what)
            good += 1
        else:
            bad += 1
    # whole chunks on members that are there
    for off, _ in ranges:
        off = off // lay.unit * lay.unit
        length = min(lay.unit, size - off)
        if level not in (4, 5, 6, 10) or length <= 0:
            continue
        [(member, *_)] = lay.pieces(off, length)
        if member in spec["missing"]:
            continue
        raid.write_ranges(lay, members_of(spec, vd), 10, size, [(off, length)])
        with subject(f"{what}: read the chunk at {off}, which is on member {member}"):
            fresh = vd.open()
            fresh.seek(off)
            data = fresh.read(length)
        hist.compare(data, pattern(10, off, length), off, what)
        ctx.label("chunk of a present member")
    ctx.label("read" if good else "", "read error" if bad else "", "both" if good and bad else "")
    if not good + bad:
        ctx.mark_trivial()


@st.composite
def subsets(draw, n):
    """Some devices, of which at least one is left."""
    most = min(n - 1, 3) if draw(st.booleans()) else n - 1
    return draw(st.lists(st.integers(0, n - 1), min_size=min(1, n - 1), max_size=most, unique=True))


@st.composite
def md_sets(draw):
    a = draw(mdgen.arrays(draw(st.sampled_from([-1, 0, 4, 5, 5, 6, 6, 10, 10, 1]))))
    return {
        "array": a,
        "missing": draw(subsets(a["n"])),
        "given": draw(st.permutations(range(a["n"]))),
        "spots": draw(raidgen.SPOTS),
        "ops": draw(hist.extents(8)),
    }


@st.composite
def ddf_sets(draw):
    g = draw(ddfgen.groups(vds=2))
    n = len(g["refs"])
    return {
        "group": g,
        "missing": draw(subsets(n)),
        "given": draw(st.permutations(range(n))),
        "reads": [{"spots": draw(raidgen.SPOTS), "ops": draw(hist.extents(6))} for _ in g["vds"]],
    }


@st.composite
def vinum_sets(draw):
    system = draw(vinumgen.systems(plexes=2))
    n = len(system["used"])
    return {
        "system": system,
        "missing": draw(subsets(n)),
        "down": draw(st.lists(st.integers(0, 99), max_size=2)),
        "given": draw(st.permutations(range(n))),
        "reads": [{"spots": draw(raidgen.SPOTS), "ops": draw(hist.extents(6))} for _ in system["volumes"]],
    }


def judge(ctx, what, level, gone, vd, tag, size, ranges):
    """One volume of a set without some of its members: refused, or right wherever it can be read."""
    tolerated = TOLERATED.get(level)
    fh, error = attempt(vd.open)
    ctx.label(f"level {level}", f"{min(gone, 4)} missing")
    if tolerated is not None and gone > tolerated:
        expect(error is not None, f"{what}: opened although {gone} members are missing")
        expect(isinstance(error, RAIDError), f"{what}: {type(error).__name__} instead of RAIDError: {error}")
        ctx.label("refused")
        return 1
    if error is not None:
        expect(gone and level not in (4, 5, 6), f"{what}: refused although {gone} of its members are missing: {error!r}")
        ctx.label("refused")
        return 1
    good = bad = 0
    for off, length in ranges:
        length = min(length, size - off)
        if length <= 0:
            continue
        data, error = attempt(lambda: (fh.seek(off), fh.read(length))[1])
        if error is None:
            hist.compare(data, pattern(tag, off, length), off, what)
            good += 1
        else:
            expect(gone, f"{what}: {length} bytes at {off} cannot be read: {error!r}")
            bad += 1
    ctx.label("read" if good else "", "read error" if bad else "")
    return good + bad


def check_md(ctx, spec):
    a = spec["array"]
    level, gone = a["level"], len(spec["missing"])
    what = f"version {a['version']} level {level} layout {a['layout']:#x} of {a['n']} without {sorted(spec['missing'])}"
    lay = raidgen.model({**a, "chunk": a["chunk"] or 4096})
    # a mirror is read to the end of its member's data area, a linear array may be shorter than with all members
    size = lay.size
    members = mdgen.build(a)
    ranges = raidgen.plan(lay, size, spec["spots"], spec["ops"])
    ranges = [(o, min(n, size - o)) for o, n in ranges if o < size]
    raid.write_ranges(lay, members, 13, size, ranges)
    with subject(f"{what}: assemble"):
        [conf] = MD([members[m][0] for m in spec["given"] if m not in spec["missing"]]).configurations
        [vd] = conf.virtual_disks
        end = min(size, vd.size)
    ranges = [(o, min(n, end - o)) for o, n in ranges if o < end]
    if not judge(ctx, what, level, gone, vd, 13, end, ranges):
        ctx.mark_trivial()


def check_ddf(ctx, spec):
    g = spec["group"]
    ss = g["sector"]
    imgs = [ddfgen.disk(g, d, 3000 + d) for d in range(len(g["refs"]))]
    plans = []
    for i, (vd, reads) in enumerate(zip(g["vds"], spec["reads"])):
        lay = raidgen.model(vd["model"])
        size = vd["size"] * vd["unit"]
        ranges = [(o, min(n, size - o)) for o, n in raidgen.plan(lay, size, reads["spots"], reads["ops"]) if o < size]
        raid.write_ranges(lay, [(imgs[d], start * ss) for d, start in zip(vd["disks"], vd["starts"])], 130 + i, size, ranges)
        plans.append((size, ranges))
    with subject(f"read the DDF metadata without the disks {spec['missing']}"):
        [conf] = DDF([imgs[d] for d in spec["given"] if d not in spec["missing"]], ss).configurations
        found = {vd.uuid: vd for vd in conf.virtual_disks}
    seen = 0
    for i, (vd, (size, ranges)) in enumerate(zip(g["vds"], plans)):
        gone = len(set(vd["disks"]) & set(spec["missing"]))
        if gone == len(vd["disks"]):
            continue
        what = f"{vd['kind']} of {len(vd['disks'])} disks without {gone} of them"
        expect(vd["guid"].hex() in found, f"{what}: not listed")
        seen += judge(ctx, what, vd["model"]["level"], gone, found[vd["guid"].hex()], 130 + i, size, ranges)
    if not seen:
        ctx.mark_trivial()


def check_vinum(ctx, spec):
    system = spec["system"]
    config = vinumgen.config(system)
    for x in spec["down"]:
        config["sds"][x % len(config["sds"])]["state"] = (b"down", b"initializing", b"degraded")[x % 3]
    text = vinum.Writer(system["choices"]).text(config, system["order"])
    imgs = [vinumgen.drive(system, i, text) for i in range(len(system["used"]))]
    down = {s["name"] for s in config["sds"] if s["state"] != b"up"}
    plans = {}
    for v, (vol, reads) in enumerate(zip(system["volumes"], spec["reads"])):
        lays = [vinumgen.plex_model(p) for p in vol["plexes"]]
        size = lays[0].size
        ranges = [(o, min(n, size - o)) for o, n in raidgen.plan(lays[0], size, reads["spots"], reads["ops"]) if o < size]
        for lay, p in zip(lays, vol["plexes"]):
            raid.write_ranges(lay, [(imgs[s["drive"]], s["offset"]) for s in p["sds"]], 140 + v, size, ranges)
        plans[vol["name"]] = (140 + v, size, ranges)
    result, error = attempt(Vinum, [imgs[i] for i in spec["given"] if i not in spec["missing"]])
    lost = {
        p["name"]: [s for s in p["sds"] if s["drive"] in spec["missing"] or s["name"] in down]
        for vol in system["volumes"]
        for p in vol["plexes"]
    }
    anything = any(len(lost[p["name"]]) < len(p["sds"]) for vol in system["volumes"] for p in vol["plexes"])
    expect(anything == (error is None), f"{len(spec['missing'])} drives missing: {error!r}, but {'some' if anything else 'no'} subdisk is there")
    seen = 0
    disks = {vd.volume.name: vd for vd in result.configurations[0].virtual_disks} if result else {}
    for vol in system["volumes"]:
        plexes = vol["plexes"]
        gone = [len(lost[p["name"]]) for p in plexes]
        if all(n == len(p["sds"]) for n, p in zip(gone, plexes)):
            continue
        what = f"volume of {[(p['org'], len(p['sds'])) for p in plexes]} without {gone} of them"
        expect(vol["name"] in disks, f"{what}: not listed")
        level = 1 if len(plexes) > 1 else {"concat": -1, "striped": 0, "raid5": 5}[plexes[0]["org"]]
        tag, size, ranges = plans[vol["name"]]
        vd = disks[vol["name"]]
        end = size
        if level == 1:
            with subject(f"{what}: size"):
                end = min(size, vd.size)
        seen += judge(ctx, what, level, sum(gone), vd, tag, end, [(o, min(n, end - o)) for o, n in ranges if o < end])
    if not seen:
        ctx.mark_trivial()


CHECK = Check(
    "C13",
    "the volume is refused or at least one read is attempted",
    [
        Part("missing", arrays(), check, quick=4000, thorough=50000),
        Part("md", md_sets(), check_md, quick=1000, thorough=12000),
        Part("ddf", ddf_sets(), check_ddf, quick=700, thorough=9000),
        Part("vinum", vinum_sets(), check_vinum, quick=700, thorough=9000),
    ],
)

if __name__ == "__main__":
    CHECK.main()
