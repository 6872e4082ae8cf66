from hypothesis import strategies as st

from vlib import vinum, vinumgen
from vlib.core import Check, Part, attempt, expect, same, subject
from vlib.gen import HANDS, hand

from dissect.volume.vinum.vinum import Vinum, VinumPhysicalDisk

VOLUME_STATE = st.sampled_from([b"up", b"up", b"down"])
PLEX_STATE = st.sampled_from([b"up"] * 4 + [b"down", b"degraded", b"growable", b"initializing", b"strange"])
SD_STATE = st.sampled_from([b"up"] * 6 + [b"growable", b"growable", b"down", b"degraded", b"initializing", b"stale"])
LEVEL = {b"concat": -1, b"striped": 0, b"raid5": 5}
UNUSABLE = (b"down", b"degraded", b"initializing", b"stale")


def versions(draw, base, kind):
    """The same configuration at another time: things appear, vanish, move and change state."""
    out = []
    for item in base:
        if draw(st.integers(0, 7)) == 7:
            continue
        item = dict(item)
        if kind == "volumes":
            item["state"] = draw(VOLUME_STATE)
        elif kind == "plexes":
            item["state"] = draw(PLEX_STATE)
            other = draw(st.integers(0, 19))
            if other == 19:
                item["org"] = b"?"
            elif other == 18:
                item["volume"] = b"nowhere"
        else:
            item["state"] = draw(SD_STATE)
            other = draw(st.integers(0, 19))
            if other == 19:
                item["drive"] = b"nowhere"
            elif other == 18:
                item["plex"] = b"nowhere"
            elif other == 17:
                item["drive"] = vinumgen.DRIVES[draw(st.integers(0, 5))]
        out.append(item)
    return out


@st.composite
def cases(draw):
    system = draw(vinumgen.systems())
    base = vinumgen.config(system)
    n = len(system["used"])
    count = draw(st.integers(1, min(3, n)))
    configs = [{k: versions(draw, v, k) for k, v in base.items()} for _ in range(count)]
    # later configurations are on drives with later times
    start = draw(st.integers(1, 2000000000)) * 1000000 + draw(st.integers(0, 999999))
    times = [start]
    for _ in range(count - 1):
        times.append(times[-1] + draw(st.sampled_from([1, 999999, 1000000, 10**12])))
    return {
        "system": system,
        "configs": configs,
        "times": times,
        "drives": [
            {
                "version": draw(st.integers(0, count - 1)),
                "active": draw(st.integers(0, 6)) < 6,
                "old_magic": draw(st.booleans()),
                "missing": draw(st.integers(0, 9)) == 9,
                "second": draw(st.sampled_from(["same", "same", "other"])),
            }
            for _ in range(n)
        ],
        "hands": draw(HANDS),
        "given": draw(st.permutations(range(n))),
    }


def members(sds, drives):
    """Place in the plex -> (drive, where the subdisk starts on it)."""
    out = {}
    for i, s in enumerate(sorted(sds, key=lambda s: s["plexoffset"])):
        if s["state"] not in UNUSABLE and s["drive"] in drives:
            out[i] = s["drive"]
    return out


def expected(spec):
    """What the volumes have to look like: by name, the plexes in order of their names."""
    given = [d for d in spec["drives"] if d["active"] and not d["missing"]]
    drives = {vinumgen.DRIVES[i] for i, d in enumerate(spec["drives"]) if d["active"] and not d["missing"]}
    newest = {"volumes": {}, "plexes": {}, "sds": {}}
    for version in sorted({d["version"] for d in given}):
        for kind, items in spec["configs"][version].items():
            newest[kind].update({item["name"]: item for item in items})
    out = {}
    for name, vol in newest["volumes"].items():
        plexes = []
        usable = sorted(
            (p for p in newest["plexes"].values() if p["volume"] == name and p["state"] not in (b"down", b"strange") and p["org"] in LEVEL),
            key=lambda p: p["name"],
        )
        for i, p in enumerate(usable):
            sds = [s for s in newest["sds"].values() if s["plex"] == p["name"]]
            found = members(sds, drives)
            if not found:
                continue
            total = sum(s["length"] for s in sds) - (sds[0]["length"] if p["org"] == b"raid5" else 0)
            plexes.append(
                {
                    "place": i,
                    "name": p["name"].decode(errors="surrogateescape"),
                    "level": LEVEL[p["org"]],
                    "stripe": 0 if p["org"] == b"concat" else p["stripe"],
                    "count": len(sds),
                    "size": total,
                    "members": found,
                }
            )
        if plexes:
            out[name] = {"mirror": len(usable) > 1, "count": len(usable), "up": vol["state"] == b"up", "plexes": plexes}
    return out


def describe(place, vd):
    return {
        "place": place,
        "name": vd.uuid,
        "level": int(vd.level),
        "stripe": vd.stripe_size,
        "count": vd.num_disks,
        "size": vd.size,
        "members": {i: disk.id for i, (_, disk) in vd.disk_map.items()},
    }


def check(ctx, spec):
    system = spec["system"]
    writer = vinum.Writer(system["choices"])
    texts = [writer.text(c, system["order"]) for c in spec["configs"]]
    imgs = []
    for i, d in enumerate(spec["drives"]):
        magics = vinum.ACTIVE if d["active"] else vinum.INACTIVE
        time = divmod(spec["times"][d["version"]], 1000000)
        second = texts[d["version"] - 1] if d["second"] == "other" else None
        imgs.append(vinumgen.drive(system, i, texts[d["version"]], time, magics[not d["old_magic"]], second))
    given = [i for i in spec["given"] if not spec["drives"][i]["missing"]]
    want = expected(spec)
    what = f"drives {[(i, spec['drives'][i]['version'], 'active' if spec['drives'][i]['active'] else 'inactive') for i in given]}"
    if not want:
        result, error = attempt(Vinum, [imgs[i] for i in given])
        expect(error is not None, f"{what}: opened although no volume has anything usable")
        ctx.label("nothing usable")
        ctx.mark_trivial()
        return
    with subject(f"{what}: open the system"):
        configuration = Vinum(hand([imgs[i] for i in given], spec["hands"], VinumPhysicalDisk)).configurations[0]
        got = {}
        for vd in configuration.virtual_disks:
            name = vd.volume.name
            expect(name not in got, f"{what}: volume {name} found twice")
            mirror = vd.level == 1
            parts = [describe(i, d) for i, (_, d) in sorted(vd.disk_map.items())] if mirror else [describe(0, vd)]
            got[name] = {"mirror": mirror, "count": vd.num_disks if mirror else 1, "up": vd.volume.state.name == "UP", "plexes": parts}
            same(vd.name, name.decode(errors="backslashreplace"), f"{what}: name of the volume")
            same(vd.size, parts[0]["size"], f"{what}: size of the volume {name}")
    same(sorted(got), sorted(want), f"{what}: volumes")
    for name in want:
        same(got[name], want[name], f"{what}: volume {name!r}")
    for name, v in want.items():
        ctx.label("mirror" if v["mirror"] else "one plex")
        for p in v["plexes"]:
            ctx.label("some members left out" if len(p["members"]) < p["count"] else "all members")
    ctx.label(f"{len({spec['drives'][i]['version'] for i in given})} versions", "inactive drives" if not all(spec["drives"][i]["active"] for i in given) else "")


CHECK = Check(
    "C27",
    "at least one volume has something usable",
    [Part("newest", cases(), check, quick=2500, thorough=30000)],
)

if __name__ == "__main__":
    CHECK.main()
