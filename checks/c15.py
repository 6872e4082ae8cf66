import uuid

from hypothesis import strategies as st

from vlib import md, mdgen
from vlib.core import Check, Part, expect, same, subject
from vlib.gen import HANDS, hand, wide
from vlib.img import Img, pattern

from dissect.volume.md.md import MD, MDPhysicalDisk

KINDS = {"spare": mdgen.SPARE, "faulty": mdgen.FAULTY, "journal": mdgen.JOURNAL}


@st.composite
def sets(draw):
    arrays = []
    for i in range(draw(st.sampled_from([1, 1, 2, 3]))):
        a = draw(mdgen.arrays())
        a["uuid"] = bytes([i + 1]) + a["uuid"][1:]
        n = a["n"]
        a["events"] = max(2, a["events"])
        kinds = ["spare", "faulty"] if a["version"] == "0.90" else ["spare", "faulty", "journal", "new spare"]
        extras = draw(st.lists(st.sampled_from(kinds), max_size=3))
        present = sorted(draw(st.sets(st.integers(0, n - 1), min_size=1))) if draw(st.booleans()) else list(range(n))
        # the first of these has the highest count
        leader = draw(st.sampled_from(present))
        behind = {m: draw(st.sampled_from([0, 0, 1, 2, a["events"]])) for m in present}
        behind[leader] = 0
        # devices that were replaced, and still claim the role of the one that replaced them
        doubles, rebuilding = [], {}
        rebuilds = a["version"] != "0.90" and a["level"] > 0
        if rebuilds:
            # members that are still being rebuilt, from where on
            rebuilding = {m: draw(wide(0, 1 << 20)) for m in present if behind[m] == 0 and m != leader and draw(st.integers(0, 3)) == 3}
        for m in draw(st.one_of(st.just([]), st.lists(st.sampled_from(present), max_size=2))):
            if behind[m] < a["events"]:
                doubles.append((m, draw(wide(behind[m] + 1, a["events"])), draw(st.booleans()), None))
        if rebuilds and draw(st.booleans()):
            # a device that is to replace one, and does not have all of its data yet
            m = draw(st.sampled_from(present))
            if behind[m] == 0 and m not in rebuilding and m not in [d[0] for d in doubles]:
                doubles.append((m, 0, True, draw(wide(0, 1 << 20))))
        arrays.append(
            {
                **a,
                "extras": extras,
                "extra_behind": [draw(st.sampled_from([0, 1])) for _ in extras],
                "present": present,
                "doubles": doubles,
                "behind": behind,
                "rebuilding": rebuilding,
                "old_name": draw(mdgen.NAME),
                "old_chunk": draw(st.sampled_from([4096, 65536, 131072])),
                "old_disks": draw(st.integers(1, 9)),
            }
        )
    total = sum(len(a["present"]) + len(a["extras"]) + len(a["doubles"]) for a in arrays)
    return {"arrays": arrays, "hands": draw(HANDS), "order": draw(st.permutations(range(total)))}


def stale(a, fields, behind):
    """What a device says that missed the last changes of the array."""
    fields["events"] = max(0, a["events"] - behind)
    if behind:
        fields["name"] = a["old_name"]
        fields["chunk"] = a["old_chunk"] // (1 if a["version"] == "0.90" else 512)
        fields["raid_disks"] = a["old_disks"]
    return fields


def rebuilt(fields, recovered):
    """What a device says that has the data up to some sector only."""
    if recovered is not None:
        fields["features"] |= 2
        fields["recovered"] = recovered
    return fields


def devices(a, tag):
    """-> [(device, its role or None)]"""
    n, v90 = a["n"], a["version"] == "0.90"
    free = [x for x in range(n + len(a["extras"]) + 8) if x not in a["numbers"]]
    extra, late = [], 0
    for i, kind in enumerate(a["extras"]):
        if v90:
            extra.append((n + i, kind))
        elif kind == "new spare":
            # not in the table of roles yet
            extra.append((500 + late, kind))
            late += 1
        else:
            extra.append((free[i], kind))
    if v90:
        disks = [(i, i, 6) for i in range(n)] + [(number, number, 1 if kind == "faulty" else 0) for number, kind in extra]
        disks = disks[:27]
        table = {"disks": disks}
    else:
        table = {"roles": mdgen.roles_table(a, [(number, KINDS[kind]) for number, kind in extra if kind != "new spare"])}
    out = []
    built = mdgen.build(a, tag)
    for m in a["present"]:
        img, start = built[m]
        md.write(img, a["version"], img.length // 512, stale(a, rebuilt(mdgen.superblock(a, m, **table), a["rebuilding"].get(m)), a["behind"][m]))
        out.append((img, m, tag + m, start))
    for i, (number, kind) in enumerate(extra):
        sectors = mdgen.device_sectors(a, 0)
        img = Img(sectors * 512, tag=tag + 50 + i)
        fields = stale(a, mdgen.superblock(a, 0, **table), a["extra_behind"][i])
        fields["dev_number"] = number
        fields["device_uuid"] = bytes([100 + i]) * 16
        md.write(img, a["version"], sectors, fields)
        out.append((img, None, tag + 50 + i, mdgen.data_start(a, 0) * 512))
    for i, (m, behind, renumbered, recovered) in enumerate(a["doubles"]):
        sectors = mdgen.device_sectors(a, m)
        img = Img(sectors * 512, tag=tag + 80 + i)
        fields = stale(a, rebuilt(mdgen.superblock(a, m), recovered), behind)
        if recovered is not None:
            fields["features"] |= 16
        if renumbered and not v90:
            fields["dev_number"] = free[-1]
            fields["roles"] = mdgen.roles_table(a, [(free[-1], m)])
        fields["device_uuid"] = bytes([150 + i]) * 16
        md.write(img, a["version"], sectors, fields)
        out.append((img, None, tag + 80 + i, mdgen.data_start(a, m) * 512))
    return out


def check(ctx, spec):
    everything, wanted = [], {}
    for i, a in enumerate(spec["arrays"]):
        devs = devices(a, 2000 + 100 * i)
        everything += [d[0] for d in devs]
        wanted[str(uuid.UUID(bytes_le=a["uuid"]))] = (a, devs)
    with subject("assemble"):
        result = MD(hand([everything[i] for i in spec["order"]], spec["hands"], MDPhysicalDisk))
        confs = list(result.configurations)
        vds = [vd for conf in confs for vd in conf.virtual_disks]
    same(sorted(vd.uuid for vd in vds), sorted(wanted), "volumes")
    for vd in vds:
        a, devs = wanted[vd.uuid]
        what = f"version {a['version']} level {a['level']} array of {a['n']} with {a['extras']}"
        same(vd.name, None if a["version"] == "0.90" else a["name"].decode(errors="surrogateescape"), f"{what}: name")
        same(vd.level, a["level"], f"{what}: level")
        same(vd.layout, a["layout"], f"{what}: layout")
        same(vd.stripe_size, a["chunk"], f"{what}: chunk size")
        same(vd.num_disks, a["n"], f"{what}: members")
        same(sorted(vd.disk_map), a["present"], f"{what}: roles in use")
        if a["level"] == 1:
            current = [(tag, start) for _, role, tag, start in devs if role is not None and a["behind"][role] == 0 and role not in a["rebuilding"]]
            with subject(f"{what}: read the mirror"):
                got = vd.open().read(512)
            expect(any(got == pattern(tag, start, 512) for tag, start in current), f"{what}: a mirror is not read from one of its most recent members that have all data")
        for img, role, tag, start in devs:
            if role is None:
                continue
            offset, disk = vd.disk_map[role]
            same(offset, 0, f"{what}: start on member {role}")
            # somewhere in the data area, away from any superblock
            with subject(f"{what}: open member {role}"):
                fh = disk.open()
                fh.seek(0)
                got = fh.read(512)
            expect(got == pattern(tag, start, 512), f"{what}: role {role} is not the device whose superblock says so")
        ctx.label("members being rebuilt" if a["rebuilding"] else "", "device being replaced" if any(d[3] is not None for d in a["doubles"]) else "")
        ctx.label("replaced devices" if a["doubles"] else "", "mirror with stale members" if a["level"] == 1 and any(a["behind"].values()) else "")
        ctx.label(f"version {a['version']}", *(f"with {x}" for x in a["extras"]), "stale members" if any(a["behind"].values()) else "", "members missing" if len(a["present"]) < a["n"] else "")
    same(sorted(len(c.physical_disks) for c in confs), sorted(len(d) for _, d in wanted.values()), "devices per array")
    ctx.label(f"{len(vds)} arrays")
    if len(everything) == 1:
        ctx.mark_trivial()


CHECK = Check(
    "C15",
    "at least two devices",
    [Part("assemble", sets(), check, quick=3000, thorough=40000)],
    assumptions=["of two devices that claim the same role, one has a higher event count or is still being rebuilt"],
)

if __name__ == "__main__":
    CHECK.main()
