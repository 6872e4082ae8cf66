import signal
import struct

from hypothesis import strategies as st

from vlib import disks, dm, lvmgen, lvmtext, vss
from vlib.core import Check, Part, attempt, expect
from vlib.img import Img

from dissect.volume.disk import Disk
from dissect.volume.dm.thin import ThinPool
from dissect.volume.lvm import LVM2
from dissect.volume.vss import VSS

READS = 20000
SECONDS = 10
BEFORE = st.integers(0, 5)
CYCLE = st.integers(1, 4)


def raises(what, devices, fn, reads=READS):
    """The device's budget and the clock turn an endless run into a violation."""
    for img in devices:
        img.budget = reads
    signal.setitimer(signal.ITIMER_VIRTUAL, SECONDS, 1)
    _, error = attempt(fn)
    expect(error is not None, f"{what}: no error")


def following(i, before, cycle):
    """The element after element i, when the last one refers back to the first of the cycle."""
    return i + 1 if i + 1 < before + cycle else before


# --- boot records


@st.composite
def boot_records(draw):
    before, cycle = draw(BEFORE), draw(CYCLE)
    n = before + cycle
    places = draw(st.lists(st.one_of(st.integers(1, 60), st.integers(1, 1 << 31)), min_size=n, max_size=n, unique=True))
    return {
        "ss": draw(st.sampled_from([512, 512, 4096])),
        "before": before,
        "cycle": cycle,
        "first": draw(st.integers(1, 100000)),
        "places": [0, *places[1:]],
        "types": [draw(st.sampled_from([0x05, 0x0F, 0x85])) for _ in range(n + 1)],
        # how many partitions are listed before the link, and whether the link is there twice
        "shape": [(draw(st.integers(0, 3)), draw(st.booleans())) for _ in range(n)],
    }


def check_boot_records(ctx, spec):
    ss = spec["ss"]
    img = Img(1 << 46, tag=33)
    for i, (parts, twice) in enumerate(spec["shape"]):
        target = spec["places"][following(i, spec["before"], spec["cycle"])]
        link = disks.mbr_entry(0, spec["types"][i], target, 50)
        table = [disks.mbr_entry(0, 0x83, 1 + k, 1) for k in range(parts)] + [link] * (1 + twice) + [disks.EMPTY] * 4
        img.put((spec["first"] + spec["places"][i]) * ss, disks.boot_sector(table[:4]))
    img.put(0, disks.boot_sector([disks.mbr_entry(0, spec["types"][-1], spec["first"], 1000), *[disks.EMPTY] * 3]))
    # a boot record is read in many small steps
    raises(f"boot record cycle of {spec['cycle']} after {spec['before']}", [img], lambda: Disk(img, ss).partitions, 20 * READS)
    ctx.label(f"cycle of {spec['cycle']}", f"after {spec['before']}")


# --- lists of blocks of shadow copies


@st.composite
def lists(draw):
    return {
        "volume": draw(vss.volumes(most=2)),
        "where": draw(st.sampled_from(["catalog", "catalog", "block list", "block list", "bitmap", "previous bitmap"])),
        "before": draw(BEFORE),
        "cycle": draw(CYCLE),
        "steps": draw(st.lists(st.integers(1, 4), max_size=3)),
        "full": draw(st.booleans()),
    }


def check_lists(ctx, spec):
    v, where, before, cycle = spec["volume"], spec["where"], spec["before"], spec["cycle"]
    v = {**v, "stores": [{**s, "saved": []} for s in v["stores"]]}
    kind, body = {"catalog": (2, b""), "block list": (3, vss.descriptor(0, 0, 0, vss.UNUSED))}.get(where, (6, b"\xff" * 64))
    # the cycle is behind everything else on the volume
    behind = vss.build(v)[0].length // vss.BLOCK + 1
    space = vss.Space(Img(0), behind, spec["steps"])
    places = [space.take() for _ in range(before + cycle)]

    img = Img((behind + 64) * vss.BLOCK, tag=33)
    s = v["stores"][-1]
    spots = vss.Space(img, v["blocks"] + 3, v["steps"])
    parts = {"block list": spots.chain(3, b""), "ranges": spots.chain(5, b""), "bitmap": spots.chain(6, b"\x00" * 64), "previous bitmap": 0}
    info = vss.information(s)
    header = spots.chain(4, info, len(info))
    if where != "catalog":
        parts[where] = places[0]
    entries = vss.entry_2({**s, "volume_size": vss.volume_size(v)})
    entries += vss.entry_3(s, parts["block list"], header, parts["ranges"], parts["bitmap"], parts["previous bitmap"])
    if where == "catalog":
        body = entries
        vss.write_header(img, places[0])
    else:
        vss.write_header(img, spots.chain(2, entries))
    for i, place in enumerate(places):
        head = vss.IDENT + struct.pack("<IIQQQQ", 1, kind, i * vss.BLOCK, place, places[following(i, before, cycle)], 0)
        img.put(place, (head.ljust(128, b"\x00") + (body if i == 0 or spec["full"] and where != "catalog" else b"")).ljust(vss.BLOCK, b"\x00"))

    def read():
        [store] = VSS(img).catalog.stores
        store.open().read(512)

    raises(f"cycle of {cycle} after {before} in the {where}", [img], read)
    ctx.label(where, f"cycle of {cycle}", f"after {before}")


# --- trees


@st.composite
def trees(draw):
    return {
        "where": draw(st.sampled_from(["details", "devices", "blocks"])),
        "before": draw(BEFORE),
        "cycle": draw(st.integers(0, 4)),  # 0: ends in a node of no kind
        "sectors": draw(st.sampled_from([8, 1, 4])),
        "steps": draw(st.lists(st.integers(1, 5), min_size=1, max_size=3)),
        "wide": draw(st.lists(st.integers(1, 6), min_size=1, max_size=4)),
        "device": draw(st.integers(0, 0xFFFFFF)),
        "block": draw(st.one_of(st.integers(0, 10), st.integers(0, 1 << 30))),
        "flags": draw(st.sampled_from([0, 4, 8])),
    }


def check_trees(ctx, spec):
    where, before, cycle, device = spec["where"], spec["before"], spec["cycle"], spec["device"]
    img = Img(1 << 40, tag=33)
    blocks = dm.Blocks(img, spec["sectors"], spec["steps"])
    wanted = spec["block"] if where == "blocks" else device
    places = [blocks.alloc() for _ in range(max(1, before + cycle))]
    for i, place in enumerate(places):
        dead = not cycle and i == len(places) - 1
        target = places[i] if dead else places[following(i, before, cycle)] if cycle else places[i + 1]
        # all ways lead on
        keys = sorted({max(0, wanted - 2 * k) for k in range(spec["wide"][i % len(spec["wide"])])})
        blocks.node(spec["flags"] if dead else dm.INTERNAL, [(k, struct.pack("<Q", target)) for k in keys], 8, 3, place)
    roots = {
        "details": blocks.tree([(device, dm.details(5))], 24, [3]),
        "blocks": blocks.tree([(spec["block"], struct.pack("<Q", 3 << 24))], 8, [3]),
    }
    if where != "devices":
        roots[where] = places[0]
    roots["devices"] = blocks.tree([(device, struct.pack("<Q", roots["blocks"]))], 8, [3])
    if where == "devices":
        roots[where] = places[0]
    img.put(0, dm.superblock(roots["devices"], roots["details"], 128, spec["sectors"], blocks.next))
    data = Img(1 << 30, tag=34)

    def read():
        fh = ThinPool(img, data).open(device, (spec["block"] + 1) * 65536)
        fh.seek(spec["block"] * 65536)
        fh.read(512)

    what = f"cycle of {cycle} after {before}" if cycle else f"node of no kind after {len(places) - 1}"
    raises(f"{what} in the tree of {where}", [img, data], read)
    ctx.label(where, f"cycle of {cycle}" if cycle else "node of no kind", f"after {before}")


# --- logical volumes


@st.composite
def groups(draw):
    before, cycle = draw(BEFORE), draw(CYCLE)
    kinds = [draw(st.sampled_from(["mirror", "mirror", "metadata", "pool"])) for _ in range(before + cycle)]
    extent = draw(st.sampled_from([8, 128, 8192]))
    used = [0]
    volumes = {"plain": draw(lvmgen.layout(used, extent, draw(st.integers(1, 4))))}
    return {
        "group": draw(lvmgen.shell(extent, used, volumes)),
        "before": before,
        "cycle": cycle,
        "kinds": kinds,
        "copies": [draw(st.sampled_from([1, 2, 2, 3])) for _ in kinds],
        "good": [draw(st.integers(0, 3)) == 3 for _ in kinds],
        "order": draw(st.permutations(range(len(kinds)))),
    }


def check_groups(ctx, spec):
    g = spec["group"]
    extra = {}
    for i, kind in enumerate(spec["kinds"]):
        target = f"lv{following(i, spec['before'], spec['cycle'])}"
        section = {"start_extent": 0, "extent_count": 1}
        if kind == "mirror":
            mirrors = [target] * spec["copies"][i] + ["plain"] * spec["good"][i]
            section |= {"type": "mirror", "mirror_count": len(mirrors), "mirrors": [x for m in mirrors for x in (m, 0)]}
        else:
            other = "pool" if kind == "metadata" else "metadata"
            pool = {"start_extent": 0, "extent_count": 1, "type": "thin-pool", kind: target, other: "plain", "transaction_id": 1, "chunk_size": 128}
            extra[f"pool{i}"] = {"segment1": pool}
            section |= {"type": "thin", "thin_pool": f"pool{i}", "transaction_id": 1, "device_id": 1}
        extra[f"lv{i}"] = {"segment1": section}
    names = sorted(extra)
    names = [names[k] for k in spec["order"]] + names[len(spec["order"]) :]
    text = lvmtext.Printer(g["choices"]).text(lvmgen.group_tree(g, {n: extra[n] for n in names}))
    imgs = lvmgen.build(g, [text])

    def read():
        LVM2(imgs).vg.logical_volumes["lv0"].open().read(512)

    raises(f"cycle of {spec['cycle']} after {spec['before']} volumes, {spec['kinds']}", imgs, read)
    ctx.label(f"cycle of {spec['cycle']}", f"after {spec['before']}", *sorted(set(spec["kinds"])))


CHECK = Check(
    "C33",
    "every case has a cycle (or a tree node of no kind)",
    [
        Part("boot records", boot_records(), check_boot_records, quick=150, thorough=2000),
        Part("lists", lists(), check_lists, quick=800, thorough=8000),
        Part("trees", trees(), check_trees, quick=1500, thorough=15000),
        Part("volumes", groups(), check_groups, quick=400, thorough=4000),
    ],
)

if __name__ == "__main__":
    CHECK.main()
