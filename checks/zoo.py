"""Every kind of volume the library can open, for the checks that hold for all of them."""

from __future__ import annotations

from hypothesis import strategies as st

from checks import c08, c10, c24
from vlib import ddfgen, dmgen, lvmgen, lvmtext, mdgen, raid, raidgen, vinum, vinumgen, vss
from vlib.core import subject
from vlib.img import Img

from dissect.volume.ddf.ddf import DDF
from dissect.volume.disk import Disk
from dissect.volume.dm.thin import ThinPool
from dissect.volume.lvm import LVM2
from dissect.volume.md.md import MD
from dissect.volume.vinum.vinum import Vinum
from dissect.volume.vss import VSS

# Every kind: a strategy and a function that builds the devices and opens the container on them,
# -> (devices, [(name, function that opens a stream, [interesting positions])])


def disk(spec):
    img, ss, base, want = c08.build(spec)
    img.seek(base)
    parts = Disk(img, ss).partitions
    fit = [p for p, w in zip(parts, want) if w["size"] > 0]
    return [img], [(f"partition {p.number}", p.open, [0, p.size, p.size // 2]) for p in fit]


def array(spec):
    ranges = []
    if spec["level"] in (-1, 1):
        spec = {**spec, "starts": [0] * spec["n"], "trim": 0, "chunk": 4096}
    vd, lay, size, _ = c10.assemble(spec, ranges)
    marks = raid.volume_marks(lay, size, spec["spots"])
    return [d.fh for _, d in vd.disk_map.values()], [(f"RAID level {spec['level']}", vd.open, marks)]


def md_array(spec):
    members = mdgen.build(spec)
    lay = raidgen.model({**spec, "chunk": spec["chunk"] or 4096})
    [conf] = MD([img for img, _ in members]).configurations
    vd = conf.virtual_disks[0]
    return [img for img, _ in members], [(f"MD level {spec['level']}", vd.open, raid.volume_marks(lay, vd.size, spec["spots"]))]


@st.composite
def md_specs(draw):
    return {**draw(mdgen.arrays()), "spots": draw(raidgen.SPOTS)}


def ddf_group(spec):
    g = spec["group"]
    imgs = [ddfgen.disk(g, d, 3000 + d) for d in range(len(g["refs"]))]
    [conf] = DDF(imgs, g["sector"]).configurations
    by_id = {vd["guid"].hex(): raidgen.model(vd["model"]) for vd in g["vds"]}
    out = []
    for vd in conf.virtual_disks:
        out.append((f"DDF volume of level {vd.level}", vd.open, raid.volume_marks(by_id[vd.uuid], vd.size, spec["spots"])))
    return imgs, out


@st.composite
def ddf_specs(draw, far=True):
    return {"group": draw(ddfgen.groups(vds=2, far=far)), "spots": draw(raidgen.SPOTS)}


def thin_pool(pool):
    meta = dmgen.metadata(pool)
    bs = pool["data_sectors"] * 512
    data = Img(pool["data_blocks"] * bs, tag=190)
    thin = ThinPool(meta, data)
    out = []
    for dev in sorted(pool["devices"]):
        size = (max(pool["devices"][dev] or {0: 0}) + 2) * bs - 512
        out.append((f"thin device {dev}", lambda dev=dev, size=size: thin.open(dev, size), dmgen.marks(pool, dev, size)))
    return [meta, data], out


def lvm_group(g):
    text = lvmtext.Printer([]).text(lvmgen.group_tree(g))
    imgs = lvmgen.build(g, [text] * len(g["used"]))
    vs = LVM2(imgs)
    out = []
    for name, segs in g["volumes"].items():
        out.append((f"logical volume of {len(segs)} segments", vs.vg.logical_volumes[name].open, lvmgen.volume_marks(g, segs)))
    return imgs, out


def lvm_thin(spec):
    imgs, open_group = c24.thin_group(spec)
    vs = open_group()
    out = []
    for i, v in enumerate(spec["views"]):
        marks = dmgen.marks(spec["pool"], v["dev"], v["count"] * spec["group"]["extent"] * 512)
        out.append(("thin logical volume", vs.vg.logical_volumes[f"thin{i}"].open, marks))
    out.append(("thin pool data", vs.vg.logical_volumes["pool_tdata"].open, [0]))
    return imgs, out


def vinum_system(system):
    text = vinum.Writer().text(vinumgen.config(system))
    imgs = [vinumgen.drive(system, i, text) for i in range(len(system["used"]))]
    vols = {v["name"]: v for v in system["volumes"]}
    out = []
    for vd in Vinum(imgs).configurations[0].virtual_disks:
        plex = vols[vd.volume.name]["plexes"][0]
        lay = vinumgen.plex_model(plex)
        out.append((f"Vinum {plex['org']} volume", vd.open, raid.volume_marks(lay, lay.size, [])))
    return imgs, out


def shadow(v):
    img, saves = vss.build(v)
    out = []
    for i, store in enumerate(VSS(img).catalog.stores):
        blocks = sorted({b for s in saves for b in s} | set(v["spots"]))
        marks = [0, vss.store_size(v, i), *(b * vss.BLOCK for b in blocks)]
        out.append((f"shadow copy {i}", store.open, [m for m in marks if m <= vss.store_size(v, i)]))
    return [img], out


KINDS = {
    "disk": (c08.disk_specs(), disk),
    "RAID0": (c10.arrays(0), array),
    "RAID4": (c10.arrays(4), array),
    "RAID5": (c10.arrays(5), array),
    "RAID6": (c10.arrays(6), array),
    "RAID10": (c10.arrays(10), array),
    "linear": (c10.arrays(-1), array),
    "mirror": (c10.arrays(1), array),
    "MD": (md_specs(), md_array),
    "DDF": (ddf_specs(), ddf_group),
    "thin": (dmgen.pools(), thin_pool),
    "LVM": (lvmgen.stores(), lvm_group),
    "thin LVM": (c24.thins(), lvm_thin),
    "Vinum": (vinumgen.systems(), vinum_system),
    "VSS": (vss.volumes(most=3), shadow),
}


def opened(kind, spec):
    with subject(f"open {kind}"):
        return KINDS[kind][1](spec)
