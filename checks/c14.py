import uuid
from datetime import datetime, timedelta, timezone

from hypothesis import strategies as st

from vlib import md, mdgen
from vlib.core import Check, Part, Violation, attempt, expect, same, subject
from vlib.gen import HANDS, hand, wide
from vlib.img import Img

from dissect.volume.md.md import MD, MDPhysicalDisk

EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)


@st.composite
def cases(draw):
    a = draw(mdgen.arrays())
    return {"array": a, "member": draw(st.integers(0, a["n"] - 1)), "hands": draw(HANDS)}


def check(ctx, spec):
    a, m = spec["array"], spec["member"]
    img, start = mdgen.build(a)[m]
    what = f"version {a['version']} superblock on a device of {img.length // 512} sectors"
    with subject(what):
        conf = MD(hand([img], spec["hands"], MDPhysicalDisk)).configurations
        same(len(conf), 1, f"{what}: configurations")
        [pd] = conf[0].physical_disks
        [vd] = conf[0].virtual_disks
    v90 = a["version"] == "0.90"
    seconds, micro = mdgen.expected_us(a["version"], a["ctime"])
    created = EPOCH + timedelta(seconds=seconds, microseconds=micro)
    seconds, micro = mdgen.expected_us(a["version"], a["utime"])
    updated = EPOCH + timedelta(seconds=seconds, microseconds=micro)
    name = None if v90 else a["name"].decode(errors="surrogateescape")
    want = {
        "set_uuid": uuid.UUID(bytes_le=a["uuid"]),
        "set_name": name,
        "events": a["events"],
        "chunk_size": a["chunk"],
        "chunk_sectors": a["chunk"] // 512,
        "data_offset": start // 512,
        "data_size": mdgen.usable(a, m),
        "offset": start,
        "size": mdgen.usable(a, m) * 512,
        "dev_number": m if v90 else a["numbers"][m],
        "device_uuid": None if v90 else uuid.UUID(bytes_le=bytes([m + 1]) * 16),
        "raid_disk": m,
        "raid_disks": a["n"],
        "level": a["level"],
        "layout": a["layout"],
        "creation_time": created,
        "update_time": updated,
    }
    with subject(what):
        for key, value in want.items():
            got = getattr(pd, key)
            if key.endswith("_time") and value.year > 2037 and abs(got - value) < timedelta(microseconds=100):
                # times go through a float on the way, which is not exact this far out
                continue
            same(got, value, f"{what}: {key} of the device")
        same(vd.uuid, str(want["set_uuid"]), f"{what}: uuid of the volume")
        same(vd.name, name, f"{what}: name of the volume")
        same((vd.level, vd.layout, vd.stripe_size, vd.num_disks), (a["level"], a["layout"], a["chunk"], a["n"]), f"{what}: level, layout, chunk and members of the volume")
    ctx.label(f"version {a['version']}", f"level {a['level']}", "size not a multiple of 4K" if img.length % 4096 else "")


@st.composite
def singles(draw):
    """One member of an array with more members than anybody has at hand."""
    a = draw(mdgen.arrays(level=1, versions=st.sampled_from(["1.0", "1.1", "1.2"])))
    role = draw(st.one_of(st.integers(0, 40), wide(0, 0xFEFF), st.sampled_from([0x7F, 0x80, 0x7FFF, 0x8000, 0xFEFF])))
    return {
        "array": a,
        "number": draw(st.one_of(st.integers(0, 40), st.integers(0, 1919), st.sampled_from([127, 128, 255, 256, 383, 384, 1919]))),
        "role": role,
        "disks": role + 1 + draw(wide(0, 0xFEFF - role)),
        "tail": draw(st.integers(0, 3)),
    }


def check_single(ctx, spec):
    a, number, role = spec["array"], spec["number"], spec["role"]
    roles = [mdgen.FAULTY] * min(1920, number + 1 + spec["tail"])
    roles[number] = role
    sectors = mdgen.device_sectors(a, 0)
    img = Img(sectors * 512, tag=2000)
    md.write(img, a["version"], sectors, mdgen.superblock(a, 0, dev_number=number, roles=roles, raid_disks=spec["disks"]))
    what = f"device {number} with role {role} of {spec['disks']}"
    with subject(what):
        [conf] = MD(img).configurations
        [pd] = conf.physical_disks
        [vd] = conf.virtual_disks
        got = (pd.dev_number, pd.raid_disk, pd.raid_disks, vd.num_disks, sorted(vd.disk_map))
    same(got, (number, role, spec["disks"], spec["disks"], [role]), what)
    ctx.label("number above 127" if number > 127 else "", "role above 32767" if role > 0x7FFF else "")


@st.composite
def plain(draw):
    return {"sectors": draw(st.one_of(st.integers(0, 200), st.integers(0, 100000))), "zero": draw(st.booleans()), "odd": draw(st.integers(0, 511)), "near": draw(st.sampled_from([None, 1, 7, 9, 16]))}


def check_none(ctx, spec):
    img = Img(spec["sectors"] * 512 + spec["odd"], tag=14, zero=spec["zero"])
    if spec["near"] is not None and spec["sectors"] > 40:
        # a superblock where no version puts one
        a = {"uuid": b"u" * 16, "name": b"n", "ctime": 0, "utime": 0, "level": 1, "layout": 0, "size": 8, "chunk": 0, "raid_disks": 1, "events": 1, "data_offset": 32, "data_size": 8, "dev_number": 0, "device_uuid": b"d" * 16, "roles": [0], "super_offset": spec["near"]}
        if spec["near"] not in {md.location(v, spec["sectors"]) for v in ("0.90", "1.0", "1.1", "1.2")}:
            img.put(spec["near"] * 512, md.sb1(a))
            ctx.label("superblock in the wrong place")
    result, error = attempt(MD, img)
    expect(error is not None, f"a device of {img.length} bytes without superblock is accepted")
    ctx.label("refused")


CHECK = Check(
    "C14",
    "every device with a superblock, and every device without one",
    [
        Part("decode", cases(), check, quick=4000, thorough=40000),
        Part("single", singles(), check_single, quick=600, thorough=6000),
        Part("none", plain(), check_none, quick=600, thorough=6000),
    ],
)

if __name__ == "__main__":
    CHECK.main()
