from datetime import datetime, timedelta, timezone

from hypothesis import strategies as st

from vlib import ddfgen, hist, lvmgen, lvmtext, mdgen, vinum
from vlib.core import Check, Part, attempt, expect, same, subject
from vlib.gen import wide
from vlib.img import Img

from dissect.volume.ddf.ddf import DDF
from dissect.volume.lvm.physical import LVM2Device
from dissect.volume.md.md import MD
from dissect.volume.vinum.vinum import VinumPhysicalDisk

EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)


def area(img, start, size):
    """The part of a device that is its data area."""
    return hist.Model(size, lambda off, n: img.peek_at(start + off, n))


def around(model, *more):
    return sorted({x for x in (0, 512, 4096, model.size // 2, model.size - 4096, model.size - 512, model.size, *more) if 0 <= x <= model.size})


def read(fh, model, ops, what, sizes=True, unit=4096):
    ranges = hist.resolve(ops, around(model), model.size, unit)
    if not sizes:
        ranges = list(hist.clip(ranges, model.size))
    return hist.verify(fh, model, ranges, what, sizes)


@st.composite
def md_devices(draw):
    a = draw(mdgen.arrays())
    return {"array": a, "member": draw(st.integers(0, a["n"] - 1)), "ops": draw(hist.extents(5))}


def check_md(ctx, spec):
    a, m = spec["array"], spec["member"]
    img, start = mdgen.build(a, 3500)[m]
    model = area(img, start, mdgen.usable(a, m) * 512)
    what = f"member {m} of a version {a['version']} array, data from {start} on"
    with subject(what):
        [pd] = MD(img).configurations[0].physical_disks
        fh = pd.open()
        same(fh.size, model.size, f"{what}: size")
    if not read(fh, model, spec["ops"], what):
        ctx.mark_trivial()
    ctx.label(f"version {a['version']}")


@st.composite
def ddf_disks(draw):
    g = draw(ddfgen.groups(vds=2))
    return {"group": g, "disk": draw(st.integers(0, len(g["refs"]) - 1)), "ops": draw(hist.extents(5))}


def check_ddf(ctx, spec):
    g, d = spec["group"], spec["disk"]
    img = ddfgen.disk(g, d, 3500)
    model = area(img, 0, g["sizes"][d] * g["sector"])
    what = f"disk {d} of a group"
    with subject(what):
        [pd] = DDF([img], g["sector"]).configurations[0].physical_disks
        fh = pd.open()
        same(fh.size, model.size, f"{what}: size")
    if not read(fh, model, spec["ops"], what):
        ctx.mark_trivial()
    ctx.label(f"sector size {g['sector']}")


@st.composite
def vinum_drives(draw):
    text = draw(st.one_of(st.just(b"volume v state up\n"), st.binary(max_size=40), st.binary(min_size=600, max_size=1200)))
    return {
        "sectors": draw(st.one_of(st.integers(0, 40), st.integers(0, 100000))),
        "stated": draw(st.booleans()),
        "magic": draw(st.sampled_from([*vinum.ACTIVE, *vinum.INACTIVE])),
        "name": draw(st.one_of(st.sampled_from([b"d0", b"drive", b"x" * 32, b"\xff\xfe"]), st.binary(min_size=1, max_size=31).filter(lambda n: b"\x00" not in n))),
        "time": (draw(wide(0, 0xFFFFFFFF)), draw(st.integers(0, 999999))),
        "first": text,
        "second": draw(st.one_of(st.none(), st.binary(max_size=40))),
        "full": draw(st.booleans()),
        "remains": draw(st.one_of(st.just(b""), st.sampled_from([b"3", b"drive1", b"\x00\x00x"]), st.binary(max_size=31))),
        "ops": draw(hist.extents(5)),
        "damage": draw(st.tuples(st.integers(0, 7), st.integers(1, 255))),
    }


def check_vinum(ctx, spec):
    size = vinum.DATA + spec["sectors"] * 512
    img = Img(size, tag=3500)
    vinum.write_drive(img, spec["magic"], spec["name"], spec["time"], size if spec["stated"] else 0, spec["first"], spec["second"], spec["full"], spec["remains"])
    model = area(img, vinum.DATA, size - vinum.DATA)
    what = f"drive {spec['name']!r} of {size} bytes"
    with subject(what):
        pd = VinumPhysicalDisk(img)
        fh = pd.open()
        same(pd.id, spec["name"], f"{what}: identifier")
        same(pd.name, spec["name"].decode(errors="backslashreplace"), f"{what}: name")
        same(pd.active, spec["magic"] in vinum.ACTIVE, f"{what}: active")
        moment = EPOCH + timedelta(seconds=spec["time"][0], microseconds=spec["time"][1])
        expect(abs(pd.config_time - moment) <= timedelta(microseconds=2), f"{what}: time {pd.config_time}, expected {moment}")
        first, second = pd.config, pd.config2
    room = vinum.LENGTH if spec["full"] else max(512, -(-len(spec["first"]) // 512) * 512)
    texts = (spec["first"], spec["first"] if spec["second"] is None else spec["second"])
    for got, text, which in zip((first, second), texts, ("first", "second")):
        same(got, text.ljust(room, b"\x00")[:room], f"{what}: {which} configuration")
    # how long the drive says it is is not claimed
    if not read(fh, model, spec["ops"], what, sizes=False):
        ctx.mark_trivial()
    ctx.label("remains of a longer name" if spec["remains"].strip(b"\x00") and len(spec["name"]) < 31 else "")
    ctx.label("active" if spec["magic"] in vinum.ACTIVE else "inactive", "two configurations" if spec["second"] is not None else "")


def check_no_vinum(ctx, spec):
    img = Img(vinum.DATA, tag=3500)
    vinum.write_drive(img, spec["magic"], spec["name"], spec["time"], 0, spec["first"])
    at = vinum.HEADER + spec["damage"][0]
    magic = bytearray(img.peek_at(vinum.HEADER, 8))
    magic[spec["damage"][0]] ^= spec["damage"][1]
    if int.from_bytes(magic, "big") in (*vinum.ACTIVE, *vinum.INACTIVE):
        ctx.mark_trivial()
        return
    img.put(at, bytes([magic[spec["damage"][0]]]))
    _, error = attempt(VinumPhysicalDisk, img)
    expect(error is not None, f"a drive with magic {bytes(magic)!r} is accepted")


@st.composite
def lvm_devices(draw):
    g = draw(lvmgen.stores())
    return {"group": g, "pv": draw(st.integers(0, len(g["used"]) - 1)), "ops": draw(hist.extents(5)), "sectors": draw(st.lists(st.tuples(st.integers(0, 1 << 20), st.integers(1, 40)), max_size=3))}


def check_lvm(ctx, spec):
    g, i = spec["group"], spec["pv"]
    text = lvmtext.Printer(g["choices"]).text(lvmgen.group_tree(g))
    img = lvmgen.build(g, [text] * len(g["used"]), tag=3500)[i]
    start = lvmgen.pe_start(g, i) * 512
    stated = img.length - min(g["short"][i] * g["extent"] * 512, img.length - start)
    model = area(img, start, min(img.length - start, stated))
    what = f"physical volume {i} with data from {start} on, {img.length} bytes"
    with subject(what):
        device = LVM2Device(img)
        fh = device.open()
    done = read(fh, model, spec["ops"], what, sizes=False)
    for sector, count in spec["sectors"]:
        total = model.size // 512
        if not total:
            continue
        sector %= total
        count = min(count, total - sector)
        with subject(f"{what}: read {count} sectors at {sector}"):
            got = device.read_sectors(sector, count)
        hist.compare(got, model.read(sector * 512, count * 512), sector * 512, f"{what}: {count} sectors")
        done += count
    ctx.label("header states less" if g["short"][i] else "")
    if not done:
        ctx.mark_trivial()


CHECK = Check(
    "C35",
    "at least one byte is read",
    [
        Part("md", md_devices(), check_md, quick=1200, thorough=12000),
        Part("ddf", ddf_disks(), check_ddf, quick=400, thorough=4000),
        Part("vinum", vinum_drives(), check_vinum, quick=400, thorough=4000),
        Part("no vinum", vinum_drives(), check_no_vinum, quick=200, thorough=2000),
        Part("lvm", lvm_devices(), check_lvm, quick=600, thorough=6000),
    ],
    assumptions=["lengths of the streams of Vinum drives and physical volumes are not judged"],
)

if __name__ == "__main__":
    CHECK.main()
