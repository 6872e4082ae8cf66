import io

from hypothesis import strategies as st

from checks import c05, c06
from vlib import diskgen, disks
from vlib.core import Check, Part, Violation, attempt, same, subject
from vlib.img import Img, pattern

from dissect.volume.disk import Disk
from dissect.volume.disk.schemes import APM, BSD, GPT, MBR
from dissect.volume.exceptions import DiskError

# ------------------------------------------------------------------------------------ small valid disks of every kind
SS = st.just(512)
LBA = st.integers(1, 1000)
CNT = st.integers(1, 100)


@st.composite
def small_mbr(draw):
    spec = draw(diskgen.mbrs(extended=(0, 1), limit=4, base=False, lba=LBA, count=CNT, ss=SS))
    for slot in range(4):
        item = spec["slots"][slot]
        if item and item[0] == "x":
            chain = [(rel % 900 if idx else 0, b, t, r % 50 + 1, c, (0, [])) for idx, (rel, b, t, r, c, _) in enumerate(item[4])]
            uniq, seen = [], set()
            for entry in chain:
                if entry[0] not in seen:
                    seen.add(entry[0])
                    uniq.append(entry)
            spec["slots"][slot] = ("x", item[1], 1 + item[2] % 1000, item[3], uniq)
    return spec


@st.composite
def small_gpt(draw):
    spec = draw(diskgen.gpts(slots_max=16, lba=LBA, count_strategy=CNT, ss=SS, hdr=st.sampled_from([1, 1, 3])))
    spec["count"] = min(spec["count"], 16)
    spec["entries"] = {slot % 16 % spec["count"]: item for slot, item in spec["entries"].items()}
    spec["array"] = spec["hdr"] + 1 + spec["array"] % 30
    return spec


@st.composite
def small_apm(draw):
    spec = draw(c05.maps())
    return {**spec, "ss": 512, "block": 512, "parts": spec["parts"][:6]}


@st.composite
def disk_specs(draw):
    kind = draw(st.sampled_from(["mbr", "gpt", "apm", "bsd"]))
    inner = draw({"mbr": small_mbr(), "gpt": small_gpt(), "apm": small_apm(), "bsd": c06.label(big=False)}[kind])
    return {"kind": kind, "inner": inner, "base": draw(st.sampled_from([0, 0, 512, 5120])) if kind == "mbr" else 0}


CLASS = {"mbr": MBR, "gpt": GPT, "apm": APM, "bsd": BSD}


def build(spec):
    """A valid disk: (image, wanted list, {name: (offset, length)} of the signatures, end of the metadata)."""
    img = Img(0, tag=7, zero=True)
    kind, inner = spec["kind"], spec["inner"]
    sigs = {}
    if kind == "mbr":
        inner = {**inner, "base": spec["base"]}
        want = diskgen.make_mbr(img, inner)
        sigs["boot"] = (spec["base"] + 510, 2)
    elif kind == "gpt":
        want = diskgen.make_gpt(img, inner)
        diskgen.make_mbr(
            img,
            {"ss": 512, "base": 0, "serial": 0, "code": (0, 0, b""), "slots": [diskgen.protective(inner), None, None, None]},
        )
        sigs["boot"] = (510, 2)
        sigs["gpt"] = (inner["hdr"] * 512, 8)
    elif kind == "apm":
        want = c05.build(img, inner)
        if inner["er"]:
            sigs["er"] = (0, 2)
            sigs["pm"] = (512, 2)
        else:
            sigs["pm"] = (0, 2)
    else:
        img.put(0, b"\x00" * 512)
        want = c06.write_label(img, 0, 512, inner)
        sigs["magic"] = (512, 4)
        if inner["kind"] == 32:
            sigs["magic2"] = (512 + 132, 4)
    end = img.length
    img.put(end, b"\x00" * 4096)
    return img, want, sigs, end


def open_disk(data, base=0, ss=512):
    fh = io.BytesIO(data)
    fh.seek(base)
    return Disk(fh, ss)


def refused(data, what, base=0, ss=512):
    disk, error = attempt(open_disk, data, base, ss)
    if error is None:
        with subject(what):
            found = [(p.number, p.offset, p.size) for p in disk.partitions]
        raise Violation(f"{what}: accepted as {type(disk.scheme).__name__} with partitions {found}")
    if not isinstance(error, DiskError):
        raise Violation(f"{what}: refused with {type(error).__name__} instead of DiskError: {error}")


def check_valid(ctx, spec):
    img, want, _, _ = build(spec)
    data = img.peek_at(0, img.length)
    with subject("open a valid disk"):
        disk = open_disk(data, spec["base"])
        scheme = disk.scheme
        parts = disk.partitions
    same(type(scheme), CLASS[spec["kind"]], "scheme")
    diskgen.check_partitions(parts, want, spec["kind"])
    ctx.label(spec["kind"], "from the middle" if spec["base"] else "")


@st.composite
def corruptions(draw):
    return {
        "disk": draw(disk_specs()),
        "which": draw(st.integers(0, 7)),
        "at": draw(st.integers(0, 7)),
        "xor": draw(st.sampled_from([1, 0x20, 0x80, 0xFF])),
    }


def check_corrupt(ctx, spec):
    img, _, sigs, _ = build(spec["disk"])
    name = sorted(sigs)[spec["which"] % len(sigs)]
    off, length = sigs[name]
    off += spec["at"] % length
    byte = img.peek_at(off, 1)[0]
    img.put(off, bytes([byte ^ spec["xor"]]))
    refused(img.peek_at(0, img.length), f"{spec['disk']['kind']} with a wrong {name} signature", spec["disk"]["base"])
    ctx.label(f"{spec['disk']['kind']} {name}")


@st.composite
def cuts(draw):
    return {"disk": draw(disk_specs()), "cut": draw(st.one_of(st.integers(0, 1200), st.integers(0, 1 << 20)))}


def check_cut(ctx, spec):
    img, want, _, end = build(spec["disk"])
    cut = spec["cut"] % (end + 64) if spec["cut"] >= 0 else max(0, end + spec["cut"] + 32)
    data = img.peek_at(0, cut)
    disk, error = attempt(open_disk, data, spec["disk"]["base"])
    kind = spec["disk"]["kind"]
    if error is not None:
        if not isinstance(error, DiskError):
            raise Violation(f"{kind} cut at {cut}: {type(error).__name__} instead of DiskError: {error}")
        same(cut < end, True, f"{kind} cut at {cut}, behind its metadata which ends at {end}, refused ({error}); opens")
        ctx.label(f"{kind} refused")
        return
    same(type(disk.scheme), CLASS[kind], f"{kind} cut at {cut}: scheme")
    diskgen.check_partitions(disk.partitions, want, f"{kind} cut at {cut}")
    ctx.label(f"{kind} opened")


# ------------------------------------------------------------------------------------ things that are no disks
OEM = [b"MSDOS3.3", b"MSWIN4.0", b" FAT32  ", *disks.VBR_SIGNATURES]


@st.composite
def oem_names(draw):
    """The eight bytes of the name, or the name that matters anywhere among them."""
    if draw(st.integers(0, 3)):
        return draw(st.sampled_from(OEM))
    name = draw(st.sampled_from(disks.VBR_NAMES))
    at = draw(st.integers(0, 8 - len(name)))
    return (draw(st.sampled_from([b" ", b"\x00", b"x"])) * at + name).ljust(8, draw(st.sampled_from([b" ", b"\x00", b"4"])))


@st.composite
def boot_records(draw):
    slots = [draw(st.one_of(st.none(), st.tuples(diskgen.FLAG, diskgen.PLAIN, diskgen.LBA, diskgen.COUNT))) for _ in range(4)]
    return {
        "kind": draw(st.sampled_from(["oem", "qnx4", "qnx6"])),
        "oem": draw(oem_names()),
        "jump": draw(st.sampled_from([b"\xeb\x52\x90", b"\xeb\x3c\x90", b"\xe9\x00\x01", b"\xeb\x76\x90"])),
        "slots": slots,
        "rest": draw(st.sampled_from(["zero", "mbr", "noise"])),
        "base": draw(st.sampled_from([0, 0, 512, 4096])),
        "ss": draw(st.sampled_from([512, 512, 4096])),
    }


def check_boot_record(ctx, spec):
    code = bytearray(disks.boot_code(1))
    if spec["kind"] == "oem":
        code[0:11] = spec["jump"] + spec["oem"]
    elif spec["kind"] == "qnx4":
        code[18:38] = b"Hit Esc for .altboot"
    else:
        code[168:174] = b"\r\nQNX "
    entries = [disks.EMPTY if s is None else disks.mbr_entry(*s) for s in spec["slots"]]
    sector = disks.boot_sector(entries, 0, bytes(code))
    img = Img(0, tag=70, zero=spec["rest"] == "zero")
    if spec["base"]:
        # in front of the handle's position is a perfectly valid table, which is not the one asked for
        img.put(0, disks.boot_sector([disks.mbr_entry(0, 7, 1, 5), disks.EMPTY, disks.EMPTY, disks.EMPTY]))
    img.put(spec["base"], sector)
    if spec["rest"] == "mbr":
        img.put(spec["base"] + 512, disks.boot_sector([disks.mbr_entry(0, 7, 1, 5), disks.EMPTY, disks.EMPTY, disks.EMPTY]))
    img.put(spec["base"] + 16384, b"\x00")
    refused(img.peek_at(0, img.length), f"a {spec['kind']} boot record ({spec['oem']!r})", spec["base"], spec["ss"])
    ctx.label(spec["kind"], next(n.decode() for n in disks.VBR_NAMES if n in spec["oem"]) if spec["kind"] == "oem" else "", "from the middle" if spec["base"] else "")


@st.composite
def protectives(draw):
    """A protective entry, but no GPT header in the sector it names for this sector size."""
    gpt = draw(diskgen.gpts(slots_max=8, lba=LBA, count_strategy=CNT, ss=st.just(4096)))
    others = [draw(st.sampled_from(["-", "p", "bsd", "bsd-nolabel"])) for _ in range(3)]
    return {
        "gpt": {**gpt, "array": 2},
        "missing": draw(st.booleans()),
        "slots": draw(st.permutations(["e", *others])),
        "type": draw(st.sampled_from(disks.BSD_MBR_TYPES)),
    }


def check_protective(ctx, spec):
    img = Img(0, tag=71, zero=True)
    if not spec["missing"]:
        diskgen.make_gpt(img, spec["gpt"])
    slots = []
    for idx, kind in enumerate(spec["slots"]):
        lba = 2000 + idx * 100
        if kind == "-":
            slots.append(None)
        elif kind == "e":
            slots.append(("p", 0, 0xEE, 1, 0xFFFFFFFF))
        elif kind == "p":
            slots.append(("p", 0, 0x83, lba, 100))
        else:
            slots.append(("p", 0, spec["type"], lba, 100))
            if kind == "bsd":
                img.put((lba + 1) * 512, disks.bsd_label32({"parts": [(10, 0, 7)] * 8}))
    diskgen.make_mbr(img, {"ss": 512, "base": 0, "serial": 0, "code": (0, 0, b""), "slots": slots})
    img.put(3000 * 512, b"\x00" * 512)
    refused(img.peek_at(0, img.length), "a protective table without a GPT in the next sector", 0, 512)
    ctx.label("no GPT" if spec["missing"] else "GPT for 4K sectors", *spec["slots"])


@st.composite
def junk(draw):
    kind = draw(st.sampled_from(["zero", "ff", "random", "bytes"]))
    return {
        "kind": kind,
        "size": draw(st.one_of(st.integers(0, 600), st.sampled_from([511, 512, 513, 1024, 4096, 8192, 65536]))),
        "tag": draw(st.integers(0, 1 << 30)),
        "data": draw(st.binary(max_size=600)) if kind == "bytes" else b"",
        "ss": draw(st.sampled_from([512, 4096])),
    }


def check_junk(ctx, spec):
    data = {
        "zero": lambda: b"\x00" * spec["size"],
        "ff": lambda: b"\xff" * spec["size"],
        "random": lambda: pattern(spec["tag"], 0, spec["size"]),
        "bytes": lambda: spec["data"],
    }[spec["kind"]]()
    # a table that begins by accident would be a different case
    if data[510:512] == b"\x55\xaa" or data[:2] in (b"ER", b"PM") or data[spec["ss"] : spec["ss"] + 4] in (
        b"\x57\x45\x56\x82",
        b"\x59\x4c\x46\xc4",
    ):
        ctx.mark_trivial()
        return
    refused(data, f"{spec['kind']} of {len(data)} bytes", 0, spec["ss"])
    ctx.label(spec["kind"])


@st.composite
def precedences(draw):
    return {"first": draw(st.sampled_from(["gpt", "mbr", "apm"])), "also": draw(st.sampled_from(["er", "pm", "none"])), "ss": 512}


def check_precedence(ctx, spec):
    """Disks on which several schemes look valid at once."""
    img = Img(0, tag=72, zero=True)
    mark = {"er": b"ER\x02\x00", "pm": b"PM\x00\x00" + (1).to_bytes(4, "big"), "none": b"\xeb\x00"}[spec["also"]]
    code = mark.ljust(0x1B8, b"\x00")
    # a disklabel, which only counts when nothing else does
    img.put(512, disks.bsd_label32({"parts": [(10, 0, 7)] * 8}))
    if spec["first"] == "apm":
        img.put(0, disks.apm_entry(1, 1, 63, b"Apple", b"Apple_partition_map"))
        kind = APM
        want = [{"number": 1, "offset": 512, "size": 63 * 512, "type": "Apple_partition_map", "name": "Apple"}]
    else:
        plain = {"number": 2, "offset": 2048 * 512, "size": 100 * 512, "type": 0x83}
        first = disks.EMPTY
        kind, want = MBR, [plain]
        if spec["first"] == "gpt":
            g = {"ss": 512, "hdr": 4, "array": 5, "count": 4, "esize": 128, "entries": {}}
            g["entries"] = {1: ("0fc63daf-8483-4772-8e79-3d69d8477de4", 5, 50, 99, 0, b"", "")}
            inner = diskgen.make_gpt(img, g)
            first = disks.mbr_entry(0, 0xEE, 4, 9999)
            kind, want = GPT, [*inner, plain]
        img.put(0, disks.boot_sector([first, disks.mbr_entry(0, 0x83, 2048, 100), disks.EMPTY, disks.EMPTY], 0, code))
    img.put(16384, b"\x00")
    with subject("open the disk"):
        disk = open_disk(img.peek_at(0, img.length))
        scheme, parts = disk.scheme, disk.partitions
    same(type(scheme), kind, "scheme")
    diskgen.check_partitions(parts, want, "disk with several schemes")
    ctx.label(spec["first"], spec["also"])


@st.composite
def fuzzed(draw):
    return {
        "disk": draw(disk_specs()),
        "edits": draw(st.lists(st.tuples(st.integers(0, 1 << 16), st.binary(min_size=1, max_size=6)), min_size=1, max_size=6)),
        "cut": draw(st.one_of(st.none(), st.none(), st.integers(0, 4096))),
    }


def check_fuzz(ctx, spec):
    img, _, sigs, end = build(spec["disk"])
    data = bytearray(img.peek_at(0, img.length))
    for at, raw in spec["edits"]:
        at %= end
        data[at : at + len(raw)] = raw
    if spec["disk"]["kind"] == "gpt":
        # billions of entries of no size are another matter
        hdr = spec["disk"]["inner"]["hdr"] * 512
        if int.from_bytes(data[hdr + 80 : hdr + 84], "little") > 5000:
            data[hdr + 80 : hdr + 84] = (5000).to_bytes(4, "little")
    if spec["cut"] is not None:
        data = data[: spec["cut"]]
    disk, error = attempt(open_disk, bytes(data), spec["disk"]["base"])
    if error is not None:
        if not isinstance(error, DiskError):
            raise Violation(f"damaged {spec['disk']['kind']}: {type(error).__name__} instead of DiskError: {error}")
        ctx.label("refused")
    else:
        with subject("list the partitions"):
            for p in disk.partitions:
                repr(p)
        ctx.label("opened")


CHECK = Check(
    "C07",
    "every case except arbitrary bytes that begin with a signature by accident",
    [
        Part("valid", disk_specs(), check_valid, quick=1200, thorough=12000),
        Part("signature", corruptions(), check_corrupt, quick=1600, thorough=16000),
        Part("cut", cuts(), check_cut, quick=1600, thorough=16000),
        Part("bootrecord", boot_records(), check_boot_record, quick=1200, thorough=12000),
        Part("protective", protectives(), check_protective, quick=800, thorough=8000),
        Part("precedence", precedences(), check_precedence, quick=60, thorough=60),
        Part("junk", junk(), check_junk, quick=1200, thorough=12000),
        Part("fuzz", fuzzed(), check_fuzz, quick=2000, thorough=60000),
    ],
)

if __name__ == "__main__":
    CHECK.main()
