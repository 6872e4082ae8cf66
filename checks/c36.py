import signal
import struct

from hypothesis import strategies as st

from checks import c08, c24, zoo
from vlib import ddf, ddfgen, dmgen, lvm, lvmgen, lvmtext, md, mdgen, vinum, vinumgen, vss
from vlib.core import Check, Part, attempt
from vlib.gen import wide
from vlib.img import Img

from dissect.volume.ddf.ddf import DDF
from dissect.volume.disk import Disk
from dissect.volume.dm.thin import ThinPool
from dissect.volume.lvm import LVM2
from dissect.volume.md.md import MD
from dissect.volume.vinum.vinum import Vinum
from dissect.volume.vss import VSS

SECONDS = 20
READS = 500_000
LARGEST = 64 << 20
NOISE = 3 << 20
EXTRA = 256 << 10

# Every kind: a strategy, a function that builds the devices and one that opens them and gives what can be opened inside


def build_disk(spec):
    img = c08.build(spec)[0]
    img.length = max(o + len(d) for o, d in img.pieces) + EXTRA
    return [img]


def open_disk(spec, imgs):
    inner = spec["inner"]
    ss, base = 512, 0
    if isinstance(inner, dict):
        ss, base = inner.get("ss", 512), inner.get("base", 0)
    imgs[0].seek(base)
    parts = Disk(imgs[0], ss).partitions
    return [p.open for p in parts] + [lambda p=p: (p.type_str, p.flags, repr(p)) for p in parts]


def build_md(spec):
    most = max(spec["sizes"])
    if most > LARGEST // 2:
        # as many chunks of the same size as fit
        chunk = max(spec["chunk"], 65536)
        keep = max(1, LARGEST // 2 // chunk) * chunk
        spec = {**spec, "sizes": [min(s, keep) for s in spec["sizes"]]}
    spec = {**spec, "data_offset": [min(x, 5000) for x in spec["data_offset"]]}
    return [img for img, _ in mdgen.build(spec)]


def open_md(spec, imgs):
    return [vd.open for conf in MD(imgs).configurations for vd in conf.virtual_disks]


def build_ddf(spec):
    g = spec["group"]
    return [ddfgen.disk(g, d, 3000 + d) for d in range(len(g["refs"]))]


def open_ddf(spec, imgs):
    return [vd.open for conf in DDF(imgs, spec["group"]["sector"]).configurations for vd in conf.virtual_disks]


def build_thin(pool):
    return [dmgen.metadata(pool), Img(pool["data_blocks"] * pool["data_sectors"] * 512, tag=190)]


def open_thin(pool, imgs):
    thin = ThinPool(*imgs)
    return [lambda d=d: thin.open(d, 1 << 20) for d in sorted(pool["devices"])]


def build_lvm(g):
    text = lvmtext.Printer([]).text(lvmgen.group_tree(g))
    return lvmgen.build(g, [text] * len(g["used"]))


def open_lvm(_, imgs):
    vg = LVM2(imgs).vg
    return [v.open for v in vg.logical_volumes.values()] + [v.open for v in vg.physical_volumes.values()]


def build_thin_lvm(spec):
    return c24.thin_group(spec)[0]


def build_vinum(system):
    text = vinum.Writer().text(vinumgen.config(system))
    imgs = [vinumgen.drive(system, i, text) for i in range(len(system["used"]))]
    for img in imgs:
        img.length = min(img.length, NOISE)
    return imgs


def open_vinum(_, imgs):
    return [vd.open for conf in Vinum(imgs).configurations for vd in conf.virtual_disks]


def build_vss(v):
    return [vss.build(v)[0]]


def open_vss(_, imgs):
    return [s.open for s in VSS(imgs[0]).catalog.stores]


KINDS = {
    "disk": (c08.disk_specs(), build_disk, open_disk),
    "GPT": (c08.disk_specs(["gpt"]), build_disk, open_disk),
    "MD": (zoo.md_specs(), build_md, open_md),
    "DDF": (zoo.ddf_specs(far=False), build_ddf, open_ddf),
    "thin": (dmgen.pools(), build_thin, open_thin),
    "LVM": (lvmgen.stores(), build_lvm, open_lvm),
    "thin LVM": (c24.thins(), build_thin_lvm, open_lvm),
    "Vinum": (vinumgen.systems(), build_vinum, open_vinum),
    "VSS": (vss.volumes(most=3), build_vss, open_vss),
}

# --- damage


PLACE = st.tuples(st.integers(0, 7), st.integers(0, 63), st.one_of(st.integers(0, 63), st.integers(0, 600), st.integers(0, 1 << 20)))
VALUES = st.one_of(
    st.sampled_from([0, 0, 1, 2, 0x7F, 0x80, 0xFF, 0x7FFF, 0xFFFF, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, (1 << 63) - 1, 1 << 63, (1 << 64) - 1]),
    st.integers(0, 20),
    wide(0, (1 << 64) - 1),
)


@st.composite
def damage(draw):
    kind = draw(st.sampled_from(["number", "number", "number", "bytes", "digit", "flip", "copy", "zeros", "cut"]))
    at = draw(PLACE)
    if kind == "number":
        width = draw(st.sampled_from([1, 2, 4, 8]))
        value = draw(VALUES) & ((1 << (8 * width)) - 1)
        return kind, at, value.to_bytes(width, draw(st.sampled_from(["little", "big"])))
    if kind == "bytes":
        return kind, at, draw(st.binary(min_size=1, max_size=16))
    if kind == "digit":
        return kind, at, draw(st.sampled_from([b"9", b"0", b"99", b"{", b"}", b"[", b"]", b'"', b"#", b"\n", b"=", b"-", b"k", b"T"]))
    if kind == "flip":
        return kind, at, 1 << draw(st.integers(0, 7))
    if kind == "copy":
        return kind, at, draw(PLACE), draw(st.sampled_from([4, 8, 16, 64, 512]))
    if kind == "zeros":
        return kind, at, draw(st.sampled_from([4, 16, 512, 4096]))
    return kind, at


def resolve(imgs, place):
    dev, piece, at = place
    img = imgs[dev % len(imgs)]
    if not img.pieces:
        return img, 0
    offset, data = img.pieces[piece % len(img.pieces)]
    return img, offset + at % len(data)


def spoil(imgs, steps):
    for kind, place, *args in steps:
        img, at = resolve(imgs, place)
        if kind in ("number", "bytes"):
            new = args[0]
            if kind == "number":
                at -= at % len(new)
        elif kind == "digit":
            # as text is damaged: at the next digit from here on
            old = img.peek_at(at, 4096)
            hit = next((i for i, c in enumerate(old) if 0x30 <= c <= 0x39), 0)
            at, new = at + hit, args[0]
        elif kind == "flip":
            new = bytes([b ^ args[0] for b in img.peek_at(at, 1)])
        elif kind == "copy":
            other, source = resolve(imgs, args[0])
            new = other.peek_at(source, args[1])
        elif kind == "zeros":
            new = b"\x00" * args[0]
        else:
            img.length = at
            continue
        room = img.length - at
        img.put(at, new[: max(room, 0)])


# --- damage to single fields: kind -> [(what the structure is found by, [(place, width)], byte order)]

LE, BE = "little", "big"


def node_places(img, at):
    """Header, first keys and first values of a tree node."""
    room = int.from_bytes(img.peek_at(at + 20, 4), "little")
    values = 32 + min(room, 1 << 16) * 8
    return [(4, 4), (8, 8), (16, 4), (20, 4), (24, 4), (32, 8), (40, 8)], [(values + k * 8, 8) for k in range(4)]


FIELDS = {
    "disk": [
        (b"EFI PART", [(72, 8), (80, 4), (84, 4)], LE),
        (b"PM", [(4, 4), (8, 4), (12, 4)], BE),
        (b"ER", [(2, 2), (4, 4)], BE),
        (bytes.fromhex("57455682"), [(40, 4), (44, 4), (138, 2), (148, 4), (152, 4)], LE),
        (bytes.fromhex("594c46c4"), [(8, 4), (12, 4), (16, 8), (24, 8), (32, 8)], LE),
        (b"\x55\xaa", [(-64 + k, 4) for k in (4, 8, 12, 20, 24, 28)], LE),
    ],
    "MD": [
        (
            struct.pack("<I", md.MAGIC),
            [(28, 4), (32, 4), (36, 4), (40, 4), (72, 4), (76, 4), (80, 8), (88, 4), (92, 4), (128, 8), (136, 8), (160, 4), (220, 4), (256, 4), (260, 4), (3968, 4)],
            LE,
        ),
    ],
    "DDF": [
        (struct.pack(">I", ddf.HEADER), [(96, 8), (104, 8), (112, 1), (120, 8), *((k, 2) for k in range(128, 138, 2)), *((k, 4) for k in range(192, 232, 4))], BE),
        (struct.pack(">I", ddf.VDCR), [(64, 2), *((k, 1) for k in range(66, 72)), (72, 8), (80, 8), (88, 2), (90, 1)], BE),
        (struct.pack(">I", ddf.PDR), [(8, 2), (10, 2)], BE),
        (struct.pack(">I", ddf.VDR), [(8, 2), (10, 2)], BE),
    ],
    "thin": [
        (struct.pack("<Q", 27022010), [(288, 8), (296, 8), (304, 4), (308, 4), (320, 8), (328, 8), (336, 4), (340, 4)], LE),
        (struct.pack("<I", 0xABCD), node_places, LE),
    ],
    "LVM": [
        (b"LABELONE", [(8, 8), (20, 4), (64, 8), (72, 8), (80, 8), (88, 8), (96, 8), (104, 8), (112, 8), (120, 8)], LE),
        (lvm.MDA_MAGIC, [(16, 4), (20, 8), (28, 8), (36, 8), (44, 8), (52, 4), (56, 4)], LE),
    ],
    "Vinum": [(b"VINUM-1", [(8, 8), (80, 8), (88, 8), (96, 8), (104, 8), (112, 8)], BE)],
    "VSS": [(vss.IDENT, [(16, 4), (20, 4), (24, 8), (32, 8), (40, 8), (48, 8), (56, 8)], LE)],
}
FIELDS["GPT"] = FIELDS["disk"][:1]
FIELDS["thin LVM"] = FIELDS["LVM"] + FIELDS["thin"]


@st.composite
def field(draw):
    how = draw(st.sampled_from(["zero", "set", "set", "plus", "times", "over", "here", "link"]))
    values = {"zero": st.just(0), "set": VALUES, "here": st.just(0), "link": st.integers(0, 20)}.get(how, st.integers(-3, 3))
    return draw(st.integers(0, 15)), how, draw(values)


@st.composite
def fields(draw):
    """Some fields of one structure."""
    return draw(st.integers(0, 31)), draw(st.lists(field(), min_size=1, max_size=5))


def spoil_fields(kind, imgs, steps, unit):
    """How many fields were changed."""
    found = []
    for img in imgs:
        for offset, data in img.pieces:
            for signature, places, order in FIELDS[kind]:
                at = data.find(signature)
                if at >= 0:
                    found.append((img, offset + at, places, order))
    if not found:
        return 0
    for which, changes in steps:
        img, start, places, order = found[which % len(found)]
        places, links = places(img, start) if callable(places) else (places, places)
        for pick, how, value in changes:
            chosen = links if how in ("here", "link") else places + links
            place, width = chosen[pick % len(chosen)]
            at = start + place
            if at < 0 or at + width > img.length:
                continue
            old = int.from_bytes(img.peek_at(at, width), order)
            if how in ("zero", "set", "link"):
                new = value
            elif how == "plus":
                new = old + value
            elif how == "here":
                # a reference to itself
                new = start // unit
            else:
                new = old << max(value, 0) if how == "times" else old >> max(value, 0)
            img.put(at, (new & ((1 << 8 * width) - 1)).to_bytes(width, order))
    return len(steps)


def case(kind, what):
    @st.composite
    def cases(draw):
        return {"inner": draw(KINDS[kind][0]), "damage": draw(st.lists(what(), min_size=1, max_size=3)), "at": draw(st.integers(0, 1 << 20))}

    return cases()


def checker(kind, fields=False):
    _, build, opener = KINDS[kind]

    def check(ctx, spec):
        imgs = build(spec["inner"])
        if kind not in ("MD", "DDF"):
            # what matters is at the front
            for img in imgs:
                img.length = min(img.length, LARGEST // 4)
        if max(img.length for img in imgs) > LARGEST:
            ctx.mark_trivial()
            ctx.label("large device")
            return
        if not fields:
            spoil(imgs, spec["damage"])
        elif not spoil_fields(kind, imgs, spec["damage"], {"thin": 512 * spec["inner"].get("sectors", 8), "disk": 512}.get(kind, 1)):
            ctx.mark_trivial()
            ctx.label("no such structure")
            return
        for img in imgs:
            img.budget = READS
            # a list or text without an end is followed as far as the device goes
            img.zero = img.length > NOISE
        signal.setitimer(signal.ITIMER_VIRTUAL, SECONDS, 1)
        inside, error = attempt(opener, spec["inner"], imgs)
        for fn in (inside or [])[:12]:
            fh, error = attempt(fn)
            for at in (0, spec["at"]):
                if hasattr(fh, "read"):
                    _, error = attempt(lambda: (fh.seek(at), fh.read(5000)))
        ctx.label("refused" if inside is None else "opened")
        if error is not None:
            ctx.label(f"{type(error).__name__}")

    return check


CHECK = Check(
    "C36",
    "the devices have at most 64 MiB; at least one piece of metadata is damaged",
    [
        *(Part(kind, case(kind, damage), checker(kind), quick=400, thorough=6000) for kind in KINDS),
        *(Part(f"{kind} fields", case(kind, fields), checker(kind, True), quick=400, thorough=6000) for kind in KINDS),
    ],
    assumptions=["20 seconds of processor time or 500000 device reads stand for endless"],
)

if __name__ == "__main__":
    CHECK.main()
