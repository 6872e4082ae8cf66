"""Small images for the demonstrations of planted changes (copied beside each of them)."""

import hashlib
import io
import struct
import sys

from dissect.volume.raid.raid import PhysicalDisk, VirtualDisk


def fill(tag, off, n):
    first, last = off // 32, (off + n + 31) // 32
    raw = b"".join(hashlib.blake2s(b"%d:%d" % (tag, i)).digest() for i in range(first, last))
    return raw[off - first * 32 :][:n]


class Dev(io.RawIOBase):
    """A sparse device: filler of its own wherever nothing was put."""

    def __init__(self, size, tag=0):
        self.length, self.tag, self.pos, self.pieces, self.reads = size, tag, 0, [], 0

    def put(self, off, data):
        self.pieces.append((off, bytes(data)))
        self.length = max(self.length, off + len(data))

    def at(self, off, n):
        n = max(0, min(n, self.length - off))
        buf = bytearray(fill(self.tag, off, n)) if self.tag else bytearray(n)
        for o, d in self.pieces:
            s, e = max(o, off), min(o + len(d), off + n)
            if s < e:
                buf[s - off : e - off] = d[s - o : e - o]
        return bytes(buf)

    def seekable(self):
        return True

    def readable(self):
        return True

    def seek(self, pos, whence=0):
        self.pos = pos + (0 if whence == 0 else self.pos if whence == 1 else self.length)
        if self.pos < 0:
            raise ValueError("negative position")
        return self.pos

    def tell(self):
        return self.pos

    def read(self, n=-1):
        self.reads += 1
        if self.reads > 200000:
            print("endless reading")
            sys.stdout.flush()
            import os

            os._exit(1)
        data = self.at(self.pos, self.length - self.pos if n is None or n < 0 else n)
        self.pos += len(data)
        return data


def expect(got, want, what):
    if got != want:
        print(f"{what}: got {str(got)[:300]}, expected {str(want)[:300]}")
        sys.exit(1)


def raises(fn, kind, what):
    try:
        got = fn()
    except kind:
        return
    except Exception as e:
        print(f"{what}: {e!r}")
        sys.exit(1)
    print(f"{what}: no error but {str(got)[:200]}")
    sys.exit(1)


def read(fh, off, n):
    fh.seek(off)
    return fh.read(n)


# --- partition tables


def entry(ptype, lba, count, boot=0):
    return struct.pack("<B3sB3sII", boot, b"\1\2\3", ptype, b"\4\5\6", lba, count)


def table(*entries, serial=0, code=b""):
    return code.ljust(440, b"\0") + struct.pack("<IH", serial, 0) + b"".join(entries).ljust(64, b"\0") + b"\x55\xaa"


def gpt_header(array, count, size=128):
    return b"EFI PART" + struct.pack("<IIIIQQQQ", 0x10000, 92, 0, 0, 1, 9, 34, 9999) + b"G" * 16 + struct.pack("<QIII", array, count, size, 0)


def gpt_entry(first, last, kind=b"T" * 16, guid=b"U" * 16, flags=0, name=""):
    return kind + guid + struct.pack("<QQQ", first, last, flags) + name.encode("utf-16-le").ljust(72, b"\0")


def apm_entry(count, start, size, name, ptype):
    return struct.pack(">2sHIII32s32s", b"PM", 0, count, start, size, name, ptype).ljust(512, b"\0")


def label32(parts, magic2=0x82564557):
    raw = struct.pack("<IHH", 0x82564557, 5, 0).ljust(132, b"\0") + struct.pack("<I", magic2)
    raw += struct.pack("<HH", 0, len(parts)) + struct.pack("<II", 8192, 0)
    return raw + b"".join(struct.pack("<IIIBBH", size, offset, 2048, fstype, 8, 0) for offset, size, fstype in parts)


# --- arrays


def array(level, layout, chunk, members, size):
    """members: {index: (Dev, base, data start, size)}"""
    disk_map = {i: (start, PhysicalDisk(dev, base, length)) for i, (dev, base, start, length) in members.items()}
    return VirtualDisk("name", "uuid", size, level, layout, chunk, len(members), disk_map)


def md1(uuid=b"u" * 16, name=b"host:0", level=0, layout=0, size=0, chunk=128, raid_disks=1, data_offset=0, data_size=0, number=0, roles=(0,),
        events=1, ctime=1600000000, utime=1600000001, sb=8):  # fmt: skip
    raw = struct.pack("<IIII", 0xA92B4EFC, 1, 0, 0) + uuid + name.ljust(32, b"\0")
    raw += struct.pack("<QiIQ", ctime, level, layout, size) + struct.pack("<III", chunk, raid_disks, 8)
    raw += b"\0" * 28 + struct.pack("<QQQQ", data_offset, data_size, sb, 0) + struct.pack("<II", number, 3) + b"d" * 16 + b"\0" * 8
    raw += struct.pack("<QQQII", utime, events, 0, 0, len(roles))
    return raw.ljust(256, b"\0") + b"".join(struct.pack("<H", r) for r in roles)


def md090(uuid=b"u" * 16, level=0, layout=0, size=0, chunk=65536, raid_disks=1, number=0, disks=((0, 0, 6),), events=1, ctime=1600000000, utime=1600000001):
    words = [0xA92B4EFC, 0, 90, 0, 0, int.from_bytes(uuid[:4], "little"), ctime, level & 0xFFFFFFFF, size, len(disks), raid_disks, 0, 0]
    words += struct.unpack("<3I", uuid[4:])
    raw = struct.pack("<16I", *words).ljust(128, b"\0")
    raw += struct.pack("<9I", utime, 1, 1, 1, 0, 0, 0, events & 0xFFFFFFFF, events >> 32).ljust(128, b"\0")
    raw += struct.pack("<II", layout, chunk).ljust(256, b"\0")
    known = {d[0]: d for d in disks}
    for i in range(27):
        n, role, state = known.get(i, (0, 0, 0))
        raw += struct.pack("<5I", n, 8, i, role, state).ljust(128, b"\0")
    n, role, state = known[number]
    return raw.ljust(4096 - 128, b"\0") + struct.pack("<5I", n, 8, 1, role, state).ljust(128, b"\0")


def ddf(dev, ref, refs, vds, guid=b"g" * 24, sector=512, configs=None, mppe=16, reclen=2, pd_size=None):
    """Metadata on one disk.  vds: dicts with guid, name, number; configs: raw records (see ddf_config)."""
    sections, pos = {}, 1
    for name, n in (("controller", 1), ("pdr", 10), ("vdr", 10), ("config", reclen * 8), ("pdd", 1)):
        sections[name] = (pos, n)
        pos += n
    end = dev.length
    start = end // sector - 200

    def head(kind):
        raw = struct.pack(">II", 0xDE11DE11, 0) + guid + b"02.00.00" + struct.pack(">IIBBB", 1, 2, 255, 0, 0) + b"\xff" * 45
        raw += struct.pack(">QQB", start, 0xFFFFFFFFFFFFFFFF, kind) + b"\xff" * 3 + struct.pack(">IQ", 100, 5)
        raw += struct.pack(">HHHHHI", 9, 9, 4, reclen, mppe, 0) + b"\xff" * 50
        for name in ("controller", "pdr", "vdr", "config", "pdd"):
            raw += struct.pack(">II", *sections[name])
        return raw.ljust(512, b"\xff")

    def put(name, raw):
        dev.put((start + sections[name][0]) * sector, raw)

    dev.put(end - sector, head(0).ljust(sector, b"\xff"))
    dev.put(start * sector, head(1))
    put("controller", (struct.pack(">II", 0xAD111111, 0) + b"c" * 24).ljust(512, b"\xff"))
    raw = struct.pack(">IIHH", 0x22222222, 0, len(refs), 9) + b"\xff" * 52
    for r in refs:
        raw += bytes([65 + r % 50]) * 24 + struct.pack(">IHHQ", r, 0, 1, pd_size or start) + b"\0" * 18 + struct.pack(">H", sector) + b"\xff" * 4
    put("pdr", raw)
    raw = struct.pack(">IIHH", 0xDDDDDDDD, 0, len(vds), 9) + b"\xff" * 52
    for v in vds:
        raw += v["guid"] + struct.pack(">HHHHBB", v.get("number", 0), 0xFFFF, 0, v.get("type", 0), 0, 0) + b"\xff" * 14 + v["name"].ljust(16, b"\0")
    put("vdr", raw)
    put("config", b"".join(c.ljust(reclen * sector, b"\xff") for c in configs).ljust(8 * reclen * sector, b"\xff"))
    put("pdd", (struct.pack(">II", 0x33333333, 0) + bytes([65 + ref % 50]) * 24 + struct.pack(">IBB", ref, 0, 0)).ljust(512, b"\xff"))


def ddf_config(guid, refs, starts, size, prl, rlq=0, strip=7, sec=(1, 0, 0), block=512, mppe=16, blocks=1000):
    raw = struct.pack(">II", 0xEEEEEEEE, 0) + guid + struct.pack(">II", 1, 1) + b"\xff" * 24
    raw += struct.pack(">HBBBBBB", len(refs), strip, prl, rlq, *sec) + struct.pack(">QQHB", blocks, size, block, 0)
    raw = raw.ljust(512, b"\xff")
    raw += struct.pack(f">{mppe}I", *refs, *[0xFFFFFFFF] * (mppe - len(refs)))
    return raw + struct.pack(f">{mppe}Q", *starts, *[0xFFFFFFFFFFFFFFFF] * (mppe - len(starts)))


# --- device-mapper


def node(flags, items, vsize, block=4096, most=None):
    most = most or len(items)
    raw = struct.pack("<IIQIIII", 0, flags, 0, len(items), most, vsize, 0) + b"".join(struct.pack("<Q", k) for k, _ in items).ljust(8 * most, b"\0")
    return (raw + b"".join(v for _, v in items)).ljust(block, b"\0")


def q(n):
    return struct.pack("<Q", n)


def thin_super(data_root, details_root, data_sectors=128, meta_sectors=8):
    raw = b"\0" * 32 + struct.pack("<QIIQQ", 27022010, 2, 0, 0, 0) + b"\0" * 256
    return raw + struct.pack("<QQIIQIII", data_root, details_root, data_sectors, meta_sectors, 99, 0, 0, 0)


def thin(devices, data_sectors=128):
    """devices: {id: {block: data block}} -> metadata device"""
    meta, at, top, details = Dev(1 << 20), 1, [], []
    for dev, mapping in sorted(devices.items()):
        meta.put(at * 4096, node(2, [(b, q(d << 24 | 5)) for b, d in sorted(mapping.items())], 8))
        top.append((dev, q(at)))
        details.append((dev, struct.pack("<QQII", len(mapping), 0, 0, 0)))
        at += 1
    meta.put(at * 4096, node(2, top, 8))
    meta.put((at + 1) * 4096, node(2, details, 24))
    meta.put(0, thin_super(at, at + 1, data_sectors))
    return meta


# --- LVM2


def pv_id(n):
    return f"{n:06d}" + "abcdefghijklmnopqrstuvwxyz"


def dash(i):
    return "-".join(i[a:b] for a, b in zip([0, 6, 10, 14, 18, 22, 26], [6, 10, 14, 18, 22, 26, 32]))


def lvm_device(n, text, sectors=40000, data=2048, sector=1, header=32, area=(4096, 1 << 20), offset=512, size=None, tag=None, flags=0):
    dev = Dev(sectors * 512, 50 + n if tag is None else tag)
    dev.put(0, b"\0" * 4096)
    body = pv_id(n).encode() + struct.pack("<Q", sectors * 512) + struct.pack("<QQQQ", data * 512, 0, 0, 0)
    if area:
        body += struct.pack("<QQ", area[0], area[1])
    body += b"\0" * 16
    raw = b"LABELONE" + struct.pack("<QII", sector, 0, header) + b"LVM2 001"
    dev.put(sector * 512, raw.ljust(header, b"\0") + body)
    if area:
        raw = (text or "").encode() + b"\0"
        locn = struct.pack("<QQII", offset, len(raw), 0, flags) if text is not None else b""
        dev.put(area[0], (struct.pack("<I", 0) + b" LVM2 x[5A%r0N*>" + struct.pack("<IQQ", 1, *area) + locn).ljust(512, b"\0"))
        if text is not None:
            room = area[1] - offset
            dev.put(area[0] + offset, raw[:room])
            if raw[room:]:
                dev.put(area[0] + 512, raw[room:])
    return dev


def lvm_text(pvs, lvs, extent=8, seqno=1, pe_start=2048, pe_count=1000, extra=""):
    """lvs: {name: [segment lines]}"""
    out = [f"vg {{", 'id = "vgvgvg-vgvg-vgvg-vgvg-vgvg-vgvg-vgvgvg"', f"seqno = {seqno}", 'format = "lvm2"', 'status = ["READ"]', "flags = []",
           f"extent_size = {extent}", "max_lv = 0", "max_pv = 0", "metadata_copies = 0", extra, "physical_volumes {"]  # fmt: skip
    for n in pvs:
        out += [f"pv{n} {{", f'id = "{dash(pv_id(n))}"', f'device = "/dev/sd{n}"', 'status = ["ALLOCATABLE"]', "flags = []", f"pe_start = {pe_start}",
                f"pe_count = {pe_count}", "}"]  # fmt: skip
    out += ["}", "logical_volumes {"]
    for name, segs in lvs.items():
        out += [f"{name} {{", f'id = "{name}"', 'status = ["READ", "VISIBLE"]', "flags = []", f"segment_count = {len(segs)}"]
        for i, seg in enumerate(segs):
            out += [f"segment{i + 1} {{", *seg, "}"]
        out.append("}")
    out += ["}", "}", 'contents = "Text Format Volume Group"', "version = 1", 'description = ""', 'creation_host = "h"', "creation_time = 1600000000"]
    return "\n".join(out) + "\n"


def stripes(start, count, places, stripe_size=None):
    out = [f"start_extent = {start}", f"extent_count = {count}", 'type = "striped"', f"stripe_count = {len(places)}"]
    if stripe_size:
        out.append(f"stripe_size = {stripe_size}")
    return [*out, "stripes = [" + ", ".join(f'"pv{p}", {e}' for p, e in places) + "]"]


# --- Vinum


def vinum_drive(name, config, time=(1000, 0), size=1 << 20, magic=0x494E2056494E4F00, tag=1):
    dev = Dev(size + 135680, tag)
    label = b"host".ljust(32, b"\0") + name.ljust(32, b"\0") + struct.pack(">QQQQQ", 1, 2, *time, size)
    dev.put(4096, (struct.pack(">QQ", magic, 4096) + label).ljust(512, b"\0"))
    dev.put(4608, config.ljust(4096, b"\0"))
    return dev


# --- shadow copies

VSS_ID = bytes.fromhex("6b87083876c1484eb7ae04046e6cc752")


def vss_block(dev, place, kind, body, following=0):
    dev.put(place, ((VSS_ID + struct.pack("<IIQQQQ", 1, kind, 0, place, following, 0)).ljust(128, b"\0") + body).ljust(0x4000, b"\0"))


def vss_store(dev, at, guid, time, size, entries=b"", bitmap=b"\xff" * 64, previous=None, attributes=9, machine="m", service="s", following=0):
    """Writes a store in the blocks from ``at`` on; -> its two catalog entries."""
    at *= 0x4000
    vss_block(dev, at, 3, entries, following)
    vss_block(dev, at + 0x4000, 5, b"")
    vss_block(dev, at + 0x8000, 6, bitmap)
    if previous is not None:
        vss_block(dev, at + 0xC000, 6, previous)
    info = b"i" * 16 + b"c" * 16 + b"S" * 16 + struct.pack("<IIII", 1, 1, attributes, 0)
    for name in (machine, service):
        raw = name.encode("utf-16-le")
        info += struct.pack("<H", len(raw)) + raw
    vss_block(dev, at + 0x10000, 4, info)
    two = struct.pack("<QQ", 2, size) + guid + struct.pack("<QQQ", 1, 2, time)
    three = struct.pack("<QQ", 3, at) + guid + struct.pack("<QQQQQQ", at + 0x10000, at + 0x4000, at + 0x8000, 1, 1, at + 0xC000 if previous is not None else 0)
    return two.ljust(128, b"\0"), three.ljust(128, b"\0")


def vss_header(dev, catalog):
    dev.put(0x1E00, (VSS_ID + struct.pack("<IIQQQQQ", 1, 1, 0x1E00, 0, 0, catalog, 0) + b"v" * 32).ljust(512, b"\0"))


def desc(original, relative, store, flags=0, bitmap=0):
    return struct.pack("<QQQII", original, relative, store, flags, bitmap)
