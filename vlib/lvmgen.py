"""Strategies for volume groups: metadata trees and the devices that carry them."""

from __future__ import annotations

from hypothesis import strategies as st

from vlib import hist, lvm, lvmtext, raidgen
from vlib.gen import wide
from vlib.img import Img, pattern

VG_NAME = st.sampled_from(["vg_test", "vg0", "a-b", "VolGroup00"])


@st.composite
def placements(draw, copies=st.just(1)):
    """How the label and the metadata areas are placed on a device."""
    return {
        "label": draw(st.integers(0, 3)),
        "header": draw(st.sampled_from([32, 32, 32, 40, 64, 200])),
        "copies": draw(copies),
        "gap": draw(st.integers(0, 8)),
        "spare": draw(st.one_of(st.integers(0, 2000), st.integers(0, 200000))),
        "at": draw(st.one_of(st.just(0), st.integers(0, 1 << 20))),
        "wrap": draw(st.booleans()),
        "cut": draw(st.integers(1, 5000)),
        "extension": draw(st.booleans()),
        "old": draw(st.booleans()),
        "extra_start": draw(st.sampled_from([0, 0, 1, 8, 2048])),
    }


def areas(place: dict, length: int) -> list[tuple[int, int]]:
    """(start, size) of the metadata areas, given the length of the text with its NUL; in front of the data."""
    size = (512 + length + place["spare"] + 511) // 512 * 512
    start = 4096 + place["gap"] * 512
    out = []
    for _ in range(place["copies"]):
        out.append((start, size))
        start += size
    return out


def data_start(place: dict, length: int) -> int:
    """First sector of the extents."""
    found = areas(place, length)
    end = (found[-1][0] + found[-1][1]) if found else 4096
    return (end + 511) // 512 + place["extra_start"]


def text_offset(place: dict, size: int, length: int) -> int:
    """Where in the area the text starts; a multiple of the sector size, as LVM does it."""
    if place["wrap"]:
        # some of it remains at the end of the area
        first = 1 + place["cut"] % max(1, length - 1)
        return max(512, (size - first) // 512 * 512)
    sectors = (size - 512 - length) // 512
    return 512 + place["at"] % (sectors + 1) * 512


def write_device(img: Img, place: dict, pv_id: str, device_size: int, start: int, text: str | None, flags: int = 0, length: int | None = None) -> bool:
    """Label, header and metadata; -> whether the text wraps around the end of its area.

    text None: the areas are there but empty.  ``length`` sizes the areas when the text is shorter than the room
    reserved for it, and then there may be a list with text and flags of each area.
    """
    each = text if isinstance(text, list) else [(text, flags)] * place["copies"]
    found = areas(place, length or len((text or "").encode()) + 1)
    lvm.write_label(img, place["label"], place["header"], pv_id, device_size, start * 512, found, place["extension"])
    wrapped = False
    for (begin, size), (text, flags) in zip(found, each):
        locations = []
        raw = len((text or "").encode()) + 1
        if text is not None:
            offset = text_offset(place, size, raw)
            wrapped |= offset + raw > size
            locations.append({"offset": offset, "text": text, "flags": flags})
        lvm.write_area(img, begin, size, locations)
    return wrapped


TIME = st.one_of(st.integers(1, 0x7FFFFFFF), wide(1, 250_000_000_000))
TAGS = st.lists(st.sampled_from(["@a", "prod", "x#y", "t]"]), max_size=3)
STATUS = st.lists(st.sampled_from(["READ", "WRITE", "VISIBLE", "RESIZEABLE"]), max_size=4, unique=True)
LV_NAMES = ["root", "home", "lv-1", "swap_1", "lvol0_pmspare", "data_tmeta"]


def maybe(draw, out: dict, **fields) -> None:
    for key, strategy in fields.items():
        if draw(st.booleans()):
            out[key] = draw(strategy)


RAIDS = ["raid0_meta", "raid10", "raid10_near", "raid4", "raid5", "raid5_n", "raid5_la", "raid5_ls", "raid5_ra", "raid5_rs", "raid6", "raid6_nc",
         "raid6_nr", "raid6_zr", "raid6_la_6", "raid6_ls_6", "raid6_ra_6", "raid6_rs_6", "raid6_n_6"]  # fmt: skip
CACHE = {
    "cache_mode": st.sampled_from(["writethrough", "writeback", "passthrough"]),
    "policy": st.sampled_from(["smq", "mq", "cleaner"]),
    "policy_settings": st.dictionaries(st.sampled_from(["migration_threshold", "sequential_threshold", "write_promote_adjustment"]), st.integers(0, 5000), min_size=1),
}
# What a segment of a kind may say; what it does not say is absent
OPTIONAL = {
    "striped": ["stripe_size"],
    "linear": ["stripe_size"],
    "mirror": ["extents_moved", "region_size", "mirror_log"],
    "snapshot": ["merging_store", "cow_store"],
    "thin": ["origin", "merge", "external_origin"],
    "thin-pool": ["discards", "zero_new_blocks", "crop_metadata"],
    "cache": ["cleaner", "chunk_size", "cache_mode", "policy", "policy_settings", "metadata_format", "metadata_start", "metadata_len", "data_start", "data_len", "metadata_id", "data_id"],
    "cache-pool": ["metadata_format", "chunk_size", "cache_mode", "policy", "policy_settings"],
    "writecache": ["high_watermark", "low_watermark", "writeback_jobs", "autocommit_blocks", "autocommit_time", "fua", "nofua", "cleaner", "max_age", "metadata_only", "pause_writeback", "writecache_setting_key", "writecache_setting_val"],
    "integrity": ["meta_dev", "recalculate", "journal_sectors", "interleave_sectors", "buffer_sectors", "journal_watermark", "commit_time", "bitmap_flush_interval", "sectors_per_bit"],
    "raid": ["device_count", "stripe_count", "region_size", "stripe_size", "writebehind", "min_recovery_rate", "max_recovery_rate", "data_copies", "data_offset", "raids", "raid0_lvs"],
}  # fmt: skip


def optional(kind):
    return ["tags", "reshape_count", "data_copies", *OPTIONAL.get("raid" if kind.startswith("raid") else kind, [])]


@st.composite
def segments(draw, start, pvs):
    """The section of one segment, of any kind."""
    kind = draw(
        st.sampled_from(
            ["striped", "striped", "linear", "mirror", "snapshot", "thin", "thin-pool", "cache", "cache-pool", "writecache",
             "error", "zero", "free", "raid1", "raid0", "raid", "vdo", "vdo-pool", "integrity", "somethingnew"]
        )
    )  # fmt: skip
    if kind == "raid":
        kind = draw(st.sampled_from(RAIDS))
    count = draw(wide(1, 1 << 32))
    out = {"start_extent": start, "extent_count": count, "type": kind}
    maybe(draw, out, tags=TAGS, reshape_count=wide(1, 1 << 32))
    name = st.sampled_from(LV_NAMES)
    ext = st.integers(0, 100000)
    if kind in ("striped", "linear"):
        stripes = draw(st.lists(st.tuples(st.sampled_from(pvs), ext), min_size=1, max_size=4))
        out["stripe_count"] = len(stripes)
        if len(stripes) > 1:
            out["stripe_size"] = draw(st.sampled_from([8, 128, 1024]))
        out["stripes"] = [x for pair in stripes for x in pair]
    elif kind == "mirror":
        mirrors = draw(st.lists(st.tuples(name, ext), min_size=1, max_size=3))
        out["mirror_count"] = len(mirrors)
        maybe(draw, out, region_size=ext, mirror_log=name, extents_moved=ext)
        out["mirrors"] = [x for pair in mirrors for x in pair]
    elif kind == "snapshot":
        out |= {"chunk_size": draw(ext), "origin": draw(name), draw(st.sampled_from(["cow_store", "merging_store"])): draw(name)}
    elif kind == "thin":
        out |= {"thin_pool": draw(name), "transaction_id": draw(ext), "device_id": draw(ext)}
        maybe(draw, out, origin=name, merge=name, external_origin=name)
    elif kind == "thin-pool":
        out |= {"metadata": draw(name), "pool": draw(name), "transaction_id": draw(ext), "chunk_size": draw(ext)}
        maybe(draw, out, discards=st.sampled_from(["passdown", "nopassdown", "ignore"]), zero_new_blocks=st.integers(0, 1), crop_metadata=st.integers(0, 1))
    elif kind == "cache":
        out |= {"cache_pool": draw(name), "origin": draw(name)}
        maybe(draw, out, cleaner=st.integers(0, 1), chunk_size=ext, **CACHE)
        maybe(draw, out, metadata_format=st.integers(1, 2), metadata_start=ext, metadata_len=ext, data_start=ext, data_len=ext)
        maybe(draw, out, metadata_id=st.integers(50, 60).map(lambda i: lvm.dashed(lvm.new_id(i))), data_id=st.integers(50, 60).map(lambda i: lvm.dashed(lvm.new_id(i))))
    elif kind == "cache-pool":
        out |= {"data": draw(name), "metadata": draw(name)}
        maybe(draw, out, metadata_format=st.integers(1, 2), chunk_size=ext, **CACHE)
    elif kind == "writecache":
        out |= {"origin": draw(name), "writecache": draw(name), "writecache_block_size": draw(st.sampled_from([512, 4096]))}
        maybe(draw, out, **{key: ext for key in OPTIONAL[kind][:-2]})
        if draw(st.booleans()):
            out |= {"writecache_setting_key": "some_key", "writecache_setting_val": "some value"}
    elif kind == "vdo":
        out |= {"vdo_pool": draw(name), "vdo_offset": draw(ext)}
    elif kind == "vdo-pool":
        out |= {"data": draw(name), "header_size": 1024, "virtual_extents": draw(ext), "use_compression": 1, "use_deduplication": 1}
        for key in ("use_metadata_hints", "minimum_io_size", "block_map_cache_size_mb", "block_map_era_length", "use_sparse_index",
                    "index_memory_size_mb", "max_discard", "slab_size_mb", "ack_threads", "bio_threads", "bio_rotation",
                    "cpu_threads", "hash_zone_threads", "logical_threads", "physical_threads"):  # fmt: skip
            out[key] = draw(st.integers(0, 9))
    elif kind == "integrity":
        out |= {"origin": draw(name), "data_sectors": draw(ext), "mode": draw(st.sampled_from("JBDR")), "tag_size": draw(st.integers(4, 32))}
        out |= {"block_size": draw(st.sampled_from([512, 4096])), "internal_hash": draw(st.sampled_from(["crc32c", "sha256"]))}
        maybe(draw, out, meta_dev=name, **{key: ext for key in OPTIONAL[kind][1:]})
    elif kind == "raid0":
        lvs = draw(st.lists(name, min_size=1, max_size=3))
        out |= {"stripe_count": len(lvs), "stripe_size": 128, "raid0_lvs": lvs}
    elif kind.startswith("raid"):
        # what LVM leaves out depends on the level and on what is set
        lvs = draw(st.lists(st.tuples(name, name), min_size=2, max_size=4))
        out["device_count"] = len(lvs)
        if kind.startswith("raid10"):
            maybe(draw, out, data_copies=st.just(2))
        out["region_size"] = draw(ext)
        if kind != "raid1":
            out["stripe_size"] = draw(st.sampled_from([8, 128]))
        maybe(draw, out, stripe_count=st.just(len(lvs)), data_offset=ext, writebehind=ext, min_recovery_rate=ext, max_recovery_rate=ext)
        out["raids"] = [x for pair in lvs for x in pair]
    if draw(st.integers(0, 9)) == 0:
        out["type"] += draw(st.sampled_from(["+METADATA_FORMAT", "+A+B"]))
    return out


@st.composite
def groups(draw):
    """The metadata of a group that need not be readable: all kinds of fields and segments."""
    npv = draw(st.integers(1, 3))
    pvs = {}
    for i in range(npv):
        pv = {"id": lvm.dashed(lvm.new_id(i)), "status": ["ALLOCATABLE"], "flags": [], "pe_start": 2048, "pe_count": draw(wide(0, 1 << 32))}
        maybe(draw, pv, device=st.just(f"/dev/sd{'abc'[i]}1"), device_id=st.just("wwn#1"), device_id_type=st.just("sys_wwid"),
              dev_size=wide(1, 1 << 50), tags=TAGS, ba_start=st.integers(1, 99), ba_size=st.integers(1, 99))  # fmt: skip
        pvs[f"pv{i}"] = pv
    lvs = {}
    for i, name in enumerate(draw(st.lists(st.sampled_from(LV_NAMES), max_size=4, unique=True))):
        segs, start = {}, 0
        for j in range(draw(st.integers(1, 3))):
            segs[f"segment{j + 1}"] = s = draw(segments(start, list(pvs)))
            start += s["extent_count"]
        if draw(st.integers(0, 7)) == 7:
            # more of the last kind, so that there are ten and more
            while len(segs) < 12:
                segs[f"segment{len(segs) + 1}"] = {**s, "start_extent": start}
                start += s["extent_count"]
        lv = {"id": lvm.dashed(lvm.new_id(100 + i)), "status": draw(STATUS), "flags": []}
        maybe(draw, lv, creation_time=TIME, creation_host=st.sampled_from(["localhost", "höst"]), allocation_policy=st.just("inherit"),
              read_ahead=st.integers(0, 999), tags=TAGS, profile=st.just("p"), lock_args=st.just("x"))  # fmt: skip
        lv["segment_count"] = len(segs)
        lvs[name] = {**lv, **segs}
    vg = {
        "id": lvm.dashed(lvm.new_id(999)),
        "seqno": draw(wide(0, (1 << 32) - 1)),
        "status": draw(STATUS),
        "flags": [],
        "extent_size": draw(st.sampled_from([2, 128, 8192, 65536])),
        "max_lv": draw(st.integers(0, 255)),
        "max_pv": draw(st.integers(0, 255)),
    }
    maybe(draw, vg, format=st.just("lvm2"), system_id=st.just("host"), tags=TAGS, metadata_copies=st.integers(0, 3),
          allocation_policy=st.just("normal"), profile=st.just("p"), lock_type=st.just("dlm"), lock_args=st.just("1.0.0"))  # fmt: skip
    vg["physical_volumes"] = pvs
    if lvs:
        # LVM leaves the section out when there are none
        vg["logical_volumes"] = lvs
    if draw(st.integers(0, 3)) == 0:
        old = {"id": lvm.dashed(lvm.new_id(500))}
        maybe(draw, old, name=st.just("gone"), creation_time=TIME, removal_time=TIME, origin=st.just("root"), descendants=st.just(["home", "-x"]))
        vg["historical_logical_volumes"] = {"hist1": old}
    name = draw(VG_NAME)
    top = {name: vg, "contents": "Text Format Volume Group", "version": 1}
    maybe(draw, top, description=lvmtext.STRING, creation_host=st.just("localhost"), creation_time=TIME)
    return {"name": name, "tree": top}


# --- groups whose volumes can be read

# unused extents in front of a segment
GAP = st.integers(0, 15).flatmap(lambda k: wide(8, 1 << 22) if k == 15 else st.sampled_from([0, 0, 1, 7]))

EXTENT = st.one_of(st.sampled_from([8, 128, 8192, 65536]), st.integers(1, 64), st.integers(0, 13).map(lambda k: 1 << k))


@st.composite
def stores(draw, lvs=3, pvs=4, names=None, most=6, copies=st.just(1)):
    """A readable group: physical volumes, and logical volumes of linear and striped segments."""
    extent = draw(EXTENT)
    npv = draw(raidgen.count(1, pvs, pvs * 3))
    used = [0] * npv
    volumes = {}
    for i in range(draw(st.integers(1, lvs))):
        # nothing keeps a logical volume from having the name that a physical one has in the metadata
        name = f"pv{i}" if not names and draw(st.integers(0, 5)) == 5 else (names or LV_NAMES)[i]
        segs = []
        home = draw(st.integers(0, npv - 1)) if draw(st.booleans()) else None
        for _ in range(draw(raidgen.count(1, most, most * 2))):
            k = draw(st.sampled_from([1, 1, 2, 2, 3, 4, 9]))
            per = draw(st.one_of(st.integers(1, 3), st.integers(1, 40), st.integers(1, 40), st.integers(1, 1 << 20)))
            stripes = []
            for _ in range(k):
                pv = draw(st.integers(0, npv - 1)) if home is None else home
                used[pv] += draw(GAP)
                stripes.append((pv, used[pv]))
                used[pv] += per
            divisors = [d for d in (1, 2, 4, 8, 16, 32, 64, 128, 256, 1024) if extent % d == 0]
            segs.append({"count": k * per, "stripes": stripes, "stripe_size": draw(st.sampled_from(divisors)) if k > 1 else None})
        volumes[name] = segs
    return draw(shell(extent, used, volumes, copies))


@st.composite
def layout(draw, used: list[int], extent: int, total: int, most=4, pvs=None, least=1):
    """Segments with ``total`` extents altogether; ``used`` is moved on.  ``least``: smallest stripe size."""
    segs = []
    divisors = [d for d in (1, 2, 4, 8, 16, 32, 64, 128, 256, 1024) if extent % d == 0 and d >= least]
    while total:
        k = draw(st.sampled_from([k for k in (1, 1, 1, 2, 3) if k == 1 or total >= k and divisors]))
        per = total // k if len(segs) >= most - 2 else draw(st.integers(1, total // k))
        if len(segs) >= most:
            k, per = 1, total
        stripes = []
        for _ in range(k):
            pv = draw(st.sampled_from(pvs or range(len(used))))
            used[pv] += draw(GAP)
            stripes.append((pv, used[pv]))
            used[pv] += per
        segs.append({"count": k * per, "stripes": stripes, "stripe_size": draw(st.sampled_from(divisors)) if k > 1 else None})
        total -= k * per
    return segs


@st.composite
def shell(draw, extent: int, used: list[int], volumes: dict, copies=st.just(1)):
    """The rest of a readable group around its volumes."""
    npv = len(used)
    return {
        "name": draw(VG_NAME),
        "extent": extent,
        "used": used,
        "volumes": volumes,
        "tail": [draw(st.integers(0, 5)) for _ in range(npv)],
        "dev_size": draw(st.booleans()),
        "short": [draw(st.sampled_from([0, 0, 0, 1])) for _ in range(npv)],
        "places": [draw(placements(copies)) for _ in range(npv)],
        "choices": draw(st.one_of(st.just([]), lvmtext.CHOICES)),
        "kind": draw(st.sampled_from(["striped", "striped", "linear"])),
        "mixed": draw(st.sampled_from([0, 0, 0, 1, 2, 3])),
    }


def needs(segs: list[dict]) -> set[int]:
    """The physical volumes a volume is on."""
    return {pv for s in segs for pv, _ in s["stripes"]}


def seg_sections(g: dict, segs: list[dict]) -> dict:
    """The sections of the segments, which need not be in the order of their extents."""
    out, start = {}, 0
    for i, s in enumerate(segs):
        section = {"start_extent": start, "extent_count": s["count"], "type": g["kind"], "stripe_count": len(s["stripes"])}
        if s["stripe_size"]:
            section["stripe_size"] = s["stripe_size"]
        section["stripes"] = [x for pv, ext in s["stripes"] for x in (f"pv{pv}", ext)]
        out[f"segment{i + 1}"] = section
        start += s["count"]
    if g["mixed"]:
        sections = list(out.values())
        sections.sort(key=lambda s: s["start_extent"] * 2654435761 * g["mixed"] >> 3 & 0xFFFF)
        out = {f"segment{i + 1}": s for i, s in enumerate(sections)}
    return out


def lv_section(i: int, segs: dict) -> dict:
    return {"id": lvm.dashed(lvm.new_id(100 + i)), "status": ["READ", "WRITE", "VISIBLE"], "flags": [], "segment_count": len(segs), **segs}


RESERVE = 60000  # room for the text of a metadata area


def pe_start(g: dict, pv: int) -> int:
    return data_start(g["places"][pv], RESERVE)


def device_sectors(g: dict, pv: int) -> int:
    return pe_start(g, pv) + (g["used"][pv] + g["tail"][pv]) * g["extent"]


def group_tree(g: dict, extra: dict | None = None, seqno: int = 7) -> dict:
    pvs = {}
    for i in range(len(g["used"])):
        pv = {"id": lvm.dashed(lvm.new_id(i)), "device": f"/dev/sd{'abcdefghijklmnop'[i]}", "status": ["ALLOCATABLE"], "flags": []}
        if g["dev_size"]:
            pv["dev_size"] = device_sectors(g, i)
        pvs[f"pv{i}"] = {**pv, "pe_start": pe_start(g, i), "pe_count": g["used"][i] + g["tail"][i]}
    lvs = {}
    for i, (name, segs) in enumerate(g["volumes"].items()):
        lvs[name] = lv_section(i, seg_sections(g, segs))
    for i, (name, segs) in enumerate((extra or {}).items()):
        lvs[name] = lv_section(50 + i, segs)
    vg = {"id": lvm.dashed(lvm.new_id(999)), "seqno": seqno, "format": "lvm2", "status": ["RESIZEABLE", "READ", "WRITE"], "flags": [],
          "extent_size": g["extent"], "max_lv": 0, "max_pv": 0, "metadata_copies": 0, "physical_volumes": pvs}  # fmt: skip
    if lvs:
        vg["logical_volumes"] = lvs
    return {g["name"]: vg, "contents": "Text Format Volume Group", "version": 1, "description": "", "creation_host": "h", "creation_time": 1600000000}


def build(g: dict, texts: list[str | list | None], flags: list[int] | None = None, tag: int = 230) -> list[Img]:
    """All devices of the group, each with its own copy of the metadata text."""
    out = []
    for i, text in enumerate(texts):
        sectors = device_sectors(g, i)
        img = Img(sectors * 512, tag=tag + i)
        # the size in the header may lag behind
        behind = min(g["short"][i] * g["extent"], sectors - pe_start(g, i))
        if g["dev_size"] and g["extent"] < 512:
            # by the known finding LVM-PV-SIZE, the size in the metadata does not make up for it
            behind = min(behind, pe_start(g, i))
        stated = sectors - behind
        write_device(img, g["places"][i], lvm.new_id(i), stated * 512, pe_start(g, i), text, (flags or [0] * 99)[i], RESERVE)
        assert img.length == sectors * 512
        out.append(img)
    return out


def pieces(g: dict, segs: list[dict], off: int, length: int):
    """(device, offset on it, length) of this part of a volume."""
    size = g["extent"] * 512
    end = off + length
    start = 0
    for s in segs:
        seg_end = start + s["count"] * size
        while start <= off < min(seg_end, end):
            at = off - start
            if s["stripe_size"]:
                unit = s["stripe_size"] * 512
                row, inside = divmod(at, unit)
                depth, column = divmod(row, len(s["stripes"]))
                pv, ext = s["stripes"][column]
                n = min(end, seg_end) - off
                n = min(n, unit - inside)
                pos = depth * unit + inside
            else:
                pv, ext = s["stripes"][0]
                n = min(end, seg_end) - off
                pos = at
            yield pv, pe_start(g, pv) * 512 + ext * size + pos, n
            off += n
        start = seg_end


def volume_size(g: dict, segs: list[dict]) -> int:
    return sum(s["count"] for s in segs) * g["extent"] * 512


def volume(g: dict, segs: list[dict], tag: int = 230) -> hist.Model:
    def read(off, n):
        return b"".join(pattern(tag + pv, pos, k) for pv, pos, k in pieces(g, segs, off, n))

    return hist.Model(volume_size(g, segs), read)


def volume_marks(g: dict, segs: list[dict]) -> list[int]:
    size = g["extent"] * 512
    out, start = {0, volume_size(g, segs)}, 0
    for s in segs:
        out.add(start)
        out.add(start + (s["stripe_size"] or g["extent"]) * 512)
        out.add(start + s["count"] * size // 2 // 512 * 512)
        start += s["count"] * size
    return sorted(out)


def put(g: dict, imgs: list[Img], segs: list[dict], off: int, data: bytes) -> None:
    """Write data to a volume."""
    done = 0
    for pv, pos, n in pieces(g, segs, off, len(data)):
        imgs[pv].put(pos, data[done : done + n])
        done += n
    assert done == len(data)
