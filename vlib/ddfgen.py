"""Strategies for DDF groups: disks, and virtual disks on them."""

from __future__ import annotations

from hypothesis import strategies as st

from vlib import ddf, raidgen
from vlib.gen import different, wide
from vlib.img import Img

# kind -> (primary level, qualifier, secondary count > 1?, level, layout) as the volume is to be reported
KINDS = {
    "concat": (0x1F, 0, -1, None),
    "raid0": (0, 0, 0, None),
    "raid1": (1, 0, 1, None),
    "raid1x3": (1, 1, 1, None),
    "raid4": (4, 1, 4, None),
    "raid5 right asymmetric": (5, 0, 5, 1),
    "raid5 left asymmetric": (5, 2, 5, 0),
    "raid5 left symmetric": (5, 3, 5, 2),
    "raid6 zero restart": (6, 1, 6, 8),
    "raid6 n restart": (6, 2, 6, 9),
    "raid6 n continue": (6, 3, 6, 10),
    "raid1e adjacent": (0x11, 0, 10, 0x102),
    "raid1e offset": (0x11, 1, 10, 0x201),
    "raid10": (1, 0, 10, 0x102),
    "raid10x3": (1, 1, 10, 0x103),
}


@st.composite
def members(draw, kind):
    """-> (primary element count, secondary element count)"""
    if kind == "raid1":
        return 2, 1
    if kind == "raid1x3":
        return 3, 1
    if kind == "raid10":
        return 2, draw(raidgen.count(2, 4, 9))
    if kind == "raid10x3":
        return 3, draw(st.integers(2, 3))
    low = {"concat": 1, "raid0": 1, "raid4": 3, "raid1e adjacent": 3, "raid1e offset": 3}.get(kind)
    if low is None:
        low = 4 if kind.startswith("raid6") else 3
    return draw(raidgen.count(low, low + 4, 16)), 1


NAME = st.one_of(
    st.sampled_from(["ddf-raid5", "", "sixteen bytes!!!"]),
    st.text(alphabet=st.characters(min_codepoint=32, max_codepoint=126), max_size=16),
    st.text(alphabet="é日a ", min_size=1, max_size=5),
)


@st.composite
def groups(draw, kinds=None, vds=4, rows=st.one_of(st.integers(1, 12), st.integers(1, 2000)), far=True):
    """One group; all numbers on the disks in blocks.  A virtual disk takes the same stretch on each member."""
    sector = draw(st.sampled_from([512, 512, 512, 4096]))
    # disks may count in smaller blocks than the metadata does
    pd_unit = draw(st.sampled_from([sector, 512]))
    wanted = draw(st.lists(st.sampled_from(sorted(kinds or KINDS)), min_size=1, max_size=vds))
    shapes = [draw(members(kind)) for kind in wanted]
    if "concat" in wanted:
        # spans its members entirely, so it does not share them
        wanted, shapes = wanted[:1], shapes[:1]
        if wanted != ["concat"]:
            wanted, shapes = ["concat"], [(draw(st.integers(1, 5)), 1)]
    n = max(pec * sec for pec, sec in shapes) + draw(st.integers(0, 2))
    refs = draw(st.lists(wide(1, 0xFFFFFFFE), min_size=n, max_size=n, unique=True))
    used = [0] * n
    stem = draw(st.binary(min_size=16, max_size=16)) + draw(st.sampled_from([b"\x00" * 8, b"\x12\x34\x56\x78\xff\xff\xff\xff"]))
    ids = (stem, draw(st.one_of(st.integers(0, 23), st.just(23))))
    out = []
    for i, (kind, (pec, sec)) in enumerate(zip(wanted, shapes)):
        strip = draw(st.integers(0, 7) if sector == 4096 else st.integers(0, 11))
        r = draw(rows)
        if kind == "raid1e offset":
            r *= 2
        prl, rlq, level, layout = KINDS[kind]
        blocks = r << strip if level != 1 else r
        disks = draw(st.permutations(range(n)))[: pec * sec]
        first = 0 if kind == "concat" else draw(st.sampled_from([0, 0, 1, 2048]))
        if first and far and draw(st.integers(0, 9)) == 9:
            first = draw(st.sampled_from([1 << 23, (1 << 32) + 5, 1 << 40]))
        starts = []
        common = draw(st.booleans())
        top = max(used[d] for d in disks)
        for d in disks:
            start = (top if common else used[d]) + first
            starts.append(start)
            used[d] = start + blocks
        g = {"level": level, "layout": layout or 0, "n": pec * sec, "chunk": sector << strip, "sizes": [blocks * sector] * (pec * sec)}
        size = raidgen.model(g).size // sector
        if kind != "concat" and draw(st.integers(0, 3)) == 0:
            size = max(1, size - draw(st.integers(0, 3)))
        # the volume may count in blocks of another size than its disks do
        units = [u for u in (512, 1024, 2048, 4096) if (sector << strip) % u == 0 and size * sector % u == 0]
        unit = draw(st.sampled_from(units)) if draw(st.integers(0, 3)) == 3 else pd_unit
        name = draw(NAME)
        unicode = not name.isascii() or draw(st.booleans())
        out.append(
            {
                "kind": kind,
                "guid": different(*ids, i),
                "name": name,
                "unicode": unicode,
                "flags": draw(st.sampled_from([0, 1, 2, 3, 8, 11])),
                "crc": draw(st.integers(0, 0xFFFF)),
                "pec": pec,
                "sec": sec,
                # with a single element these two mean nothing
                "srl": draw(st.sampled_from([0, 3])) if sec > 1 else draw(st.sampled_from([0xFF, 0xFF, 0, 1, 2, 3])),
                "single": draw(st.sampled_from([0, 0, 0, 1, 2, 255])) if sec == 1 else 0,
                "strip": ((sector << strip) // unit).bit_length() - 1,
                "unit": unit,
                "blocks": blocks,
                "size": size * sector // unit,
                "block_size": unit if unit != pd_unit else draw(st.sampled_from([pd_unit, 0xFFFF])),
                "disks": disks,
                "starts": starts,
                "model": g,
            }
        )
    if "concat" in wanted:
        span = out[0]["blocks"]
        tail = 0
    else:
        span, tail = max(used), draw(st.integers(0, 50))
    beyond = draw(wide(1 << 30, 1 << 44)) if far and tail == 50 else 0
    top = [(span + tail + beyond + draw(st.integers(0, 3)) * (0 if "concat" in wanted else 100)) for _ in range(n)]
    mppe = draw(st.integers(max(pec for pec, _ in shapes), 20))
    return {
        "sector": sector,
        "guid": draw(st.binary(min_size=24, max_size=24)),
        "seq": draw(wide(0, 0xFFFFFFFF)),
        "refs": refs,
        "sizes": top,
        "pd_unit": pd_unit,
        "pd_block": draw(st.sampled_from([sector, 0xFFFF])) if pd_unit == sector else pd_unit,
        "vds": out,
        "mppe": mppe,
        "spare_len": draw(st.integers(0, 2)),
        "pd_slots": draw(slots(n)),
        "vd_slots": draw(slots(len(out))),
        "others": [draw(st.lists(st.sampled_from(["spare", "vendor", "empty"]), max_size=3)) for _ in range(n)],
        "shuffle": [draw(st.integers(0, 0xFFFF)) for _ in range(n)],
        "sections": draw(st.permutations(["controller", "pdr", "vdr", "config", "pdd"])),
        "gap": draw(st.integers(0, 3)),
        "secondary": draw(st.sampled_from(["none", "before", "after"])),
        "margin": draw(st.integers(0, 40)),
    }


@st.composite
def slots(draw, count):
    """Positions of ``count`` records in a table; mostly without gaps."""
    if draw(st.booleans()):
        return list(range(count))
    return sorted(draw(st.permutations(range(count + draw(st.integers(0, 3)))))[:count])


def place(slots: list[int], entries: list) -> list:
    out = [None] * (max(slots) + 1)
    for slot, entry in zip(slots, entries):
        out[slot] = entry
    return out


def pd_guid(d: int) -> bytes:
    return f"disk{d}".encode().ljust(24, b"\x00")


def configs(g: dict, d: int) -> list[dict]:
    """The configuration records disk ``d`` carries: those of the elements it is part of.

    A volume may have a time, a sequence number and a rotation count of its own (C34), and state other levels (C17).
    """
    out = []
    for vd in g["vds"]:
        for seq in range(vd["sec"]):
            disks = vd["disks"][seq * vd["pec"] : (seq + 1) * vd["pec"]]
            if d not in disks:
                continue
            prl, rlq = vd.get("stated") or KINDS[vd["kind"]][:2]
            out.append(
                {
                    "guid": vd["guid"],
                    "timestamp": vd.get("timestamp", 0x30000000),
                    "rotate": vd.get("rotate", 0),
                    "seq": vd.get("seq", g["seq"]),
                    "refs": [g["refs"][x] for x in disks],
                    "starts": [x * g["sector"] // g["pd_unit"] for x in vd["starts"][seq * vd["pec"] : (seq + 1) * vd["pec"]]],
                    "strip": vd["strip"],
                    "prl": prl,
                    "rlq": rlq,
                    "sec_count": vd["sec"],
                    "sec_seq": seq if vd["sec"] > 1 else vd["single"],
                    "srl": vd["srl"],
                    "blocks": vd["blocks"],
                    "size": vd["size"],
                    "block_size": vd["block_size"],
                }
            )
    return out


def record_order(g: dict, d: int, count: int) -> list[int]:
    """In which order disk ``d`` has its configuration records."""
    return sorted(range(count), key=lambda i: (g["shuffle"][d] * (i + 7) * 2654435761) >> 7 & 0xFFFF)


def disk(g: dict, d: int, tag: int) -> Img:
    """Disk ``d`` of the group, with metadata only."""
    ss = g["sector"]

    def length(raw):
        return (len(raw) + ss - 1) // ss

    record_len = (512 + 12 * g["mppe"] + ss - 1) // ss + g["spare_len"]
    records = [ddf.vd_config(c, g["mppe"]) for c in configs(g, d)] + [ddf.other_record(k) for k in g["others"][d]]
    order = record_order(g, d, len(records))
    config = b"".join(records[i].ljust(record_len * ss, b"\xff") for i in order)
    extra = g.get("pd_fields") or [{}] * len(g["refs"])
    pds = [
        ddf.pd_entry({"guid": pd_guid(i), "ref": g["refs"][i], "type": 2, "state": 1, "size": g["sizes"][i] * g["sector"] // g["pd_unit"], "block_size": g["pd_block"], **extra[i]})
        for i in range(len(g["refs"]))
    ]
    vds = [
        ddf.vd_entry({"guid": v["guid"], "number": i, "crc": v["crc"], "type": v["flags"] | (4 if v["unicode"] else 0), "state": 0, "init": 2, "name": v["name"].encode()[:16], **v.get("fields", {})})
        for i, v in enumerate(g["vds"])
    ]
    raw = {
        "controller": ddf.controller(*g.get("controller", (b"controller".ljust(24, b"\x00"),))),
        "pdr": ddf.table(ddf.PDR, place(g["pd_slots"], pds), max(g["pd_slots"]) + 3),
        "vdr": ddf.table(ddf.VDR, place(g["vd_slots"], vds), max(g["vd_slots"]) + 2),
        "config": config,
        "pdd": ddf.pdd(extra[d].get("guid", pd_guid(d)), g["refs"][d]),
    }
    raw["pdr"] += b"\xff" * 64 * 2
    raw["vdr"] += b"\xff" * 64
    pos = 1 + g["gap"]
    where = {}
    for name in g["sections"]:
        n = max(length(raw[name]), 1)
        where[name] = (pos, n if name != "config" else record_len * len(records))
        pos += n + g["gap"]
    base = g["sizes"][d] + g["margin"]
    primary, secondary = base, ddf.NONE64
    if g["secondary"] == "before":
        secondary, primary = base, base + pos
    elif g["secondary"] == "after":
        secondary = base + pos
    h = {
        "guid": g["guid"],
        "seq": g["seq"],
        "primary": primary,
        "secondary": secondary,
        "workspace": base,
        "max_pd": max(g["pd_slots"]) + 3,
        "max_vd": max(g["vd_slots"]) + 2,
        "record_len": record_len,
        "mppe": g["mppe"],
        "sections": where,
    }
    total = base + 2 * pos + g["margin"] + 1
    img = Img(total * ss, tag=tag)
    img.put((total - 1) * ss, ddf.header(0, h).ljust(ss, b"\xff"))
    for kind, at in ((1, primary), (2, secondary)):
        if at == ddf.NONE64:
            continue
        img.put(at * ss, ddf.header(kind, h).ljust(ss, b"\xff"))
        for name, (offset, n) in where.items():
            if raw[name]:
                img.put((at + offset) * ss, raw[name].ljust(n * ss, b"\xff"))
    assert img.length == total * ss
    return img
