from hypothesis import strategies as st

from vlib import ddfgen
from vlib.core import Check, Part, attempt, expect, same, subject
from vlib.gen import HANDS, different, hand, wide
from vlib.img import Img, pattern

from dissect.volume.ddf.ddf import DDF, DDFPhysicalDisk


@st.composite
def older(draw, g):
    """What a disk says of an earlier state of the group."""
    return {
        "seq": draw(wide(0, g["seq"] - 1)),
        "names": [draw(ddfgen.NAME) for _ in g["vds"]],
        "sizes": [draw(st.integers(1, vd["size"])) for vd in g["vds"]],
        "starts": draw(st.integers(0, 50)),
    }


def outdated(g, old):
    """The group as it was, as far as the current state of it can be told from disks at hand."""
    current = [d for d in g["present"] if d not in g["old"]]
    vds = []
    for i, vd in enumerate(g["vds"]):
        vd = {**vd, "name": old["names"][i], "unicode": vd["unicode"] or not old["names"][i].isascii(), "starts": list(vd["starts"])}
        if any(d in vd["disks"] for d in current):
            vd["size"] = old["sizes"][i]
        for seq in range(vd["sec"]):
            element = range(seq * vd["pec"], (seq + 1) * vd["pec"])
            if any(vd["disks"][x] in current for x in element):
                for x in element:
                    vd["starts"][x] += old["starts"]
        vds.append(vd)
    return {**g, "seq": old["seq"], "vds": vds}


@st.composite
def cases(draw):
    sector = None
    groups = []
    at = draw(st.integers(0, 23))
    for i in range(draw(st.sampled_from([1, 1, 1, 2, 3]))):
        g = draw(ddfgen.groups(vds=4 if i == 0 else 2))
        g["guid"] = different(g["guid"] if i == 0 else groups[0]["guid"], at, i)
        if sector is not None and g["sector"] != sector:
            continue
        sector = g["sector"]
        n = len(g["refs"])
        g["present"] = sorted(draw(st.sets(st.integers(0, n - 1), min_size=1))) if draw(st.booleans()) else list(range(n))
        g["old"] = {}
        if g["seq"] and len(g["present"]) > 1 and draw(st.booleans()):
            # disks that missed the last changes; not all of them did
            behind = draw(st.sets(st.sampled_from(g["present"]), min_size=1, max_size=len(g["present"]) - 1))
            g["old"] = {d: draw(older(g)) for d in sorted(behind)}
        groups.append(g)
    total = sum(len(g["present"]) for g in groups)
    return {"groups": groups, "hands": draw(HANDS), "order": draw(st.permutations(range(total)))}


def expected(g):
    """-> {guid: attributes and members} of the volumes that are configured on the disks at hand"""
    out = {}
    for vd in g["vds"]:
        here = {}
        for idx, (d, start) in enumerate(zip(vd["disks"], vd["starts"])):
            if d in g["present"]:
                here[idx] = (start * g["sector"], d)
        if not here:
            continue
        _, _, level, layout = ddfgen.KINDS[vd["kind"]]
        out[vd["guid"].hex()] = (
            {
                "name": vd["name"].encode()[:16].decode(),
                "size": vd["size"] * vd["unit"],
                "level": level,
                "layout": layout,
                "stripe_size": vd["unit"] << vd["strip"],
                "num_disks": vd["pec"] * vd["sec"],
            },
            here,
        )
    return out


def check(ctx, spec):
    imgs, owners = [], []
    for i, g in enumerate(spec["groups"]):
        for d in g["present"]:
            imgs.append(ddfgen.disk(outdated(g, g["old"][d]) if d in g["old"] else g, d, 3000 + 100 * i + d))
            owners.append((i, d))
    with subject("read the DDF metadata"):
        ss = spec["groups"][0]["sector"]
        confs = DDF(hand([imgs[i] for i in spec["order"]], spec["hands"], lambda img: DDFPhysicalDisk(img, ss)), ss).configurations
        same(len(confs), len(spec["groups"]), "groups")
    order = []
    for i in spec["order"]:
        if owners[i][0] not in order:
            order.append(owners[i][0])
    for gi, conf in zip(order, confs):
        g = spec["groups"][gi]
        want = expected(g)
        vds = {vd.uuid: vd for vd in conf.virtual_disks}
        same(len(conf.virtual_disks), len(want), "number of volumes")
        same(sorted(vds), sorted(want), "identifiers of the volumes")
        same(sorted(pd.reference for pd in conf.physical_disks), sorted(g["refs"][d] for d in g["present"]), "disks of the group")
        for uuid, (attrs, members) in want.items():
            vd = vds[uuid]
            [kind] = [v["kind"] for v in g["vds"] if v["guid"].hex() == uuid]
            for key, value in attrs.items():
                if key == "layout" and value is None:
                    # nothing to choose from
                    continue
                same(getattr(vd, key), value, f"{kind}: {key}")
            same(sorted(vd.disk_map), sorted(members), f"{kind}: positions of the members")
            for idx, (start, d) in members.items():
                offset, pd = vd.disk_map[idx]
                same(offset, start, f"{kind}: start on member {idx}")
                same(pd.size, g["sizes"][d] * g["sector"], f"{kind}: size of member {idx}")
                with subject(f"{kind}: open member {idx}"):
                    fh = pd.open()
                    fh.seek(offset)
                    got = fh.read(64)
                expect(got == pattern(3000 + 100 * gi + d, start, 64), f"{kind}: member {idx} is not the disk the configuration states")
            ctx.label(kind, "start block" if any(s for s, _ in members.values()) else "", "some members missing" if len(members) < attrs["num_disks"] else "")
        ctx.label("outdated disks" if g["old"] else "", "own block size" if any(v["unit"] != g["sector"] for v in g["vds"]) else "", "odd sequence" if any(v["single"] for v in g["vds"]) else "")
        ctx.label(f"{len(want)} volumes", "other records" if any(any(x) for x in g["others"]) else "")
        ctx.label("gaps in the tables" if g["pd_slots"][-1] >= len(g["refs"]) or g["vd_slots"][-1] >= len(g["vds"]) else "")
        ctx.label(f"sector size {g['sector']}", f"secondary header {g['secondary']}")
    ctx.label(f"{len(spec['groups'])} groups")
    if not any(expected(g) for g in spec["groups"]):
        ctx.mark_trivial()


@st.composite
def plain(draw):
    return {"group": draw(ddfgen.groups(vds=1)), "how": draw(st.sampled_from(["empty", "signature", "not in the table", "other sector size"]))}


def check_none(ctx, spec):
    g, how = spec["group"], spec["how"]
    img = ddfgen.disk(g, 0, 3000)
    ss = g["sector"]
    sector = ss
    if how == "empty":
        img = Img(img.length, tag=5)
    elif how == "signature":
        img.put(img.length - ss, b"\xde\x11\xde\x12")
    elif how == "other sector size":
        sector = 1024
    else:
        # the disk's own data section names a disk that is not in the table
        head = img.peek_at(img.length - ss, 512)
        primary = int.from_bytes(head[96:104], "big")
        section = int.from_bytes(head[224:228], "big")
        img.put((primary + section) * ss + 32, b"\x00\x00\x00\x00")
    result, error = attempt(DDF, img, sector)
    expect(error is not None, f"a disk whose metadata is invalid ({how}) is accepted")
    ctx.label(how)


SUPPORTED = {k: v[:2] for k, v in ddfgen.KINDS.items()}


@st.composite
def unsupported(draw):
    """A volume with a combination of levels that has no meaning or that is not supported."""
    g = draw(ddfgen.groups(kinds=[k for k in ddfgen.KINDS if k != "concat"], vds=1))
    vd = g["vds"][0]
    known = [v for k, v in SUPPORTED.items()]
    how = draw(st.sampled_from(["qualifier", "level", "secondary level"]))
    if how == "secondary level" and vd["sec"] == 1:
        how = "qualifier"
    if how == "secondary level":
        if draw(st.booleans()):
            vd["srl"] = draw(st.sampled_from([1, 2, 4, 0x80, 0xFF]))
        else:
            vd["stated"] = draw(st.sampled_from([v for v in known if v[0] not in (1,)]))
    elif how == "qualifier":
        prl = SUPPORTED[vd["kind"]][0]
        rlq = draw(st.sampled_from(range(256)).filter(lambda x: (prl, x) not in known) | st.integers(0, 4).filter(lambda x: (prl, x) not in known))
        vd["stated"] = (prl, rlq)
        if prl == 1 and draw(st.booleans()):
            # the number of copies does not fit
            vd["stated"] = (1, 1 - SUPPORTED[vd["kind"]][1])
    else:
        prl = draw(st.sampled_from([2, 3, 7, 8, 0x0F, 0x10, 0x12, 0x15, 0x25, 0x35, 0x1E, 0x80, 0xFF]))
        vd["stated"] = (prl, draw(st.integers(0, 3)))
    return {"group": g, "how": how}


def check_unsupported(ctx, spec):
    g = spec["group"]
    vd = g["vds"][0]
    imgs = [ddfgen.disk(g, d, 3000 + d) for d in range(len(g["refs"]))]

    def read():
        [conf] = DDF(imgs, g["sector"]).configurations
        [found] = conf.virtual_disks
        return found.open().read(512)

    result, error = attempt(read)
    stated = vd.get("stated") or SUPPORTED[vd["kind"]]
    expect(
        error is not None,
        f"a volume of {vd['pec']} x {vd['sec']} disks with primary level {stated[0]:#x}, qualifier {stated[1]}, secondary level {vd['srl']:#x} is read, although there is no such format",
    )
    ctx.label(spec["how"], vd["kind"])


CHECK = Check(
    "C17",
    "at least one virtual disk has a member at hand",
    [
        Part("decode", cases(), check, quick=1600, thorough=20000),
        Part("invalid", plain(), check_none, quick=300, thorough=3000),
        Part("unsupported", unsupported(), check_unsupported, quick=600, thorough=6000),
    ],
    assumptions=["a virtual disk that no current disk is part of has not changed", "a disk carries the configuration records of its own virtual disks"],
)

if __name__ == "__main__":
    CHECK.main()
