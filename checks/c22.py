from datetime import datetime, timedelta, timezone

from hypothesis import strategies as st

from vlib import lvm, lvmgen, lvmtext
from vlib.core import Check, Part, expect, fail, same, subject
from vlib.img import Img

from dissect.volume.exceptions import LVM2Error
from dissect.volume.lvm import LVM2

EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)
VG = ["id", "seqno", "status", "flags", "extent_size", "max_lv", "max_pv", "system_id", "allocation_policy", "profile", "metadata_copies", "tags", "format", "lock_type", "lock_args"]  # fmt: skip
PV = ["id", "status", "pe_start", "pe_count", "dev_size", "device", "device_id", "device_id_type", "ba_start", "ba_size", "tags"]  # fmt: skip
LV = ["id", "status", "flags", "segment_count", "creation_time", "creation_host", "lock_args", "allocation_policy", "profile", "read_ahead", "tags"]  # fmt: skip


def when(seconds):
    return None if seconds is None else EPOCH + timedelta(seconds=seconds)


def pairs(values):
    return [tuple(values[i : i + 2]) for i in range(0, len(values), 2)]


@st.composite
def cases(draw):
    return {
        "group": draw(lvmgen.groups()),
        "choices": draw(st.one_of(st.just([]), lvmtext.CHOICES)),
        "place": draw(lvmgen.placements(copies=st.sampled_from([1, 1, 2]))),
        # lines of nothing but a comment at the end of the text
        "lines": draw(st.sampled_from([0] * 20 + [700, 1500, 14000])),
    }


def check_group(vs, spec, what):
    """The volume group against the generated metadata."""
    name, tree = spec["name"], spec["tree"]
    for key in ("contents", "version", "description", "creation_host"):
        same(getattr(vs, key), tree.get(key), f"{what}: {key}")
    same(vs.creation_time, when(tree.get("creation_time")), f"{what}: creation time")
    vg, want = vs.vg, tree[name]
    same(vg.name, name, f"{what}: name of the group")
    for key in VG:
        same(getattr(vg, key), want.get(key), f"{what}: {key} of the group")
    same([pv.name for pv in vg.pv], list(want["physical_volumes"]), f"{what}: physical volumes")
    for pv in vg.pv:
        w = want["physical_volumes"][pv.name]
        for key in PV:
            same(getattr(pv, key), w.get(key), f"{what}: {key} of {pv.name}")
        right = w["dev_size"] * 512 if "dev_size" in w else (w["pe_start"] + w["pe_count"] * want["extent_size"]) * 512
        if pv.size != right and ("dev_size" not in w or pv.size != w["dev_size"] * want["extent_size"]):
            fail(f"{what}: size of {pv.name} is {pv.size}, expected {right}")
    lvs = want.get("logical_volumes", {})
    same([lv.name for lv in vg.lv], list(lvs), f"{what}: logical volumes")
    for lv in vg.lv:
        w = lvs[lv.name]
        for key in LV:
            value = when(w.get(key)) if key == "creation_time" else w.get(key)
            same(getattr(lv, key), value, f"{what}: {key} of {lv.name}")
        same(lv.is_visible, "VISIBLE" in w["status"], f"{what}: visibility of {lv.name}")
        segs = {k: v for k, v in w.items() if isinstance(v, dict)}
        same([s.name for s in lv.segments], list(segs), f"{what}: segments of {lv.name}")
        same(lv.type, next(iter(segs.values()))["type"].split("+")[0], f"{what}: type of {lv.name}")
        for seg in lv.segments:
            kind, *flags = segs[seg.name]["type"].split("+")
            for key, value in segs[seg.name].items():
                if key == "type":
                    value = kind
                elif key in ("stripes", "mirrors", "raids"):
                    value = pairs(value)
                same(getattr(seg, key), value, f"{what}: {key} of {seg.name} ({kind}) of {lv.name}")
            for key in lvmgen.optional(kind):
                if key not in segs[seg.name]:
                    same(getattr(seg, key), None, f"{what}: {key}, which is not there, of {seg.name} ({kind}) of {lv.name}")
            same(seg.flags, flags, f"{what}: flags of {seg.name} of {lv.name}")
    old = vg.historical_logical_volumes or {}
    same(list(old), list(want.get("historical_logical_volumes", {})), f"{what}: historical volumes")
    for key, got in old.items():
        w = want["historical_logical_volumes"][key]
        same(got.name, w.get("name", key), f"{what}: name of {key}")
        same((got.creation_time, got.removal_time), (when(w.get("creation_time")), when(w.get("removal_time"))), f"{what}: times of {key}")
        same((got.id, got.origin, got.descendants), (w["id"], w.get("origin"), w.get("descendants")), f"{what}: fields of {key}")


def check(ctx, spec):
    group, place = spec["group"], spec["place"]
    printer = lvmtext.Printer(spec["choices"])
    text = printer.text(group["tree"]) + ("#" * 99 + "\n") * spec["lines"]
    size = 1 << 26
    img = Img(size, tag=22)
    wrapped = lvmgen.write_device(img, place, lvm.new_id(0), size, 2048, text)
    what = f"label in sector {place['label']}, header at {place['header']}, {'wrapped' if wrapped else 'plain'} text"
    with subject(what):
        vs = LVM2(img)
        check_group(vs, group, what)
        same(vs.vg.pv[0].dev is None, False, f"{what}: the device of the first physical volume is missing")
        same([pv.dev for pv in vs.vg.pv[1:]], [None] * (len(vs.vg.pv) - 1), f"{what}: devices of the others")
    lvs = group["tree"][group["name"]].get("logical_volumes", {})
    for lv in lvs.values():
        ctx.label(*(v["type"].split("+")[0] for v in lv.values() if isinstance(v, dict)))
    ctx.label("wrapped" if wrapped else "plain", f"label in sector {place['label']}", "no volumes" if not lvs else "", "long text" if len(text) > 65536 else "", f"{place['copies']} areas")


@st.composite
def without(draw):
    return {"sectors": draw(st.integers(4, 3000)), "label": draw(st.sampled_from([None, 4, 5, 8])), "part": draw(st.sampled_from([b"LABELON", b"LABELTWO", b"labelone"])), "zero": draw(st.booleans())}


def check_none(ctx, spec):
    img = Img(spec["sectors"] * 512, tag=23, zero=spec["zero"])
    if spec["label"] is not None and spec["sectors"] > spec["label"]:
        lvm.write_label(img, spec["label"], 32, lvm.new_id(0), spec["sectors"] * 512, 1 << 20, [])
        ctx.label("label further down")
    else:
        img.put(512, spec["part"])
        ctx.label("no label")
    try:
        LVM2(img)
    except LVM2Error:
        return
    except Exception as e:
        fail(f"a device without label raises {type(e).__name__}: {e}")
    expect(False, "a device without label is accepted")


def probe_size():
    tree = {"vg": {"id": lvm.dashed(lvm.new_id(1)), "seqno": 1, "status": [], "flags": [], "extent_size": 8192, "max_lv": 0, "max_pv": 0,
                   "physical_volumes": {"pv0": {"id": lvm.dashed(lvm.new_id(0)), "status": [], "flags": [], "dev_size": 16384, "pe_start": 2048, "pe_count": 1}},
                   "logical_volumes": {}}, "contents": "Text Format Volume Group", "version": 1}  # fmt: skip
    place = {"label": 1, "header": 32, "copies": 1, "gap": 0, "spare": 1000, "at": 0, "wrap": False, "cut": 1, "extension": True}
    img = Img(16384 * 512, tag=22)
    lvmgen.write_device(img, place, lvm.new_id(0), 16384 * 512, 2048, lvmtext.Printer().text(tree))
    with subject("open the group"):
        size = LVM2(img).vg.pv[0].size
    if size == 16384 * 512:
        return None
    same(size, 16384 * 8192, "size of the physical volume")
    return "a physical volume with dev_size 16384 (sectors) and extent size 8192 has size 16384 * 8192"


CHECK = Check(
    "C22",
    "every device",
    [
        Part("group", cases(), check, quick=2000, thorough=25000),
        Part("no label", without(), check_none, quick=200, thorough=2000),
    ],
    known=[("LVM-PV-SIZE", probe_size)],
)

if __name__ == "__main__":
    CHECK.main()
