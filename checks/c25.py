from hypothesis import strategies as st

from vlib import hist, lvmgen, lvmtext
from vlib.core import Check, Part, attempt, expect, same, subject
from vlib.gen import wide

from dissect.volume.exceptions import LVM2Error
from dissect.volume.lvm import LVM2
from dissect.volume.lvm.physical import LVM2Device

IGNORED = 1


@st.composite
def cases(draw):
    g = draw(lvmgen.stores(lvs=4, pvs=5, most=3))
    npv = len(g["used"])
    # one device has the newest metadata and is there, for all others anything goes
    best = draw(st.integers(0, npv - 1))
    state = [draw(st.sampled_from(["current", "current", "old", "none", "ignored old", "ignored current", "empty", "second"])) for _ in range(npv)]
    state[best] = draw(st.sampled_from(["current", "current", "second"]))
    for i, s in enumerate(state):
        if s == "none":
            g["places"][i]["copies"] = 0
        elif s == "second" or draw(st.integers(0, 3)) == 0:
            # in the state "second", only the second copy is in use
            g["places"][i]["copies"] = 2
    missing = draw(st.lists(st.sampled_from(range(npv)), unique=True)) if draw(st.booleans()) else []
    seqno = draw(st.one_of(st.integers(2, 120), wide(2, 1 << 31)))
    return {
        "group": g,
        "state": state,
        "missing": sorted(set(missing) - {best}),
        "seqno": seqno,
        "olds": [draw(st.one_of(st.just(seqno - 1), st.integers(1, seqno - 1))) for _ in range(npv)],
        "order": draw(st.permutations(range(npv))),
        "again": draw(st.permutations(range(npv))),
        "as_device": draw(st.booleans()),
        "turn": draw(st.integers(0, 3)),
        "first": draw(st.booleans()),
        "ops": [draw(hist.extents(4)) for _ in g["volumes"]],
    }


def old_tree(g, turn, seqno):
    """An older state of the group: volumes were elsewhere, missing or had other names."""
    names = list(g["volumes"])
    turned = names[turn % len(names) :] + names[: turn % len(names)]
    volumes = {n: g["volumes"][o] for n, o in zip(names, turned)}
    if turn == 3 or len(names) == 1:
        volumes = {"gone": g["volumes"][names[0]]}
    return lvmgen.group_tree({**g, "volumes": volumes}, seqno=seqno)


def check(ctx, spec):
    g, missing = spec["group"], set(spec["missing"])
    printer = lvmtext.Printer(g["choices"])
    current = printer.text(lvmgen.group_tree(g, seqno=spec["seqno"]))
    texts, flags = [], []
    for state, old in zip(spec["state"], spec["olds"]):
        text = None
        if "old" in state:
            text = printer.text(old_tree(g, spec["turn"], old))
        elif "current" in state:
            text = current
        elif state == "second":
            text = [(printer.text(old_tree(g, spec["turn"], old)) if spec["first"] else None, IGNORED), (current, 0)]
        texts.append(text)
        flags.append(IGNORED if "ignored" in state else 0)
    imgs = lvmgen.build(g, texts, flags)

    for order in (spec["order"], spec["again"]):
        order = [i for i in order if i not in missing]
        what = f"metadata {[spec['state'][i] for i in order]}, {len(missing)} of {len(g['used'])} devices missing"
        with subject(f"{what}: open the group"):
            fhs = [LVM2Device(imgs[i]) if spec["as_device"] else imgs[i] for i in order]
            vs = LVM2(fhs)
            seqno, names = vs.vg.seqno, sorted(vs.vg.logical_volumes or {})
            pvs = [(pv.name, pv.dev is not None) for pv in vs.vg.pv]
        same(seqno, spec["seqno"], f"{what}: sequence number")
        same(names, sorted(g["volumes"]), f"{what}: volumes")
        same(pvs, [(f"pv{i}", i not in missing) for i in range(len(g["used"]))], f"{what}: physical volumes and whether they are there")
        for (name, segs), ops in zip(g["volumes"].items(), spec["ops"]):
            if lvmgen.needs(segs) & missing:
                result, error = attempt(vs.vg.logical_volumes[name].open)
                expect(isinstance(error, LVM2Error), f"{what}: opening a volume on missing devices gives {error!r}, expected an LVM2Error")
                ctx.label("volume on missing devices")
                continue
            model = lvmgen.volume(g, segs)
            ranges = hist.resolve(ops, lvmgen.volume_marks(g, segs), model.size)
            with subject(f"{what}: open {name}"):
                fh = vs.vg.logical_volumes[name].open()
            hist.verify(fh, model, ranges, f"{what}: volume {name}")
            ctx.label("volume read next to missing devices" if missing else "volume read")
    given = [i for i in spec["order"] if i not in missing]
    ctx.label(f"first device {spec['state'][given[0]]}", "old metadata present" if "old" in [spec["state"][i] for i in given] else "")
    if len(g["used"]) == 1:
        ctx.mark_trivial()


@st.composite
def without(draw):
    g = draw(lvmgen.stores(lvs=1, pvs=3, most=2))
    npv = len(g["used"])
    state = [draw(st.sampled_from(["none", "ignored", "empty"])) for _ in range(npv)]
    for i, s in enumerate(state):
        g["places"][i]["copies"] = 0 if s == "none" else draw(st.integers(1, 2))
    how = draw(st.sampled_from(["metadata", "label gone", "label moved"]))
    if how != "metadata":
        # one device is not a physical volume, the others have all they need
        state = ["current"] * npv
        for p in g["places"]:
            p["copies"] = 1
    return {"group": g, "state": state, "how": how, "device": draw(st.integers(0, npv - 1)), "to": draw(st.integers(4, 7))}


def check_without(ctx, spec):
    g, how = spec["group"], spec["how"]
    text = lvmtext.Printer(g["choices"]).text(lvmgen.group_tree(g))
    imgs = lvmgen.build(g, [text if s in ("ignored", "current") else None for s in spec["state"]], [IGNORED if s == "ignored" else 0 for s in spec["state"]])
    img = imgs[spec["device"]]
    if how != "metadata":
        at = g["places"][spec["device"]]["label"] * 512
        label = img.peek_at(at, 512)
        img.put(at, bytes(512))
        if how == "label moved":
            # only the first four sectors are searched
            img.put(spec["to"] * 512, label)
    result, error = attempt(LVM2, imgs)
    what = f"devices with metadata {spec['state']}" if how == "metadata" else f"a device without a label in its first sectors ({how})"
    expect(isinstance(error, LVM2Error), f"{what}: opening the group gives {error!r}, expected an LVM2Error")
    ctx.label(how)


CHECK = Check(
    "C25",
    "the group has more than one device",
    [
        Part("assemble", cases(), check, quick=1500, thorough=20000),
        Part("nothing to assemble", without(), check_without, quick=400, thorough=4000),
    ],
)

if __name__ == "__main__":
    CHECK.main()
