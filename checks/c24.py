from hypothesis import strategies as st

from vlib import dmgen, hist, lvmgen, lvmtext
from vlib.core import Check, Part, same, subject
from vlib.gen import HANDS, hand
from vlib.img import pattern

from dissect.volume.lvm import LVM2
from dissect.volume.lvm.physical import LVM2Device


def assemble(spec, g, extra, missing=()):
    """The devices, and a function that opens the group."""
    text = lvmtext.Printer(g["choices"]).text(lvmgen.group_tree(g, extra))
    imgs = lvmgen.build(g, [text] * len(g["used"]))

    def opened():
        with subject("open the group"):
            return LVM2(hand([imgs[i] for i in spec["order"] if i not in missing], spec["hands"], LVM2Device))

    return imgs, opened


# --- mirrors


@st.composite
def mirrors(draw):
    extent = draw(lvmgen.EXTENT)
    npv = draw(st.integers(1, 5))
    total = draw(st.one_of(st.integers(1, 6), st.integers(1, 60)))
    used, images = [0] * npv, []
    apart = draw(st.booleans())
    for i in range(draw(st.sampled_from([1, 2, 2, 2, 3]))):
        shift = draw(st.sampled_from([0, 0, 0, 1, 5]))
        size = shift + total + draw(st.sampled_from([0, 0, 2]))
        images.append({"shift": shift, "segs": draw(lvmgen.layout(used, extent, size, pvs=[i % npv] if apart else None))})
    cuts, left = [], total
    while left:
        cuts.append(left if len(cuts) > 3 else draw(st.one_of(st.just(left), st.integers(1, left))))
        left -= cuts[-1]
    volumes = {f"lv_mimage_{i}": m["segs"] for i, m in enumerate(images)}
    # at least one image stays whole
    keep = draw(st.integers(0, len(images) - 1))
    spare = [pv for pv in range(npv) if pv not in lvmgen.needs(images[keep]["segs"])]
    missing = draw(st.lists(st.sampled_from(spare), unique=True)) if spare else []
    return {
        "group": draw(lvmgen.shell(extent, used, volumes)),
        "shifts": [m["shift"] for m in images],
        "cuts": cuts,
        "missing": sorted(missing),
        # others cannot be opened for other reasons
        "broken": [draw(st.sampled_from([None, None, None, None, "error", "strange", "unlisted"])) if k != keep else None for k in range(len(images))],
        "log": draw(st.booleans()),
        "order": draw(st.permutations(range(npv))),
        "hands": draw(HANDS),
        "ops": draw(hist.extents(6)),
        "twice": draw(st.booleans()),
    }


def check_mirror(ctx, spec):
    g, shifts = spec["group"], spec["shifts"]
    size = g["extent"] * 512
    sections, start = {}, 0
    for i, count in enumerate(spec["cuts"]):
        section = {"start_extent": start, "extent_count": count, "type": "mirror", "mirror_count": len(shifts)}
        if spec["log"]:
            section |= {"mirror_log": "lv_mlog", "region_size": 1024}
        section["mirrors"] = [x for k, shift in enumerate(shifts) for x in (f"lv_mimage_{k}", shift + start)]
        sections[f"segment{i + 1}"] = section
        start += count
    model = hist.Model(start * size, lambda o, n: pattern(24, o, n))
    marks, edge = [0], 0
    for count in spec["cuts"]:
        edge += count * size
        marks += [edge, edge - count * size // 2]
    ranges = hist.resolve(spec["ops"], marks, model.size, size)

    total = {k: sum(s["count"] for s in g["volumes"][f"lv_mimage_{k}"]) for k in range(len(shifts))}
    extra = {"lv": sections}
    for k, how in enumerate(spec["broken"]):
        if how in ("error", "strange"):
            extra[f"lv_mimage_{k}"] = {"segment1": {"start_extent": 0, "extent_count": total[k], "type": how}}
    whole = {name: segs for name, segs in g["volumes"].items() if not spec["broken"][int(name[-1])]}
    imgs, opened = assemble(spec, {**g, "volumes": whole}, extra, spec["missing"])
    for off, n in hist.clip(ranges, model.size):
        for k, shift in enumerate(shifts):
            lvmgen.put(g, imgs, g["volumes"][f"lv_mimage_{k}"], shift * size + off, model.read(off, n))
    vs = opened()
    gone = [k for k in range(len(shifts)) if spec["broken"][k] or lvmgen.needs(g["volumes"][f"lv_mimage_{k}"]) & set(spec["missing"])]
    what = f"mirror of {len(shifts)} images in {len(spec['cuts'])} segments, extents of {size} bytes, images {gone} missing"
    read = 0
    for _ in range(1 + spec["twice"]):
        with subject(f"{what}: open"):
            fh = vs.vg.logical_volumes["lv"].open()
            got = fh.size
        same(got, model.size, f"{what}: size")
        read += hist.verify(fh, model, ranges, what)
    ctx.label(f"{len(shifts)} images", "several segments" if len(spec["cuts"]) > 1 else "one segment", "images at an offset" if any(shifts) else "")
    ctx.label(*(f"image {how}" for how in spec["broken"] if how))
    ctx.label("first image missing" if 0 in gone else "other image missing" if gone else "all images")
    if not read:
        ctx.mark_trivial()


# --- extents that are being moved to other devices


@st.composite
def moves(draw):
    extent = draw(lvmgen.EXTENT)
    npv = draw(st.integers(1, 5))
    used, moved, segs = [0] * npv, 0, []
    for _ in range(draw(st.integers(1, 4))):
        k = draw(st.sampled_from([1, 1, 1, 2, 3]))
        per = draw(st.one_of(st.integers(1, 3), st.integers(1, 40)))
        areas = []
        for _ in range(k):
            legs = []
            for pv in draw(st.lists(st.integers(0, npv - 1), min_size=1, max_size=2)):
                used[pv] += draw(lvmgen.GAP)
                legs.append((pv, used[pv]))
                used[pv] += per
            area = {"legs": legs, "at": None}
            if len(legs) > 1 or draw(st.booleans()):
                # the volume that is being moved, with some that belongs to other volumes in between
                gap = min(per, draw(st.sampled_from([0, 0, 3])))
                area |= {"at": moved + gap, "gap": gap}
                moved += gap + per
            areas.append(area)
        divisors = [d for d in (1, 2, 4, 8, 16, 32, 64, 128, 256, 1024) if extent % d == 0]
        segs.append({"count": k * per, "areas": areas, "stripe_size": draw(st.sampled_from(divisors)) if k > 1 else None})
    spare = [pv for pv in range(npv) if all(any(leg != pv for leg, _ in a["legs"]) for s in segs for a in s["areas"])]
    return {
        "group": draw(lvmgen.shell(extent, used, {})),
        "segs": segs,
        "name": draw(st.sampled_from(["pvmove0", "pvmove1"])),
        "first": draw(st.booleans()),
        "missing": [draw(st.sampled_from(spare))] if spare and draw(st.booleans()) else [],
        "order": draw(st.permutations(range(npv))),
        "hands": draw(HANDS),
        "ops": draw(hist.extents(6)),
    }


def check_moves(ctx, spec):
    g, name = spec["group"], spec["name"]
    size = g["extent"] * 512
    sections, moving, start = {}, {}, 0
    for i, s in enumerate(spec["segs"]):
        section = {"start_extent": start, "extent_count": s["count"], "type": "striped", "stripe_count": len(s["areas"])}
        if s["stripe_size"]:
            section["stripe_size"] = s["stripe_size"]
        per = s["count"] // len(s["areas"])
        stripes = []
        for a in s["areas"]:
            if a["at"] is None:
                stripes += [f"pv{a['legs'][0][0]}", a["legs"][0][1]]
                continue
            stripes += [name, a["at"]]
            areas = [x for pv, ext in a["legs"] for x in (f"pv{pv}", ext)]
            if len(a["legs"]) > 1:
                kind = {"type": "mirror", "mirror_count": 2, "extents_moved": per // 2, "mirrors": areas}
            else:
                kind = {"type": "striped", "stripe_count": 1, "stripes": areas}
            if a["gap"]:
                moving[f"segment{len(moving) + 1}"] = {"start_extent": a["at"] - a["gap"], "extent_count": a["gap"], **kind}
            moving[f"segment{len(moving) + 1}"] = {"start_extent": a["at"], "extent_count": per, **kind}
        section["stripes"] = stripes
        sections[f"segment{i + 1}"] = section
        start += s["count"]
    extra = {"root": sections, name: moving} if spec["first"] else {name: moving, "root": sections}
    imgs, opened = assemble(spec, g, {k: v for k, v in extra.items() if v}, spec["missing"])
    model = hist.Model(start * size, lambda o, n: pattern(24, o, n))
    # both places have the same
    places = [[{"count": s["count"], "stripes": [a["legs"][leg] for a in s["areas"]], "stripe_size": s["stripe_size"]} for s in spec["segs"]] for leg in (0, -1)]
    ranges = hist.resolve(spec["ops"], lvmgen.volume_marks(g, places[0]), model.size, size)
    for off, n in hist.clip(ranges, model.size):
        for segs in places:
            lvmgen.put(g, imgs, segs, off, model.read(off, n))
    vs = opened()
    what = f"volume of {[(len(s['areas']), s['count'], [a['at'] for a in s['areas']]) for s in spec['segs']]} (stripes, extents, where on {name}), devices {spec['missing']} missing"
    with subject(f"{what}: open"):
        fh = vs.vg.logical_volumes["root"].open()
        got = fh.size
    same(got, model.size, f"{what}: size")
    read = hist.verify(fh, model, ranges, what)
    ctx.label("device missing" if spec["missing"] else "", "on two devices" if any(len(a["legs"]) > 1 for s in spec["segs"] for a in s["areas"]) else "")
    if not read or not moving:
        ctx.mark_trivial()


# --- thin volumes


@st.composite
def thins(draw):
    extent = draw(st.one_of(st.sampled_from([8, 128, 8192]), st.integers(1, 64)))
    pool = draw(dmgen.pools(data_blocks=st.integers(1, 60)))
    npv = draw(st.integers(1, 4))
    used = [0] * npv
    meta = dmgen.metadata(pool).length
    extents = [-(-n // (extent * 512)) for n in (meta, pool["data_blocks"] * pool["data_sectors"] * 512)]
    extents = [n + draw(st.sampled_from([0, 0, 1, 4])) for n in extents]
    volumes = {f"pool_t{what}": draw(lvmgen.layout(used, extent, n, least=4)) for what, n in zip(("meta", "data"), extents)}
    views = []
    devs = sorted(pool["devices"])
    for _ in range(draw(st.integers(1, 3))):
        dev = draw(st.sampled_from(devs))
        top = max(pool["devices"][dev] or {0: 0}) + draw(st.integers(-2, 3))
        count = max(1, max(1, top) * pool["data_sectors"] // extent + draw(st.integers(-3, 3)))
        origin = None
        if draw(st.integers(0, 2)) == 2:
            # a volume outside of the pool, which need not be as long
            origin = f"base{len(volumes)}"
            volumes[origin] = draw(lvmgen.layout(used, extent, max(1, count + draw(st.sampled_from([0, 0, -1, 1, -5, 7, -count // 2]))), least=4))
        views.append({"dev": dev, "count": count, "ops": draw(hist.extents(5, 200000)), "origin": origin})
    return {
        "group": draw(lvmgen.shell(extent, used, volumes)),
        "pool": pool,
        "views": views,
        "order": draw(st.permutations(range(npv))),
        "hands": draw(HANDS),
        "before": draw(st.booleans()),
    }


def thin_group(spec):
    """The devices with the pool's metadata written, and a function that opens the group."""
    g, pool = spec["group"], spec["pool"]
    count = sum(s["count"] for s in g["volumes"]["pool_tdata"])
    pool_section = {"start_extent": 0, "extent_count": count, "type": "thin-pool", "metadata": "pool_tmeta", "pool": "pool_tdata",
                    "transaction_id": 3, "chunk_size": pool["data_sectors"], "discards": "passdown", "zero_new_blocks": 1}  # fmt: skip
    thin = {}
    for i, v in enumerate(spec["views"]):
        section = {"start_extent": 0, "extent_count": v["count"], "type": "thin", "thin_pool": "pool", "transaction_id": i, "device_id": v["dev"]}
        if v["origin"]:
            section["external_origin"] = v["origin"]
        thin[f"thin{i}"] = {"segment1": section}
    # a pool may be listed after its volumes
    both = {"pool": {"segment1": pool_section}}
    extra = {**thin, **both} if spec["before"] else {**both, **thin}
    imgs, opened = assemble(spec, g, extra)
    for off, data in dmgen.metadata(pool).pieces:
        lvmgen.put(g, imgs, g["volumes"]["pool_tmeta"], off, data)
    return imgs, opened


def check_thin(ctx, spec):
    g, pool = spec["group"], spec["pool"]
    size, bs = g["extent"] * 512, pool["data_sectors"] * 512
    _, opened = thin_group(spec)
    vs = opened()
    data = lvmgen.volume(g, g["volumes"]["pool_tdata"])
    read, streams = 0, []
    for i, v in enumerate(spec["views"]):
        what = f"thin volume {i} on device {v['dev']} with {v['count']} extents of {size} bytes, blocks of {bs} bytes"
        with subject(f"{what}: open"):
            fh = vs.vg.logical_volumes[f"thin{i}"].open()
            got = fh.size
        origin = lvmgen.volume(g, g["volumes"][v["origin"]]) if v["origin"] else None
        model = dmgen.device(pool, v["dev"], v["count"] * size, data.read, origin)
        same(got, model.size, f"{what}: size")
        marks = dmgen.marks(pool, v["dev"], model.size)
        if origin:
            what += f", on a volume of {origin.size} bytes"
            marks.append(min(origin.size, model.size))
            ctx.label("shorter origin" if origin.size < model.size else "origin")
        ranges = hist.resolve(v["ops"], marks, model.size, bs)
        streams.append((fh, model, ranges, what))
    for fh, model, ranges, what in streams:
        read += hist.verify(fh, model, ranges, what)
        if model.size < 100000:
            hist.verify_whole(fh, model, what)
    mapped = any(pool["devices"][v["dev"]] for v in spec["views"])
    ctx.label("mapped" if mapped else "nothing mapped", f"{len(spec['views'])} volumes", f"block size {bs >> 10} KiB")
    ctx.label("pool on several segments" if len(g["volumes"]["pool_tdata"]) > 1 else "pool on one segment")
    if not read:
        ctx.mark_trivial()


CHECK = Check(
    "C24",
    "at least one byte is read",
    [
        Part("mirror", mirrors(), check_mirror, quick=1200, thorough=15000),
        Part("moves", moves(), check_moves, quick=500, thorough=6000),
        Part("thin", thins(), check_thin, quick=600, thorough=8000),
    ],
)

if __name__ == "__main__":
    CHECK.main()
