import struct
import uuid

from hypothesis import strategies as st

from vlib import vss
from vlib.core import Check, Part, Violation, attempt, expect, same, subject
from vlib.gen import different, wide
from vlib.img import Img

from dissect.volume.vss import VSS


@st.composite
def catalogs(draw):
    n = draw(st.sampled_from([0, 1, 2, 3, 4, 8]))
    more = draw(st.integers(1, 60)) if n == 8 and draw(st.booleans()) else 0
    times = draw(vss.TIMES)
    stores = []
    ids = draw(vss.IDS)
    for i in range(n):
        stores.append({**draw(vss.headers(i, ids)), "time": times[i], "volume_size": draw(st.one_of(st.integers(1, 1 << 30).map(lambda k: k * 512), wide(0, (1 << 64) - 1)))})
    for i in range(more):
        # like one of the first, but for its identifier and its time
        like = stores[i % 8]
        time = (like["time"] // 1000 + 1) * 1000 + i if i % 2 else i * 1000003 + 1
        if all(s["time"] != time for s in stores):
            stores.append({**like, "id": different(like["id"], ids[1], len(stores)), "time": time, "volume_size": 512 * (i + 1)})
    n = len(stores)
    # entries: two per store in any order, with unused ones in between
    entries = draw(st.permutations([(i, kind) for i in range(n) for kind in (2, 3)]))
    fill = draw(st.sampled_from([0, 0, 1, 5, max(0, vss.ENTRIES - 2 * n), vss.ENTRIES, 2 * vss.ENTRIES, 300]))
    return {
        "stores": stores,
        "entries": entries,
        "fill": sorted(draw(st.lists(st.integers(0, len(entries)), min_size=min(fill, 9), max_size=min(fill, 9)))),
        "times": max(1, fill // 9),
        "exact": draw(st.sampled_from([None, None, "front", "end"])),
        # what is left over behind the end: entries of all kinds
        "left": draw(st.lists(st.sampled_from([0, 1, 2, 3, 77]), max_size=6)) if draw(st.integers(0, 3)) == 3 else [],
        "ids": [draw(st.binary(min_size=16, max_size=16)) for _ in range(2)],
        "steps": draw(st.lists(st.integers(1, 5), max_size=3)),
        "first": draw(st.integers(1, 50)),
        "backwards": draw(st.booleans()),
        # the catalog is in front of the stores, right behind the header
        "low": draw(st.integers(0, 3)) == 3,
        "header": draw(st.integers(0, 3)),
    }


def first_block(spec):
    """Of the stores."""
    return spec["first"] + 40 if spec["low"] else spec["first"]


def build(spec, ident=vss.IDENT, catalog=None):
    img = Img(1 << 26, tag=30)
    space = vss.Space(img, first_block(spec), spec["steps"])
    raw = {}
    for i, s in enumerate(spec["stores"]):
        where = space.chain(4, vss.information(s), len(vss.information(s)))
        raw[i, 2] = vss.entry_2(s)
        raw[i, 3] = vss.entry_3(s, 0, where, 0, 0, 0)
    body = []
    unused = b"\x01".ljust(8, b"\x00") + b"\x77" * 120
    for at, key in enumerate([*spec["entries"], None]):
        body += [unused] * (spec["fill"].count(at) * spec["times"])
        if key:
            body.append(raw[key])
    missing = -len(body) % vss.ENTRIES
    if spec["exact"] == "front":
        body = [unused] * missing + body
    elif spec["exact"] == "end":
        body += [unused] * missing
    if spec["left"] and len(body) % vss.ENTRIES:
        body += [bytes(128), *(kind.to_bytes(8, "little") + bytes([i + 1]) * 120 for i, kind in enumerate(spec["left"]))]
    if spec["low"]:
        space = vss.Space(img, 1, [1])
    start = space.chain(2, b"".join(body), backwards=spec["backwards"])
    vss.write_header(img, start if catalog is None else catalog, *spec["ids"], ident)
    return img, start, len(body)


def check(ctx, spec):
    img, _, length = build(spec)
    what = f"catalog of {length} entries"
    with subject(f"{what}: open"):
        v = VSS(img)
        got = [
            (s.creation_time, s.volume_size, bytes(s.desc2.store_identifier), s.copy_identifier, s.copy_set_identifier,
             int(s.information.attributes), str(s.information.operating_machine), str(s.information.service_machine), s.open().size)
            for s in v.catalog.stores
        ]  # fmt: skip
        ids = (v.volume_identifier, v.store_volume_identifier)
    want = [
        (s["time"], s["volume_size"], s["id"], uuid.UUID(bytes_le=s["copy"]), uuid.UUID(bytes_le=s["copy_set"]), s["attributes"], s["machine"], s["service"], s["volume_size"])
        for s in sorted(spec["stores"], key=lambda s: s["time"])
    ]
    same(len(got), len(want), f"{what}: number of stores")
    for i, (g, w) in enumerate(zip(got, want)):
        same(g, w, f"{what}: store {i}")
    same(ids, tuple(uuid.UUID(bytes_le=i) for i in spec["ids"]), f"{what}: identifiers of the volume")
    swapped = [i for i in range(len(want)) if spec["entries"].index((i, 3)) < spec["entries"].index((i, 2))]
    ctx.label(f"{len(want)} stores", "chained" if length > vss.ENTRIES else "one block", "unused entries" if spec["fill"] else "")
    ctx.label("details before the description" if swapped else "", "only full blocks" if length and length % vss.ENTRIES == 0 else "")
    if not want:
        ctx.mark_trivial()


# ------------------------------------------------------------------------------------ the lists of a store
NUMBER = st.one_of(wide(0, 1 << 40), wide(0, (1 << 64) - 1))


@st.composite
def listings(draw):
    n = draw(st.sampled_from([0, 1, 3, 9]))
    return {
        "store": {**draw(vss.headers(0, draw(vss.IDS))), "time": 5, "volume_size": 1 << 30},
        "ranges": [draw(st.tuples(NUMBER, NUMBER, NUMBER)) for _ in range(n)],
        # 677 ranges fit into one block
        "times": draw(st.sampled_from([1, 1, 75, 80, 200])),
        "gap": draw(st.booleans()),
        "bits": draw(st.binary(min_size=1, max_size=40)),
        "kinds": draw(st.sampled_from([None, None, "block list", "ranges", "bitmap", "previous bitmap"])),
        "wrong": draw(st.sampled_from([1, 2, 3, 4, 5, 6, 7, 0, 0x103])),
        "steps": draw(st.lists(st.integers(1, 5), max_size=3)),
        "backwards": draw(st.booleans()),
    }


def check_listing(ctx, spec):
    ranges = spec["ranges"] * spec["times"]
    while ranges and not any(ranges[-1]):  # an empty one ends the list
        ranges.pop()
    ranges = [r for r in ranges if any(r)]
    body = b"".join(struct.pack("<QQQ", *r) for r in ranges)
    if spec["gap"]:
        body += bytes(24) + b"\x55" * 24  # left over behind the end
    kinds = {"block list": 3, "ranges": 5, "bitmap": 6, "previous bitmap": 6}
    bad = spec["kinds"]
    if bad and kinds[bad] != spec["wrong"]:
        kinds[bad] = spec["wrong"]
    else:
        bad = None
    img = Img(1 << 24, tag=30)
    space = vss.Space(img, 1, spec["steps"])
    s = spec["store"]
    info = vss.information(s)
    header = space.chain(4, info, len(info))
    places = {
        "block list": space.chain(kinds["block list"], b""),
        "ranges": space.chain(kinds["ranges"], body, backwards=spec["backwards"]),
        "bitmap": space.chain(kinds["bitmap"], spec["bits"]),
        "previous bitmap": space.chain(kinds["previous bitmap"], spec["bits"][::-1]),
    }
    third = vss.entry_3(s, places["block list"], header, places["ranges"], places["bitmap"], places["previous bitmap"])
    catalog = space.chain(2, vss.entry_2(s) + third)
    vss.write_header(img, catalog)
    with subject("open"):
        store = VSS(img).catalog.stores[0]
    attributes = {"block list": "block_list", "ranges": "range_list", "bitmap": "bitmap", "previous bitmap": "previous_bitmap"}
    for name, attribute in attributes.items():
        result, error = attempt(getattr, store, attribute)
        if name == bad:
            expect(error is not None, f"the {name} of a store is a record of kind {spec['wrong']} and accepted")
            ctx.label(f"{name} refused")
            continue
        if error is not None:
            raise Violation(f"the {name} of a store with {len(ranges)} ranges: {type(error).__name__}: {error}")
        with subject(name):
            if name == "ranges":
                got = [(e.store_offset, e.relative_offset, e.size) for e in result.entries]
                same(got, ranges, "ranges")
            elif "bitmap" in name:
                raw = spec["bits"] if name == "bitmap" else spec["bits"][::-1]
                want = [bool(raw[b // 8] >> b % 8 & 1) for b in range(len(raw) * 8)]
                same([result.is_set(b) for b in range(len(want))], want, f"bits of the {name}")
    ctx.label("chained" if len(body) > vss.ROOM else "one block", "left over" if spec["gap"] else "")
    if not ranges:
        ctx.mark_trivial()


@st.composite
def refused(draw):
    spec = draw(catalogs())
    spec["how"] = draw(st.sampled_from(["identifier", "no catalog", "catalog", "chained block", "entry", "store"]))
    spec["byte"] = draw(st.integers(0, 15))
    spec["bit"] = draw(st.integers(0, 7))
    spec["kind"] = draw(st.one_of(st.integers(4, 300), wide(4, (1 << 64) - 1)))
    return spec


def check_refused(ctx, spec):
    how = spec["how"]
    bad = bytearray(vss.IDENT)
    bad[spec["byte"]] ^= 1 << spec["bit"]
    bad = bytes(bad)
    img, start, length = build(spec)
    if how == "identifier":
        img, *_ = build(spec, ident=bad)
    elif how == "no catalog":
        img, *_ = build(spec, catalog=0)
    elif how == "catalog":
        img.put(start, bad)
    elif how == "chained block":
        following = int.from_bytes(img.peek_at(start + 40, 8), "little")
        if not following:
            ctx.mark_trivial()
            return
        img.put(following, bad)
    elif how == "entry":
        if length == 0:
            ctx.mark_trivial()
            return
        img.put(start + 128, spec["kind"].to_bytes(8, "little"))
    else:
        if not spec["stores"]:
            ctx.mark_trivial()
            return
        space = vss.Space(img, first_block(spec), spec["steps"])
        img.put(space.take(), bad)
    result, error = attempt(VSS, img)
    expect(error is not None, f"opened although it is damaged ({how})")
    ctx.label(how)


CHECK = Check(
    "C30",
    "the catalog has at least one store; the refused volumes are damaged",
    [
        Part("catalog", catalogs(), check, quick=1500, thorough=20000),
        Part("lists", listings(), check_listing, quick=500, thorough=6000),
        Part("refused", refused(), check_refused, quick=800, thorough=8000),
    ],
)

if __name__ == "__main__":
    CHECK.main()
