import datetime

from hypothesis import strategies as st

from vlib import ddfgen
from vlib.core import Check, Part, attempt, expect, same, subject
from vlib.gen import wide

from dissect.volume.ddf.ddf import DDF
from dissect.volume.exceptions import DDFError

EPOCH = datetime.datetime(1980, 1, 1, tzinfo=datetime.timezone.utc)
U8, U16, U32 = st.integers(0, 0xFF), st.integers(0, 0xFFFF), wide(0, 0xFFFFFFFF)
GUID = st.binary(min_size=23, max_size=23)
# all ones mark an unused record, so the nearest are those with one other byte
NEARLY = st.one_of(st.just(b""), st.just(b""), st.integers(0, 23).map(lambda n: b"\xff" * n))


@st.composite
def groups(draw):
    g = draw(ddfgen.groups(vds=3))
    n = len(g["refs"])
    g["controller"] = (draw(st.binary(min_size=24, max_size=24)), draw(st.binary(min_size=8, max_size=8)))
    g["pd_fields"] = [
        {
            "guid": (draw(NEARLY) + bytes([i]) + draw(GUID))[:24],
            "type": draw(U16),
            "state": draw(st.one_of(st.sampled_from([0, 1, 2, 3, 0x40, 0x80]), U16)),
            "path": draw(st.binary(min_size=18, max_size=18)),
        }
        for i in range(n)
    ]
    for vd in g["vds"]:
        vd["fields"] = {"number": draw(U16), "state": draw(U8), "init": draw(U8)}
        vd["timestamp"] = draw(U32)
        vd["rotate"] = draw(U8)
        vd["seq"] = draw(U32)
        vd["guid"] = vd["guid"][:16] + draw(st.binary(min_size=8, max_size=8))
        vd["guid"] = (draw(NEARLY)[:16] + vd["guid"])[:24]
    return {"group": g, "disk": draw(st.integers(0, n - 1))}


def moment(seconds):
    return EPOCH + datetime.timedelta(seconds=seconds)


def check(ctx, spec):
    g, d = spec["group"], spec["disk"]
    img = ddfgen.disk(g, d, 3400)
    what = f"disk {d} of {len(g['refs'])}"
    with subject(f"{what}: read the DDF metadata"):
        [conf] = DDF([img], g["sector"]).configurations
        [pd] = conf.physical_disks
    own = g["pd_fields"][d]
    size = g["sector"] if g["pd_block"] == 0xFFFF else g["pd_block"]
    with subject(what):
        got = (pd.guid, pd.reference, pd.type, pd.state, pd.path_information, pd.block_size, pd.size)
        same(got, (own["guid"], g["refs"][d], own["type"], own["state"], own["path"], size, g["sizes"][d] * g["sector"]), f"{what}: own record")
        same((pd.controller_data.guid, pd.controller_data.type), g["controller"], f"{what}: controller")
        got = [(r.guid, r.reference, r.type, r.state, r.path_information, r.block_size, r.size) for r in pd.physical_disk_records]
    want = [(p["guid"], g["refs"][i], p["type"], p["state"], p["path"], g["pd_block"], g["sizes"][i] * g["sector"] // g["pd_unit"]) for i, p in enumerate(g["pd_fields"])]
    same(got, want, f"{what}: records of the disks")
    with subject(what):
        got = [(r.guid, r.number, r.type & 0xFFFF, r.state, r.init_state, r.name) for r in pd.virtual_disk_records]
    want = [
        (v["guid"], v["fields"]["number"], v["flags"] | (4 if v["unicode"] else 0), v["fields"]["state"], v["fields"]["init"], v["name"].encode()[:16].decode())
        for v in g["vds"]
    ]
    same(got, want, f"{what}: records of the volumes")
    with subject(what):
        got = [
            (r.guid, r.guid_timestamp, r.timestamp, r.sequence_number, r.primary_element_count, r.strip_size, r.primary_raid_level, r.raid_level_qualifier,
             r.secondary_element_count, r.secondary_element_seq, r.secondary_raid_level, r.size, r.block_size, r.rotate_parity_count,
             list(r.physical_disk_sequence), list(r.starting_block))
            for r in pd.virtual_disk_configuration_records
        ]  # fmt: skip
    records = ddfgen.configs(g, d)
    want = [
        (c["guid"], moment(int.from_bytes(c["guid"][16:20], "big")), moment(c["timestamp"]), c["seq"], len(c["refs"]), c["strip"], c["prl"], c["rlq"],
         c["sec_count"], c["sec_seq"], c["srl"], c["size"], c["block_size"], c["rotate"], c["refs"], c["starts"])
        for c in (records[i] for i in ddfgen.record_order(g, d, len(records) + len(g["others"][d])) if i < len(records))
    ]  # fmt: skip
    same(len(got), len(want), f"{what}: number of configuration records")
    for i, (a, b) in enumerate(zip(got, want)):
        same(a, b, f"{what}: configuration record {i}")
    same(len(conf.virtual_disks), len({c["guid"] for c in records}), f"{what}: number of volumes")
    for vd in conf.virtual_disks:
        with subject(what):
            same(vd.virtual_disk_record.guid.hex(), vd.uuid, f"{what}: record of the volume")
            same(vd.virtual_disk_configuration_record.guid.hex(), vd.uuid, f"{what}: configuration record of the volume")
    ctx.label(f"{len(want)} records", f"sector size {g['sector']}", "block size not stated" if g["pd_block"] == 0xFFFF else "")
    ctx.label("records of other kinds" if g["others"][d] else "")
    if not want:
        ctx.mark_trivial()


SECTIONS = {"controller": 0, "pdr": 1, "vdr": 2, "pdd": 4}


@st.composite
def damaged(draw):
    return {
        **draw(groups()),
        "where": draw(st.sampled_from(["anchor", *SECTIONS])),
        "byte": draw(st.integers(0, 3)),
        "xor": draw(st.integers(1, 255)),
    }


def check_damaged(ctx, spec):
    g, d = spec["group"], spec["disk"]
    img = ddfgen.disk(g, d, 3400)
    ss = g["sector"]
    at = img.length - ss
    if spec["where"] != "anchor":
        head = img.peek_at(at, 512)
        primary = int.from_bytes(head[96:104], "big")
        field = 192 + 8 * SECTIONS[spec["where"]]
        at = (primary + int.from_bytes(head[field : field + 4], "big")) * ss
    at += spec["byte"]
    img.put(at, bytes([img.peek_at(at, 1)[0] ^ spec["xor"]]))
    _, error = attempt(DDF, [img], ss)
    expect(error is not None, f"accepted with a wrong signature of the {spec['where']}")
    expect(isinstance(error, DDFError), f"wrong signature of the {spec['where']}: {type(error).__name__} instead of DDFError: {error}")
    ctx.label(spec["where"])


CHECK = Check(
    "C34",
    "the disk carries at least one configuration record",
    [
        Part("records", groups(), check, quick=800, thorough=10000),
        Part("signatures", damaged(), check_damaged, quick=300, thorough=3000),
    ],
    assumptions=["a name has no terminator in front of its end", "times count seconds from 1980 on"],
)

if __name__ == "__main__":
    CHECK.main()
