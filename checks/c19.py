from hypothesis import strategies as st

from vlib import dmgen, hist
from vlib.core import Check, Part, attempt, expect, subject
from vlib.gen import wide
from vlib.img import Img, pattern

from dissect.volume.dm.thin import ThinPool

MAGIC = (27022010).to_bytes(8, "little")


@st.composite
def cases(draw):
    pool = draw(dmgen.pools())
    devs = sorted(pool["devices"])
    bs = pool["data_sectors"] * 512
    streams = []
    for _ in range(draw(st.integers(1, 3))):
        dev = draw(st.sampled_from(devs))
        top = max(pool["devices"][dev] or {0: 0}) + 1
        size = draw(st.sampled_from(["none", "exact", "inside", "beyond"]))
        if size == "none":
            size = None
        elif size == "exact":
            size = top * bs
        elif size == "inside":
            size = max(1, top * bs - draw(st.integers(0, min(top * bs, 5 * bs) // 512)) * 512)
        else:
            size = top * bs + draw(st.integers(1, 3 * bs // 512)) * 512
        streams.append({"dev": dev, "size": size, "ops": draw(hist.extents(6, 200000))})
    where = draw(st.one_of(st.just(0), wide(0, 3 * 4096), wide(0, 1 << 40)))
    return {"pool": pool, "where": where, "streams": streams, "absent": draw(wide(0, (1 << 24) - 1)), "bit": draw(st.integers(0, 63))}


def check(ctx, spec):
    pool = spec["pool"]
    bs = pool["data_sectors"] * 512
    meta = dmgen.metadata(pool)
    data = Img(pool["data_blocks"] * bs, tag=190)
    meta.seek(spec["where"])
    data.seek(spec["where"])
    with subject(f"open the pool, handles at {spec['where']}"):
        thin = ThinPool(meta, data)
    read = 0
    bit = spec["bit"]
    meta.put(32 + bit // 8, bytes([meta.peek_at(32 + bit // 8, 1)[0] ^ 1 << bit % 8]))
    result, error = attempt(ThinPool, meta, data)
    expect(error is not None, f"a pool is opened whose superblock has another magic number (bit {bit} changed)")
    meta.put(32, MAGIC)
    with subject("open the pool once more"):
        thin = ThinPool(meta, data)
    ctx.label("handles moved" if spec["where"] else "")
    for s in spec["streams"]:
        dev, size = s["dev"], s["size"]
        model = dmgen.device(pool, dev, size, lambda o, n: pattern(190, o, n))
        end = size if size is not None else (max(pool["devices"][dev] or {0: 0}) + 4) * bs
        ranges = hist.resolve(s["ops"], dmgen.marks(pool, dev, end), end, bs)
        what = f"thin device {dev} of size {size}, blocks of {bs} bytes"
        with subject(f"{what}: open"):
            fh = thin.open(dev, size) if size is not None else thin.open(dev)
        read += hist.verify(fh, model, ranges, what, sizes=size is not None)
        if size is not None and size <= 4 * bs:
            hist.verify_whole(fh, model, what)
        mapping = pool["devices"][dev] or {}
        for o, n in ranges:
            first, last = o // bs, max(o, min(o + n, end) - 1) // bs
            kinds = [b in mapping for b in range(first, min(last, first + 300) + 1)]
            turns = [a for a, b in zip(kinds, kinds[1:]) if a != b]
            if False in turns:
                ctx.label("from a hole into data")
            if True in turns:
                ctx.label("from data into a hole")
        ctx.label("with size" if size is not None else "without size", "no mapping" if not mapping else "mapped")
    if spec["absent"] not in pool["devices"]:
        result, error = attempt(thin.open, spec["absent"])
        expect(error is not None, f"device {spec['absent']} is opened, though the pool has only {sorted(pool['devices'])}")
        ctx.label("unknown device")
    ctx.label(f"block size {bs >> 10} KiB", f"{len(pool['devices'])} devices")
    if not read:
        ctx.mark_trivial()


CHECK = Check(
    "C19",
    "at least one byte is read",
    [Part("thin", cases(), check, quick=2000, thorough=25000)],
)

if __name__ == "__main__":
    CHECK.main()
