from hypothesis import strategies as st

from vlib import hist, vss
from vlib.core import Check, Part, same, subject

from dissect.volume.vss import VSS


@st.composite
def cases(draw):
    v = draw(vss.volumes())
    return {"volume": v, "ops": [draw(hist.extents(6, 100000)) for _ in v["stores"]]}


def model(v, img, saves, i):
    size = vss.store_size(v, i)

    def read(off, n):
        first, last = off // vss.BLOCK, -(-(off + n) // vss.BLOCK)
        data = b"".join(vss.block_content(v, img, saves, i, b) for b in range(first, last))
        return data[off - first * vss.BLOCK :][:n]

    return hist.Model(size, read)


def marks(v, saves, i):
    blocks = {b for k in range(i, len(saves)) for b in saves[k]} | set(v["spots"])
    size = vss.store_size(v, i)
    out = {0, size, vss.BLOCK}
    for b in blocks:
        out |= {b * vss.BLOCK, (b + 1) * vss.BLOCK}
    return sorted(x for x in out if x <= size)


def claimed(v, saves, i, off, n):
    """Whether all blocks of this range have a content that is claimed."""
    return all(vss.source(v, saves, i, b) is not None for b in range(off // vss.BLOCK, -(-(off + n) // vss.BLOCK)))


def check(ctx, spec):
    v = spec["volume"]
    img, saves = vss.build(v)
    with subject("open"):
        stores = VSS(img).catalog.stores
    same(len(stores), len(v["stores"]), "number of stores")
    read = 0
    for i, ops in enumerate(spec["ops"]):
        m = model(v, img, saves, i)
        ranges = [r for r in hist.resolve(ops, marks(v, saves, i), m.size, vss.BLOCK) if claimed(v, saves, i, *r)]
        what = f"store {i} of {len(saves)}, saved {[(d['block'], d['kind']) for d in v['stores'][i]['saved']]}, volume of {v['blocks']} blocks"
        with subject(f"{what}: open"):
            fh = stores[i].open()
            size = fh.size
        same(size, m.size, f"{what}: size")
        read += hist.verify(fh, m, ranges, what)
        touched = {b for o, n in hist.clip(ranges, m.size) for b in range(o // vss.BLOCK, -(-(o + n) // vss.BLOCK))}
        for b in touched:
            copy, sectors = saves[i].get(b, (None, {}))
            later = [saves[k].get(b) for k in range(i + 1, len(saves))]
            if isinstance(copy, tuple):
                ctx.label("forwarded with overlay" if sectors else "forwarded")
                if i + 1 < len(saves) and saves[i + 1].get(copy[1], (None,))[0] is not None:
                    ctx.label("forwarded to a block the next store saved")
                continue
            ctx.label("copy with overlay" if copy is not None and sectors else "copy" if copy is not None else "overlay" if sectors else "")
            if copy is None:
                found = any(x and x[0] is not None and not isinstance(x[0], tuple) for x in later)
                ctx.label("from a newer store" if found else "unused block" if b in vss.unused(v) else "from the volume")
                if found and any(x and x[1] for x in later):
                    ctx.label("a newer store has an overlay of the block")
    ctx.label(f"{len(saves)} stores", "chained bitmap" if v["blocks"] > vss.ROOM * 8 else "", "chained list" if any(s["filler"] > 500 for s in v["stores"]) else "")
    ctx.label("no previous bitmap" if v["stores"][-1]["previous_bits"] is None else "previous bitmap")
    if not read or not any(saves):
        ctx.mark_trivial()


CHECK = Check(
    "C29",
    "something was saved and at least one byte is read",
    [Part("stores", cases(), check, quick=1500, thorough=20000)],
)

if __name__ == "__main__":
    CHECK.main()
