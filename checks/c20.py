import struct

from hypothesis import strategies as st

from vlib import dm
from vlib.core import Check, Part, fail, short, subject
from vlib.gen import wide
from vlib.img import Img

from dissect.volume.dm.btree import BTree

KEY = st.one_of(
    st.integers(0, 40),
    wide(0, dm.MAX),
    st.sampled_from([0, 1, 255, 256, 2**31, 2**32 - 1, 2**32, 2**63 - 1, 2**63, dm.MAX - 1, dm.MAX]),
)


@st.composite
def key_sets(draw, most=60):
    how = draw(st.sampled_from(["any", "any", "run", "strided"]))
    if how == "any":
        return sorted(draw(st.sets(KEY, max_size=most)))
    start, count = draw(KEY), draw(st.integers(0, most * 3))
    step = 1 if how == "run" else draw(st.integers(2, 1000))
    return [start + i * step for i in range(count) if start + i * step <= dm.MAX]


@st.composite
def trees(draw):
    levels = draw(st.sampled_from([1, 1, 2, 3]))
    return {
        "sectors": draw(st.sampled_from([1, 2, 8, 8, 128])),
        "value_size": draw(st.sampled_from([8, 8, 24, 1, 4, 40])),
        "steps": draw(st.lists(st.one_of(st.integers(1, 5), st.integers(1, 5), wide(1, 1 << 36)), min_size=1, max_size=3)),
        "widths": draw(st.lists(st.one_of(st.integers(1, 4), st.integers(1, 100)), min_size=1, max_size=4)),
        "slack": draw(st.integers(0, 7)),
        "extra": draw(st.sampled_from([0, 0, 0, 1, 2])),
        "low": draw(st.sampled_from([0, 0, 1, 3, 1 << 40])),
        # several levels of trees: the keys of each; the first ones of a level have a tree below them
        "upper": [draw(st.lists(KEY, min_size=1, max_size=6, unique=True)) for _ in range(levels - 1)],
        "below": [draw(st.integers(0, 5)) for _ in range(levels - 1)],
        "keys": draw(key_sets()),
        "absent": draw(st.lists(KEY, max_size=6)),
    }


def value(key, size, salt):
    return ((key * 0x9E3779B97F4A7C15 + salt * 77) & (1 << 320) - 1).to_bytes(40, "little")[:size]


def check(ctx, spec):
    img = Img(1 << 16, tag=20)
    blocks = dm.Blocks(img, spec["sectors"], spec["steps"])
    shape = (spec["widths"], spec["slack"], spec["extra"], spec["low"])
    store = {}

    def grow(level, prefix):
        if level == len(spec["upper"]):
            salt = sum(prefix) & 0xFF
            items = [(k, value(k, spec["value_size"], salt)) for k in spec["keys"]]
            store.update({(*prefix, k): v for k, v in items})
            return blocks.tree(items, spec["value_size"], *shape)
        keys = sorted(spec["upper"][level])
        real = spec["below"][level] % len(keys)
        items = []
        for i, k in enumerate(keys):
            root = grow(level + 1, (*prefix, k)) if i == real else blocks.tree([], spec["value_size"], *shape)
            items.append((k, struct.pack("<Q", root)))
        return blocks.tree(items, 8, *shape)

    root = grow(0, ())
    tree = BTree(img, root, spec["sectors"])

    depth = len(spec["upper"]) + 1
    ask = list(store)[:: max(1, len(store) // 40)]
    near = [(*k[:-1], x) for k in ask[:20] for x in (k[-1] - 1, k[-1] + 1) if 0 <= x <= dm.MAX]
    prefixes = {k[:-1] for k in ask} or {tuple(sorted(u)[b % len(u)] for u, b in zip(spec["upper"], spec["below"]))}
    for prefix in prefixes:
        near += [(*prefix, x) for x in [*spec["absent"], 0, dm.MAX]]
    for i in range(depth - 1):
        for prefix in list(prefixes)[:1]:
            for x in spec["absent"]:
                path = list(prefix) + [spec["keys"][0] if spec["keys"] else 0]
                path[i] = x
                near.append(tuple(path))
    present = absent = 0
    for path in ask + near:
        want = store.get(path)
        with subject(f"look up {path}"):
            got = tree.lookup(list(path) if depth > 1 or path[-1] % 2 else path[-1])
            got = None if got is None else bytes(got)
        if got != want:
            fail(f"look up {path} in a tree of {len(spec['keys'])} keys: got {short(got)}, expected {short(want)}")
        if want is None:
            absent += 1
        else:
            present += 1
    ctx.label(f"{depth} levels of trees", f"{min(blocks.nodes, 9)}{'+' if blocks.nodes > 8 else ''} nodes", f"value size {spec['value_size']}")
    ctx.label("empty" if not spec["keys"] else "", "extreme keys" if {0, dm.MAX} & set(spec["keys"]) else "")
    if not (present and absent):
        ctx.mark_trivial()


CHECK = Check(
    "C20",
    "keys that are present and keys that are not are looked up",
    [Part("lookup", trees(), check, quick=8000, thorough=100000)],
)

if __name__ == "__main__":
    CHECK.main()
