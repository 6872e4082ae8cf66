"""Volume shadow copies: volume header, catalog, stores (written from the libvshadow format documentation)."""

from __future__ import annotations

import struct

from hypothesis import strategies as st

from vlib.gen import different, wide
from vlib.img import Img

IDENT = bytes.fromhex("6b87083876c1484eb7ae04046e6cc752")
BLOCK = 0x4000
ROOM = BLOCK - 128
ENTRIES = ROOM // 128
FORWARD, OVERLAY, UNUSED = 1, 2, 4


class Space:
    """Hands out blocks of the volume for metadata and saved data."""

    def __init__(self, img: Img, first: int, steps: list[int]):
        self.img, self.next, self.steps, self.count = img, first, steps or [1], 0

    def take(self) -> int:
        block = self.next
        self.next += self.steps[self.count % len(self.steps)]
        self.count += 1
        return block * BLOCK

    def chain(self, kind: int, body: bytes, size: int = 0, backwards: bool = False) -> int:
        """A list of blocks with this body; -> offset of the first."""
        parts = [body[i : i + ROOM] for i in range(0, len(body), ROOM)] or [b""]
        places = [self.take() for _ in parts]
        if backwards:
            places.reverse()
        for i, part in enumerate(parts):
            following = places[i + 1] if i + 1 < len(places) else 0
            head = IDENT + struct.pack("<IIQQQQ", 1, kind, i * BLOCK, places[i], following, size if i == 0 else 0)
            self.img.put(places[i], (head.ljust(128, b"\x00") + part).ljust(BLOCK, b"\x00"))
        return places[0]


def write_header(img: Img, catalog: int, volume: bytes = b"\x11" * 16, store: bytes = b"\x22" * 16, ident: bytes = IDENT) -> None:
    raw = ident + struct.pack("<IIQQQQQ", 1, 1, 0x1E00, 0, 0, catalog, 0) + volume + store
    img.put(0x1E00, raw.ljust(512, b"\x00"))


def entry_2(s: dict) -> bytes:
    raw = struct.pack("<QQ", 2, s["volume_size"]) + s["id"] + struct.pack("<QQQ", s.get("sequence", 1), 0x40, s["time"])
    return raw.ljust(128, b"\x00")


def entry_3(s: dict, block_list: int, header: int, ranges: int, bitmap: int, previous: int) -> bytes:
    raw = struct.pack("<QQ", 3, block_list) + s["id"] + struct.pack("<QQQQQQ", header, ranges, bitmap, 0x1234, 0x100000, previous)
    return raw.ljust(128, b"\x00")


def information(s: dict) -> bytes:
    raw = b"\x33" * 16 + s["copy"] + s["copy_set"] + struct.pack("<IIII", 0xD, 1, s["attributes"], 0)
    for name in (s["machine"], s["service"]):
        units = name.encode("utf-16-le")
        raw += struct.pack("<H", len(units)) + units
    return raw


def descriptor(original: int, relative: int, store: int, flags: int, bitmap: int = 0) -> bytes:
    return struct.pack("<QQQII", original, relative, store, flags, bitmap)


@st.composite
def headers(draw, n: int, ids: tuple = (bytes(16), 0)):
    """What the catalog says about a store; the time has to be set."""
    name = st.one_of(st.just(""), st.just("WIN-ABC"), st.text("aZ0-é漢", max_size=12))
    return {
        "id": different(*ids, n),
        "copy": draw(st.binary(min_size=16, max_size=16)),
        "copy_set": draw(st.binary(min_size=16, max_size=16)),
        "attributes": draw(st.one_of(st.sampled_from([0x42000D, 0x2002D, 9, 0]), wide(0, 0xFFFFFFFF))),
        "machine": draw(name),
        "service": draw(name),
    }


IDS = st.tuples(st.binary(min_size=16, max_size=16), st.integers(0, 15))
TIMES = st.lists(st.one_of(wide(0, 1 << 64 - 1), wide(132000000000000000, 133000000000000000)), min_size=8, max_size=8, unique=True)


# --- stores with content


@st.composite
def volumes(draw, most=4):
    """A volume with shadow copies: which blocks each of them saved, and how."""
    blocks = draw(st.one_of(st.integers(8, 40), st.integers(8, 3000), st.sampled_from([ROOM * 8 - 1, ROOM * 8, ROOM * 8 + 1, ROOM * 16 + 77, 600000])))
    n = draw(st.integers(1, most))
    times = sorted(draw(TIMES)[:n])
    spots = draw(st.lists(wide(0, blocks - 1), min_size=1, max_size=9, unique=True))
    anywhere = st.one_of(st.sampled_from(spots), st.sampled_from(spots), st.sampled_from([0, blocks - 1]), st.integers(0, blocks - 1))
    stores = []
    ids = draw(IDS)
    for i in range(n):
        saved, done, targets = [], set(), set()
        for _ in range(draw(st.integers(0, 10))):
            block = draw(anywhere)
            kind = draw(st.sampled_from(["copy", "copy", "overlay", "overlay", "both", "again", "unused", "forward", "forward both"]))
            if block in done and kind != "unused":
                continue
            bits = draw(st.lists(st.one_of(st.sampled_from([1, 1 << 31, 0xFFFFFFFF, 0]), wide(0, 0xFFFFFFFF)), min_size=1, max_size=3))
            target = draw(anywhere)
            if kind.startswith("forward"):
                # every block is the target of one descriptor at most (copies say 0 to 3)
                if target in targets or target < 4:
                    kind = "unused"
                else:
                    targets.add(target)
            if kind != "unused":
                done.add(block)
            saved.append({"block": block, "kind": kind, "bits": bits, "turn": draw(st.integers(0, 3)), "target": target})
        stores.append(
            {
                **draw(headers(i, ids)),
                "time": times[i],
                "saved": saved,
                "filler": draw(st.sampled_from([0, 0, 0, 1, 506, 508, 1100])),
                "unused_bits": draw(st.lists(st.sampled_from(spots), max_size=4)),
                "previous_bits": draw(st.one_of(st.none(), st.lists(st.sampled_from(spots), max_size=4))),
                "shrink": draw(st.sampled_from([0, 0, 0, 1, 2])),
            }
        )
    return {
        "blocks": blocks,
        "odd": draw(st.sampled_from([0, 0, 512, BLOCK - 512, 8192])),
        "stores": stores,
        "spots": spots,
        "steps": draw(st.lists(st.integers(1, 4), max_size=3)),
        "order": draw(st.permutations(range(2 * n))),
        "backwards": draw(st.booleans()),
    }


def volume_size(v: dict) -> int:
    return v["blocks"] * BLOCK - v["odd"]


def bitmap(v: dict, clear: list[int]) -> bytes:
    raw = bytearray(b"\xff" * -(-v["blocks"] // 8))
    for block in clear:
        raw[block // 8] &= ~(1 << block % 8)
    return bytes(raw)


def build(v: dict, tag: int = 29):
    """-> (volume, for every store {block: (saved copy, {sector: saved sector})}), oldest store first.

    Instead of the position of the saved copy there is None or, for a forwarded block, ("to", block).

    The metadata is behind the last block of the volume proper, so that no generated block is metadata.
    """
    end = (v["blocks"] + 3) * BLOCK
    img = Img(end, tag=tag)
    space = Space(img, v["blocks"] + 3, v["steps"])
    raw, saves = {}, []
    for i, s in enumerate(v["stores"]):
        entries, save = [], {}
        for d in s["saved"]:
            block, turn = d["block"], d["turn"]
            if d["kind"] == "unused":
                entries.append(descriptor(block * BLOCK, turn * BLOCK, space.take(), UNUSED | turn & OVERLAY, 0xFFFFFFFF))
                continue
            copy, parts, sectors = None, [], {}
            if d["kind"] in ("copy", "both", "again"):
                where = space.take()
                copy = where
                parts.append(descriptor(block * BLOCK, turn * BLOCK, where, 0, 0))
            if d["kind"].startswith("forward"):
                target = d["target"]
                # a block forwarded to itself is not saved at all
                copy = ("to", target) if target != block else None
                parts.append(descriptor(block * BLOCK, target * BLOCK, space.take() if turn else 0, FORWARD, 0))
            if d["kind"] in ("overlay", "both", "again", "forward both"):
                where = space.take()
                for bits in d["bits"]:
                    parts.append(descriptor(block * BLOCK, turn * BLOCK, where, OVERLAY, bits))
                    sectors.update({k: where + k * 512 for k in range(32) if bits >> k & 1})
            if d["kind"] == "again":
                # a later copy takes the place of an earlier one, whenever the sectors were saved
                copy = space.take()
                if turn == 2:
                    parts[:2] = parts[1::-1]
                parts.insert(len(parts) if turn else 1, descriptor(block * BLOCK, turn * BLOCK, copy, 0, 0))
            else:
                parts = parts[turn % len(parts) :] + parts[: turn % len(parts)]
            entries += parts
            save[block] = (copy, sectors)
        filler = descriptor(0, 0, 0, UNUSED, 0)
        entries = [filler] * s["filler"] + entries
        saves.append(save)
        block_list = space.chain(3, b"".join(entries), backwards=v["backwards"])
        ranges = space.chain(5, b"")
        bits = space.chain(6, bitmap(v, s["unused_bits"]))
        previous = 0 if s["previous_bits"] is None else space.chain(6, bitmap(v, s["previous_bits"]))
        info = information(s)
        header = space.chain(4, info, len(info))
        s = {**s, "volume_size": store_size(v, i)}
        raw[2 * i] = entry_2(s)
        raw[2 * i + 1] = entry_3(s, block_list, header, ranges, bits, previous)
    catalog = space.chain(2, b"".join(raw[k] for k in v["order"]))
    write_header(img, catalog)
    return img, saves


def store_size(v: dict, i: int) -> int:
    """The volume may have grown since the older shadow copies."""
    return max(512, volume_size(v) - v["stores"][i]["shrink"] * 512 * (len(v["stores"]) - 1 - i))


def unused(v: dict) -> set[int]:
    """The blocks that the newest store's bitmaps both leave clear, but for those that others are forwarded to."""
    s = v["stores"][-1]
    out = set(s["unused_bits"]) - {d["target"] for d in s["saved"] if d["kind"].startswith("forward") and d["target"] != d["block"]}
    return out if s["previous_bits"] is None else out & set(s["previous_bits"])


def source(v: dict, saves: list, i: int, block: int):
    """Where block ``block`` of store ``i`` comes from: an offset, "zeros" or None if nothing is claimed."""
    for k in range(i, len(saves)):
        copy, _ = saves[k].get(block, (None, {}))
        if isinstance(copy, tuple):
            block = copy[1]
            if k == len(saves) - 1:
                return block * BLOCK
        elif copy is not None:
            return copy
    if block in unused(v):
        return "zeros" if i == len(saves) - 1 else None
    return block * BLOCK


def block_content(v: dict, img: Img, saves: list, i: int, block: int) -> bytes | None:
    """What block ``block`` of store ``i`` has to be; None if nothing is claimed."""
    found = source(v, saves, i, block)
    if found is None:
        return None
    base = b"\x00" * BLOCK if found == "zeros" else img.peek_at(found, BLOCK)
    out = bytearray(base)
    for k, where in saves[i].get(block, (None, {}))[1].items():
        out[k * 512 : k * 512 + 512] = img.peek_at(where, 512)
    return bytes(out)
