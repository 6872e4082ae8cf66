"""Strategies for partitioned disks and the comparison of partition lists; shared by C01 to C08, C31 and C32."""

from __future__ import annotations

import uuid

from hypothesis import strategies as st

from vlib import disks
from vlib.core import Violation, expect, same, subject
from vlib.gen import wide
from vlib.img import Img
from vlib.typenames import GPT_NAMES, MBR_NAMES

SECTOR_SIZES = st.sampled_from([512, 512, 512, 1024, 2048, 4096])
U32 = 0xFFFFFFFF
LBA = st.one_of(
    st.integers(1, 64),
    st.integers(1, 5000),
    wide(1, 1 << 24),
    st.sampled_from([2048, 0x7FFFFFFF, 0x80000000, U32, 0x1000000]),
    wide(1, U32),
)
COUNT = st.one_of(
    st.integers(1, 64), st.integers(1, 5000), st.sampled_from([0x7FFFFFFF, 0x80000000, U32]), wide(1, U32)
)
FLAG = st.sampled_from([0, 0, 0x80, 0x81, 0xFF, 1])
PLAIN = st.one_of(st.sampled_from([1, 4, 6, 7, 0xB, 0xC, 0xE, 0x82, 0x83, 0x8E, 0xFD, 0xFB]), st.sampled_from(disks.PLAIN_MBR_TYPES))

TEXTS = [
    *disks.VBR_SIGNATURES,
    *disks.VBR_NAMES,
    b"FAT32   ",
    b"FAT16   ",
    b"GRUB \x00Geom\x00Hard Disk\x00Read\x00 Error\r\n\x00",
    b"Invalid partition table\x00Error loading operating system\x00",
    b"QNX ",
    b"Hit Esc",
    b"EFI PART",
    b"ISOLINUX",
    b"LILO",
]


@st.composite
def boot_codes(draw):
    code = draw(st.sampled_from([0, 1, 2]))
    if draw(st.booleans()):
        text = draw(st.sampled_from(TEXTS))
        at = draw(st.one_of(st.integers(0, 30), st.integers(0, 400), st.integers(-14, -1)))
        if at < 0 and draw(st.booleans()):
            text = text[: draw(st.integers(1, 7))]
        return (code, at, text)
    return (code, 0, b"")


def code_of(spec) -> bytes:
    return disks.boot_code(*spec)


@st.composite
def chains(draw, lba, limit=12, pos=None):
    """EBR chain of an extended partition: distinct positions, the first at its very start."""
    n = draw(st.integers(1, limit))
    long = pos is None and draw(st.integers(0, 30)) == 30
    if pos is None:
        pos = st.one_of(st.integers(1, 40), st.integers(1, 4000), wide(1, 1 << 30))
    rels = draw(st.lists(pos, min_size=n - 1, max_size=n - 1, unique=True))
    if draw(st.booleans()):
        rels.sort()
    chain = []
    into = st.one_of(st.integers(1, 63), st.integers(1, 4000), wide(1, 1 << 30))
    for rel in [0, *rels]:
        more = (0, [])
        if draw(st.integers(0, 7)) == 7:
            more = draw(
                st.sampled_from([(1, 0), (2, 0), (0, 1), (1, 1), (0, 2)]).flatmap(
                    lambda k: st.tuples(st.just(k[0]), st.lists(st.tuples(FLAG, PLAIN, into, COUNT), min_size=k[1], max_size=k[1]))
                )
            )
        empty = draw(st.integers(0, 5)) == 0
        chain.append(
            (
                rel,
                draw(FLAG),
                0 if empty else draw(PLAIN),
                draw(into),
                draw(COUNT),
                more,
            )
        )
    if long:
        # many more of the same
        top, kinds = max(rel for rel, *_ in chain), len(chain)
        for i in range(draw(st.integers(20, 100))):
            chain.append((top + 1 + 7 * i, *chain[i % kinds][1:]))
    return chain


@st.composite
def mbrs(draw, extended=(0, 0), base=True, limit=12, types=PLAIN, lba=LBA, count=COUNT, ss=SECTOR_SIZES):
    """A master boot record; ``extended`` is the range of the number of extended partitions."""
    nx = draw(st.integers(*extended))
    kinds = ["x"] * nx + [draw(st.sampled_from(["p", "p", "-"])) for _ in range(4 - nx)]
    kinds = draw(st.permutations(kinds))
    starts = draw(st.lists(st.one_of(st.integers(1, 300), wide(1, 1 << 31)), min_size=2, max_size=2, unique=True))
    slots = []
    taken: set[int] = {0}
    for kind in kinds:
        if kind == "-":
            slots.append(None)
        elif kind == "p":
            slots.append(("p", draw(FLAG), draw(types), draw(lba), draw(count)))
        else:
            start = starts.pop()
            chain = draw(chains(start, limit))
            # no two boot records in the same place
            kept = []
            for item in chain:
                if start + item[0] not in taken:
                    taken.add(start + item[0])
                    kept.append(item)
                elif not kept:
                    break
            if not kept:
                slots.append(None)
                continue
            slots.append(("x", draw(st.sampled_from(disks.EXTENDED)), start, draw(count), kept))
    return {
        "ss": draw(ss),
        "base": draw(st.sampled_from([0, 0, 0, 1, 7, 2048, 1 << 23])) * 512 if base else 0,
        "serial": draw(st.integers(0, U32)),
        "code": draw(boot_codes()),
        "slots": slots,
    }


def make_mbr(img: Img, spec: dict) -> list[dict]:
    return disks.build_mbr(img, {**spec, "code": code_of(spec["code"])})


GPT_TYPES = st.one_of(
    st.sampled_from([k for k in sorted(GPT_NAMES) if k not in disks.BSD_GPT_TYPES]),
    st.integers(1, (1 << 128) - 1)
    .map(lambda n: str(uuid.UUID(int=n)))
    .filter(lambda s: s not in disks.BSD_GPT_TYPES),
)
LBA48 = st.one_of(st.integers(1, 5000), wide(1, 1 << 32), wide(1, 1 << 48), st.sampled_from([34, 2048, 1 << 33]))
NAME_TEXT = st.one_of(
    st.sampled_from(["", "EFI System Partition", "Linux filesystem", "Basic data partition"]),
    st.text(alphabet=st.characters(exclude_categories=["Cs"], exclude_characters="\x00￿"), max_size=36),
    st.text(alphabet="aé日\U0001f4be ​", max_size=18),
    # what is a byte order mark elsewhere is a character of a name like any other
    st.text(alphabet="a\ufeff\ufffe", min_size=1, max_size=6),
    st.text(alphabet="abcXYZ -_09", min_size=36, max_size=36),
)


def encode_name(text: str, tail: int) -> tuple[str, bytes]:
    """The 72 bytes of a partition name; ``tail`` says what follows the terminator."""
    raw = text.encode("utf-16-le")
    while len(raw) > 72:
        text = text[:-1]
        raw = text.encode("utf-16-le")
    rest = 72 - len(raw)
    if rest == 0 or tail == 0:
        return text, raw.ljust(72, b"\x00")
    if tail == 1:  # terminator, then leftovers of an earlier, longer name
        return text, (raw + b"\x00\x00" + "leftover of another name".encode("utf-16-le") * 4)[:72]
    return text, (raw + b"\xff\xff" * 36)[:72]  # unused units written as 0xffff


@st.composite
def gpt_items(draw, types=GPT_TYPES, lba=LBA48, count=LBA48):
    first = draw(lba)
    text, name = encode_name(draw(NAME_TEXT), draw(st.integers(0, 2)))
    return (
        draw(types),
        draw(st.one_of(st.integers(1, (1 << 128) - 1), st.integers(1, 99))),
        first,
        first + draw(count) - 1,
        draw(st.one_of(st.sampled_from([0, 1, 4, 1 << 60, 1 << 63, (1 << 64) - 1]), wide(0, (1 << 64) - 1))),
        name,
        text,
    )


@st.composite
def gpts(draw, slots_max=200, types=GPT_TYPES, lba=LBA48, count_strategy=LBA48, ss=SECTOR_SIZES, hdr=None):
    """A partition array plus the header that describes it (without the MBR)."""
    ss = draw(ss)
    hdr = draw(hdr) if hdr is not None else 1
    esize = draw(st.sampled_from([128, 128, 128, 256, 512, 1024, 4096]))
    count = draw(st.one_of(st.just(128), st.integers(1, 16), st.integers(1, slots_max)))
    used = draw(
        st.lists(
            st.one_of(st.integers(0, count - 1), st.integers(0, min(count - 1, 5)), st.just(count - 1)),
            unique=True,
            max_size=6,
        )
    )
    if esize > 512 and count > 64:
        count = 64
        used = sorted({u % 64 for u in used})
    elif esize == 128 and slots_max > 100 and draw(st.integers(0, 9)) == 9:
        # a long array, mostly used near its end
        count = draw(st.one_of(st.integers(201, 1100), st.sampled_from([256, 257, 512, 513, 1024, 1025])))
        used = sorted({count - 1 - u for u in used})
    entries = {slot: draw(gpt_items(types=types, lba=lba, count=count_strategy)) for slot in used}
    array = hdr + 1 + draw(st.one_of(st.just(0), st.integers(0, 30), wide(0, 1 << 30)))
    return {"ss": ss, "hdr": hdr, "array": array, "count": count, "esize": esize, "entries": entries, "guid": draw(st.integers(1, 1 << 100))}


def make_gpt(img: Img, spec: dict) -> list[dict]:
    disks.build_gpt(img, {**spec, "entries": {slot: item[:6] for slot, item in spec["entries"].items()}})
    ss = spec["ss"]
    return [
        {
            "number": slot + 1,
            "offset": item[2] * ss,
            "size": (item[3] - item[2] + 1) * ss,
            "size_short": (item[3] - item[2]) * ss,  # known finding GPT-SIZE
            "type": uuid.UUID(item[0]),
            "guid": uuid.UUID(int=item[1]),
            "flags": item[4],
            "name": item[6],
        }
        for slot, item in sorted(spec["entries"].items())
    ]


def protective(spec: dict, count: int = U32) -> tuple:
    return ("p", 0, 0xEE, spec["hdr"], count)


def check_partitions(got, want: list[dict], what: str, ordered: bool = True) -> None:
    """Compare a partition list, attribute by attribute."""
    with subject(f"{what}: attributes of the listed partitions"):
        summary = [(p.number, p.offset, p.size) for p in got]
    same(len(summary), len(want), f"{what}: number of partitions (listed {summary})")
    for idx, (p, w) in enumerate(zip(got, want)):
        name = f"{what}: partition {idx + 1} of {len(want)}"
        with subject(name):
            for key in ("number", "offset", "type", "flags", "guid", "name"):
                if key in w:
                    same(getattr(p, key), w[key], f"{name}: {key}")
            size = p.size
            if size != w["size"] and size != w.get("size_short", -1):
                raise Violation(f"{name}: size: got {size}, expected {w['size']}")
            check_type_text(p, w, name)


def check_type_text(p, w: dict, name: str) -> None:
    if "type_str" in w:
        same(p.type_str, w["type_str"], f"{name}: type_str")
        same(p.type_name, w["type_str"], f"{name}: type_name")
        return
    kind = w["type"]
    if isinstance(kind, int):
        prefix, known = f"0x{kind:x}", MBR_NAMES.get(kind)
    elif isinstance(kind, uuid.UUID):
        prefix, known = str(kind), GPT_NAMES.get(str(kind))
    else:
        same(p.type_str, kind, f"{name}: type_str")
        return
    if known is not None:
        same(p.type_str, f"{prefix} ({known})", f"{name}: type_str")
        same(p.type_name, known, f"{name}: type_name")
    else:
        expect(
            p.type_str == f"{prefix} ({p.type_name})", f"{name}: type_str {p.type_str!r} does not show type {prefix}"
        )
