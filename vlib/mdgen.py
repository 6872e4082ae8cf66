"""Strategies for MD arrays and their devices."""

from __future__ import annotations

from hypothesis import strategies as st

from vlib import md, raidgen
from vlib.gen import wide
from vlib.img import Img

SPARE, FAULTY, JOURNAL = 0xFFFF, 0xFFFE, 0xFFFD
VERSIONS = st.sampled_from(["0.90", "1.0", "1.1", "1.2"])
UUID16 = st.binary(min_size=16, max_size=16)
NAME = st.one_of(
    st.sampled_from([b"", b"fedora:raid5", b"host:0", b"x" * 32]),
    st.text(alphabet="abc:é日-_ 09", max_size=10).map(lambda s: s.encode()),
    st.binary(max_size=32).filter(lambda b: b"\x00" not in b),
)
SECONDS = st.one_of(wide(0, 0x7FFFFFFF), wide(0, 253402200000))
TIME1 = st.tuples(SECONDS, wide(0, 999999))
EVENTS = st.one_of(st.integers(0, 100), wide(0, 0xFFFFFFFFFFFFFFFF))


def time_value(version: str, t) -> int:
    return t[0] & 0x7FFFFFFF if version == "0.90" else t[0] | t[1] << 40


def expected_us(version: str, t) -> tuple[int, int]:
    return (t[0] & 0x7FFFFFFF, 0) if version == "0.90" else (t[0], t[1])


@st.composite
def numbers(draw, n):
    """Device numbers; they grow with every device that was part of the array at some time."""
    if draw(st.integers(0, 5)) == 5:
        # 500 to 599 are left for others
        return draw(st.lists(st.one_of(st.integers(0, 499), st.integers(600, 1919)), min_size=n, max_size=n, unique=True))
    return draw(st.permutations(range(n + draw(st.integers(0, 3)))))[:n]


@st.composite
def arrays(draw, level=None, versions=VERSIONS):
    """An array with all its members: plain data, see build()."""
    version = draw(versions)
    if level is None:
        level = draw(st.sampled_from([-1, 0, 1, 4, 5, 6, 10]))
    if level == 0 and version != "0.90":
        chunk = st.one_of(raidgen.POW2, st.integers(1, 9).map(lambda k: k * 4096))
    else:
        chunk = raidgen.POW2
    if draw(st.integers(0, 79)) == 79:
        chunk = st.just(1 << 25)
    g = draw(raidgen.geometry(level, chunk=chunk))
    if level == 0:
        g["layout"] = draw(st.sampled_from([0, 1, 2])) if len(set(g["sizes"])) == 1 else 2 if version == "0.90" else draw(st.sampled_from([1, 2, 2]))
    if level == -1:
        g["chunk"] = draw(st.sampled_from([0, 65536, 4096]))
        if version == "0.90":
            g["chunk"] = 65536
        if g["chunk"]:
            # the rounding: what a member has beyond a multiple of it is not used
            g["rounding"] = g["chunk"]
            if draw(st.booleans()):
                g["sizes"] = [max(1, s // g["chunk"]) * g["chunk"] for s in g["sizes"]]
            g["sizes"][0] = max(g["sizes"][0], g["chunk"])
    if version == "0.90":
        if level in (-1, 0):
            g["sizes"] = [(s + 65535) // 65536 * 65536 for s in g["sizes"]]
        else:
            g["sizes"] = [(s + 1023) // 1024 * 1024 for s in g["sizes"]]
    n = g["n"]
    far = draw(st.sampled_from([0] * 29 + [1 << 23, 1 << 32]))
    return {
        "version": version,
        **g,
        "uuid": draw(UUID16),
        "name": draw(NAME),
        # left over from a longer name, behind the terminator
        "name_rest": draw(st.sampled_from([b"", b"", b"", b"\x00host:0", b"\x00\xff" * 16])),
        # an internal bitmap, a list of bad blocks, a journal, a partial parity log
        "features": draw(st.sampled_from([0, 0, 0, 1, 8, 9, 0x200, 0x201, 0x800, 0x808])),
        "ctime": draw(TIME1),
        "utime": draw(TIME1),
        "events": draw(EVENTS),
        # per member: data offset, slack behind the data, device number
        "data_offset": [draw(st.one_of(st.integers(16, 64), st.integers(16, 5000))) + far for _ in range(n)],
        "slack": [draw(st.integers(0, 300)) for _ in range(n)],
        "numbers": draw(numbers(n)),
    }


def usable(a: dict, m: int) -> int:
    """Sectors of member m that its superblock reports as usable for data."""
    size = a["sizes"][m] // 512
    if a["version"] == "0.90":
        return (size + 127) // 128 * 128
    if a["level"] in (-1, 0):
        return size
    return size + a["slack"][m] % 64


def device_sectors(a: dict, m: int) -> int:
    """Size of the whole device."""
    size, slack = usable(a, m), a["slack"][m]
    if a["version"] == "0.90":
        return size + 128 + slack % 128
    if a["version"] == "1.0":
        return size + 24 + slack
    return a["data_offset"][m] + size + slack


def roles_table(a: dict, extra=()) -> list[int]:
    """dev_roles, indexed by device number."""
    numbers = list(a["numbers"]) + [number for number, _ in extra]
    table = [FAULTY] * (max(numbers) + 1)
    for m, number in enumerate(a["numbers"]):
        table[number] = m
    for number, role in extra:
        table[number] = role
    return table


def superblock(a: dict, m: int, **override) -> dict:
    """The fields of member m's superblock."""
    v90 = a["version"] == "0.90"
    out = {
        "uuid": a["uuid"],
        "name": a["name"],
        "name_rest": a.get("name_rest", b""),
        "features": a.get("features", 0),
        "ctime": time_value(a["version"], a["ctime"]),
        "utime": time_value(a["version"], a["utime"]),
        "level": a["level"],
        "layout": a["layout"],
        "size": min(0xFFFFFFFF, a["sizes"][m] // 1024) if v90 else a["sizes"][m] // 512,
        "chunk": a["chunk"] // (1 if v90 else 512),
        "raid_disks": a["n"],
        "events": a["events"],
        "data_offset": data_start(a, m),
        "data_size": usable(a, m),
        "device_uuid": bytes([m + 1]) * 16,
    }
    if v90:
        # device numbers are the roles
        out["dev_number"] = m
        out["disks"] = [(i, i, 6) for i in range(a["n"])]
    else:
        out["dev_number"] = a["numbers"][m]
        out["roles"] = roles_table(a)
    out.update(override)
    return out


def data_start(a: dict, m: int) -> int:
    return 0 if a["version"] in ("0.90", "1.0") else a["data_offset"][m]


def build(a: dict, tag: int = 2000) -> list[tuple[Img, int]]:
    """All devices of the array, with superblocks but without data: (device, start of its data area in bytes)."""
    out = []
    for m in range(a["n"]):
        sectors = device_sectors(a, m)
        img = Img(sectors * 512, tag=tag + m)
        md.write(img, a["version"], sectors, superblock(a, m))
        assert img.length == sectors * 512, (a["version"], img.length, sectors)
        out.append((img, data_start(a, m) * 512))
    return out
