"""Strategies for Vinum systems: drives, volumes, plexes, subdisks."""

from __future__ import annotations

from hypothesis import strategies as st

from vlib import raid, raidgen, vinum
from vlib.gen import wide
from vlib.img import Img

LAYOUT_LA = 0
DRIVES = [b"d0", b"gvinumdrive1", b"a#b", b"drive", b"x\xe9y", b"d" * 32]
STRIPE = st.one_of(st.sampled_from([512, 4096, 65536, 262144]), st.integers(1, 40).map(lambda k: k * 512))

# sectors between two subdisks of a drive
GAP = st.sampled_from([0] * 30 + [1] * 10 + [16] * 10 + [1 << 22, 1 << 31, (1 << 32) + 5])


@st.composite
def systems(draw, volumes=3, plexes=3, most=6):
    """Volumes over drives; everything up."""
    ndrives = draw(st.integers(1, most))
    used = [vinum.DATA] * ndrives
    out = []
    for v in range(draw(st.integers(1, volumes))):
        org = draw(st.sampled_from(["concat", "striped", "raid5"]))
        rows = draw(st.one_of(st.integers(1, 12), st.integers(1, 300), st.integers(1, 1 << 16)))
        vol = {"name": draw(st.sampled_from([b"vol", b"vol", b"vol", b"v\xc3\xa9", b"v\xff\xe9"])) + str(v).encode(), "plexes": []}
        total = None
        for p in range(draw(st.sampled_from([1, 1, 1, 2, plexes]))):
            plex = {"name": vol["name"] + f".p{p}".encode(), "org": org, "stripe": draw(STRIPE), "sds": []}
            if org == "concat":
                # all plexes of a volume have the same size
                total = total or draw(st.one_of(st.integers(1, 40), wide(1, 1 << 20), wide(1, 1 << 36)))
                lengths, left, cap = [], total, draw(raidgen.count(1, 4, 13))
                while left:
                    lengths.append(left if len(lengths) == cap else draw(st.one_of(st.just(left), st.integers(1, left))))
                    left -= lengths[-1]
                lengths = [n * 512 for n in lengths]
            else:
                n = draw(raidgen.count(3, 6, 13) if org == "raid5" else raidgen.count(1, 5, 13))
                if p:
                    first = vol["plexes"][0]
                    n, plex["stripe"] = len(first["sds"]), first["stripe"]
                lengths = [rows * plex["stripe"]] * n
            pos = 0
            # names need not follow the order in the plex
            names = draw(st.one_of(st.just(list(range(len(lengths)))), st.permutations(range(len(lengths)))))
            for i, length in enumerate(lengths):
                drive = draw(st.integers(0, ndrives - 1))
                used[drive] += draw(GAP) * 512
                plexoffset = pos if org == "concat" else i * plex["stripe"]
                plex["sds"].append({"name": plex["name"] + f".s{names[i]}".encode(), "drive": drive, "offset": used[drive], "length": length, "plexoffset": plexoffset})
                used[drive] += length
                pos += length
            vol["plexes"].append(plex)
        out.append(vol)
    return {
        "volumes": out,
        "used": used,
        "tail": [draw(st.sampled_from([0, 512, 1 << 20])) for _ in used],
        "sized": [draw(st.booleans()) for _ in used],
        "full": draw(st.integers(0, 9)) == 9,
        "remains": draw(st.sampled_from([b"", b"", b"", b"d3", b"\x00" * 20 + b"x"])),
        "choices": draw(st.one_of(st.just([]), st.lists(st.integers(0, 99), min_size=1, max_size=8))),
        "order": draw(st.one_of(st.just([]), st.lists(st.integers(0, 99), min_size=1, max_size=9))),
    }


def config(system: dict) -> dict:
    """The configuration, everything up."""
    out = {"volumes": [], "plexes": [], "sds": []}
    for v in system["volumes"]:
        out["volumes"].append({"name": v["name"], "state": b"up"})
        for p in v["plexes"]:
            out["plexes"].append({"name": p["name"], "org": p["org"].encode(), "stripe": p["stripe"], "volume": v["name"], "state": b"up"})
            for s in p["sds"]:
                out["sds"].append({**s, "drive": DRIVES[s["drive"]], "plex": p["name"], "state": b"up"})
    return out


def drive(system: dict, i: int, text: bytes, time=(1700000000, 250000), magic=vinum.ACTIVE[1], second: bytes | None = None) -> Img:
    size = system["used"][i] + system["tail"][i]
    img = Img(size, tag=270 + i)
    vinum.write_drive(img, magic, DRIVES[i], time, size if system["sized"][i] else 0, text, second, system["full"], system["remains"])
    return img


def plex_model(p: dict):
    n, lengths = len(p["sds"]), [s["length"] for s in p["sds"]]
    if p["org"] == "concat":
        return raid.Linear(lengths)
    if p["org"] == "striped":
        return raid.Stripe(lengths, p["stripe"])
    lay = raid.Parity(5, LAYOUT_LA, n, p["stripe"])
    lay.size = lay.capacity(lengths[0])
    return lay
