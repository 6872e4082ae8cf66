"""DDF metadata encoder, written from the SNIA DDF 2.0 specification.  All numbers are big endian."""

from __future__ import annotations

import struct

HEADER, CONTROLLER, PDR, VDR, VDCR, VUCR, SAR, PDD = (
    0xDE11DE11, 0xAD111111, 0x22222222, 0xDDDDDDDD, 0xEEEEEEEE, 0x88888888, 0x55555555, 0x33333333,
)  # fmt: skip
NONE16, NONE32, NONE64 = 0xFFFF, 0xFFFFFFFF, 0xFFFFFFFFFFFFFFFF


def header(kind: int, h: dict) -> bytes:
    out = struct.pack(">II", HEADER, 0xFFFFFFFF) + h["guid"] + b"02.00.00"
    out += struct.pack(">IIBBB", h["seq"], 0x1234, 0xFF if kind == 0 else 0, 0, 0) + b"\xff" * 13
    out += b"\xff" * 32
    out += struct.pack(">QQB", h["primary"], h["secondary"], kind) + b"\xff" * 3
    out += struct.pack(">IQ", 32768, h["workspace"])
    assert len(out) == 128
    out += struct.pack(">HHHHHI", h["max_pd"], h["max_vd"], 4, h["record_len"], h["mppe"], 0) + b"\xff" * 50
    for name in ("controller", "pdr", "vdr", "config", "pdd"):
        out += struct.pack(">II", *h["sections"][name])
    out += struct.pack(">6I", *([NONE32, 0] * 3))
    assert len(out) == 256
    return out + b"\xff" * 256


def controller(guid: bytes, kind: bytes = b"\x00" * 8) -> bytes:
    return (struct.pack(">II", CONTROLLER, 0) + guid + kind + b"product".ljust(16)).ljust(512, b"\xff")


def pd_entry(p: dict) -> bytes:
    out = p["guid"] + struct.pack(">IHHQ", p["ref"], p["type"], p["state"], p["size"]) + p.get("path", b"path").ljust(18, b"\x00")
    return out + struct.pack(">H", p["block_size"]) + b"\xff" * 4


def vd_entry(v: dict) -> bytes:
    out = v["guid"] + struct.pack(">HHHHBB", v["number"], 0xFFFF, v["crc"], v["type"], v["state"], v["init"])
    return out + b"\xff" * 14 + v["name"].ljust(16, b"\x00")


def table(signature: int, entries: list, limit: int) -> bytes:
    """A record section; ``None`` is a slot that is not in use."""
    out = struct.pack(">IIHH", signature, 0, sum(e is not None for e in entries), limit) + b"\xff" * 52
    return out + b"".join(b"\xff" * 64 if e is None else e for e in entries)


def vd_config(c: dict, mppe: int) -> bytes:
    out = struct.pack(">II", VDCR, 0) + c["guid"] + struct.pack(">II", c["timestamp"], c["seq"]) + b"\xff" * 24
    out += struct.pack(
        ">HBBBBBB", len(c["refs"]), c["strip"], c["prl"], c["rlq"], c["sec_count"], c["sec_seq"], c["srl"]
    )
    out += struct.pack(">QQHB", c["blocks"], c["size"], c["block_size"], c.get("rotate", 0)) + b"\xff" * 5
    out += b"\xff" * 32 + b"\x00" * 8 + b"\xff"
    out = out.ljust(512, b"\xff")
    refs = c["refs"] + [NONE32] * (mppe - len(c["refs"]))
    starts = c["starts"] + [NONE64] * (mppe - len(c["starts"]))
    return out + struct.pack(f">{mppe}I", *refs) + struct.pack(f">{mppe}Q", *starts)


def other_record(kind: str) -> bytes:
    if kind == "spare":
        return struct.pack(">II", SAR, 0) + b"\x00\x00\x00\x01" + b"\xff" * 7 + b"\x01" + struct.pack(">HH", 0, 4)
    if kind == "vendor":
        return struct.pack(">II", VUCR, 0) + b"vendor".ljust(24, b"\x00")
    return b"\xff" * 64


def pdd(guid: bytes, ref: int) -> bytes:
    return (struct.pack(">II", PDD, 0) + guid + struct.pack(">IBB", ref, 0, 0)).ljust(512, b"\xff")
