from datetime import datetime, timedelta, timezone

from hypothesis import strategies as st

from vlib import vinum
from vlib.core import Check, Part, same, subject
from vlib.gen import wide

from dissect.volume.vinum.config import PlexOrg, PlexState, SDState, VolumeState, parse_vinum_config

KEYWORDS = [b"name", b"state", b"org", b"vol", b"volume", b"plex", b"sd", b"drive", b"len", b"up", b"concat", b"raid5", b"0"]
TOKEN = st.one_of(
    st.sampled_from([b"v", b"vol.p0", b"vol.p0.s0", b"gvinumdrive0", b"a#b", b"it's", b'q"', b"-", b"\xc3\xa9", b"x\xff"]),
    st.sampled_from(KEYWORDS),
    st.binary(min_size=1, max_size=6).map(lambda b: bytes(c for c in b if c not in b" \t\n\x00") or b"_").map(lambda b: b"_" + b if b[:1] in b"#'\"" else b),
)
STATES = {
    "volumes": {b"up": VolumeState.UP, b"down": VolumeState.DOWN},
    "plexes": {b"up": PlexState.UP, b"initializing": PlexState.INITIALIZING, b"degraded": PlexState.DEGRADED, b"growable": PlexState.GROWABLE, b"down": PlexState.DOWN},
    "sds": {b"up": SDState.UP, b"initializing": SDState.INITIALIZING, b"degraded": SDState.DEGRADED, b"growable": SDState.GROWABLE, b"down": SDState.DOWN},
}  # fmt: skip
ORGS = {b"concat": PlexOrg.CONCAT, b"striped": PlexOrg.STRIPED, b"raid5": PlexOrg.RAID5}
STATE = st.one_of(st.sampled_from(sorted(STATES["sds"])), st.sampled_from([b"stale", b"UP", b"upp", b"rebooting"]), TOKEN)
ORG = st.one_of(st.sampled_from(sorted(ORGS)), st.sampled_from([b"?", b"Concat", b"raid", b"mirror"]), TOKEN)
SUFFIX = {"": 1, "b": 512, "B": 512, "s": 512, "S": 512, "k": 1 << 10, "K": 1 << 10, "m": 1 << 20, "M": 1 << 20, "g": 1 << 30, "G": 1 << 30}


@st.composite
def sizes(draw, usual=st.integers(0, 1 << 20)):
    """A written size and its value."""
    if draw(st.integers(0, 24)) == 24:
        return draw(st.sampled_from([b"foo", b"-", b"k", b"-k", b"S1", b"_", b"-G"])), 0  # no digits
    n = draw(st.one_of(usual, usual, usual, usual, st.integers(-5, 5), wide(0, 1 << 40)))
    unit = draw(st.sampled_from(sorted(SUFFIX)))
    rest = draw(st.sampled_from(["", "", "", "foo", "B", "1"])) if unit else draw(st.sampled_from(["", "", "", "", "foo", "x1", ".5k", "t"]))
    zeros = draw(st.sampled_from(["", "", "", "0", "00"])) if n >= 0 else ""
    return f"{zeros}{n}{unit}{rest}".encode(), n * SUFFIX[unit]


STOP = "stop"


def fields_of(draw, kind):
    return {
        "volumes": [("name", draw(TOKEN.filter(lambda t: t != b"state")))],
        "plexes": [("name", draw(TOKEN)), ("org", draw(ORG)), (draw(st.sampled_from(["vol", "volume"])), draw(TOKEN))],
        "sds": [
            ("drive", draw(TOKEN)),
            ("name", draw(TOKEN)),
            (draw(st.sampled_from(["len", "length"])), draw(sizes())),
            ("driveoffset", draw(sizes(st.one_of(st.just(0), wide(vinum.DATA - 1, 1 << 40))))),
            ("plex", draw(TOKEN)),
            ("plexoffset", draw(sizes())),
        ],
    }[kind] + [("state", draw(STATE))]


@st.composite
def lines(draw, kind):
    """Tokens of a line and what it describes, and whether it ends the configuration."""
    fields = fields_of(draw, kind)
    # the first one is required, others may be missing or be repeated
    keep = fields[:1] + [f for f in fields[1:] if draw(st.integers(0, 5)) < 5]
    if kind == "plexes" and draw(st.integers(0, 5)) == 5:
        keep = keep[1:]
    if draw(st.integers(0, 5)) == 5:
        # once more with other values: the last one counts
        keep += draw(st.lists(st.sampled_from(fields_of(draw, kind)), min_size=1, max_size=3))
    keep = draw(st.permutations(keep))
    how = 30 - draw(st.integers(0, 30))
    tokens, out = [], dict.fromkeys({"volumes": ["name", "state"], "plexes": ["name", "org", "stripesize", "volume", "state"],
                                     "sds": ["name", "drive", "length", "driveoffset", "plex", "plexoffset", "state"]}[kind])  # fmt: skip
    ends = False
    for key, value in keep:
        if kind == "volumes" and key == "name":
            tokens.append(value)
            out["name"] = value
            continue
        tokens.append(key.encode())
        if key == "state":
            tokens.append(value)
            out["state"] = STATES[kind].get(value, STATES[kind][b"down"])
        elif key == "org":
            tokens.append(value)
            out["org"] = ORGS.get(value, PlexOrg.DISORG)
            if value in (b"striped", b"raid5"):
                text, n = draw(sizes(st.integers(1, 4096)))
                tokens.append(text)
                out["stripesize"] = n
                ends |= n <= 0
        elif isinstance(value, tuple):
            text, n = value
            tokens.append(text)
            if key in ("len", "length"):
                n, key = max(n, -1) if n < 0 else n, "length"
            elif key == "driveoffset":
                ends |= n != 0 and n < vinum.DATA
            else:
                ends |= n < 0
            out[key] = n
        else:
            tokens.append(value)
            out["volume" if key.startswith("vol") else key] = value
    if how == 0 and len(tokens) > 1 and kind != "volumes":
        unknown = [draw(st.sampled_from([b"foo", b"Name", b"raid5", b"states", b"stripesize", b"flags"]))]
        if draw(st.booleans()):
            unknown.append(draw(TOKEN))
        if draw(st.booleans()):
            tokens += unknown
        else:
            tokens[:0] = unknown
        ends = True
    elif how == 1:
        tokens.append(b"state")  # without value
        ends = True
    elif how == 2 and kind == "volumes":
        tokens = [b"state", b"up"]  # no name
        ends = True
    elif how == 3 and kind == "sds":
        at = tokens.index(b"drive")
        if tokens.count(b"drive") == 1:
            del tokens[at : at + 2]
            ends = True
    word = {"volumes": b"volume", "plexes": b"plex", "sds": b"sd"}[kind]
    return {"kind": kind, "tokens": [word, *tokens], "fields": out, "ends": ends, "why": how}


@st.composite
def configs(draw):
    out = []
    for _ in range(draw(st.integers(0, 9))):
        how = draw(st.integers(0, 36)) - 10
        if how < 20:
            line = draw(lines(draw(st.sampled_from(["volumes", "plexes", "sds"]))))
        elif how < 23:
            line = {"kind": None, "tokens": [], "fields": None, "ends": False}
        elif how in (23, 26):
            line = {"kind": None, "tokens": [draw(st.sampled_from([b"drive", b"foo", b"Volume", b"subdisk", b"vol"])), b"x"], "fields": None, "ends": True}
            if draw(st.booleans()):
                # with all a line of one of the known types needs
                line["tokens"][1:] = draw(lines(draw(st.sampled_from(["volumes", "plexes", "sds"]))))["tokens"][1:]
        else:
            line = draw(lines(draw(st.sampled_from(["volumes", "plexes", "sds"]))))
            at = draw(st.integers(0, len(line["tokens"])))
            line["tokens"] = line["tokens"][:at] + [draw(st.sampled_from([b'"x"', b"'x", b'"']))] + line["tokens"][at:]
            line["ends"] = True
        line["lead"] = draw(st.sampled_from([b"", b"", b" ", b"\t \t"]))
        line["trail"] = draw(st.sampled_from([b"", b"", b" ", b" # more 'words", b"\t#", b" \t", b' #"']))
        line["gap"] = draw(st.sampled_from([b" ", b" ", b"\t", b"  ", b" \t"]))
        line["eol"] = draw(st.sampled_from([b"\n", b"\n", b"\x00", b"\n\n", b"\n\x00"]))
        if not line["tokens"] and draw(st.booleans()):
            line["lead"] = draw(st.sampled_from([b"# a comment", b" #volume x", b"#"]))
        out.append(line)
    return {
        "lines": out,
        "last": draw(st.sampled_from(["", "no newline", "padding"])),
        "time": draw(st.integers(0, 4000000000)),
    }


def check(ctx, spec):
    raw, want, ended = b"", {"volumes": [], "plexes": [], "sds": []}, False
    for line in spec["lines"]:
        raw += line["lead"] + line["gap"].join(line["tokens"]) + line["trail"] + line["eol"]
        if line["ends"]:
            ended = True
        elif line["kind"] and not ended:
            want[line["kind"]].append(line["fields"])
            ctx.label(line["kind"])
    if spec["last"] == "no newline":
        raw = raw.rstrip(b"\n\x00")
    elif spec["last"] == "padding":
        raw += b"\x00" * 3000
    time = datetime(1970, 1, 1, tzinfo=timezone.utc) + timedelta(seconds=spec["time"])
    with subject("parse"):
        got = parse_vinum_config(time, raw)
        got = {
            kind: [{"time": item.timestamp, **{f: getattr(item, f) for f in fields}} for item in got[kind]]
            for kind, fields in (
                ("volumes", ["name", "state"]),
                ("plexes", ["name", "org", "stripesize", "volume", "state"]),
                ("sds", ["name", "drive", "length", "driveoffset", "plex", "plexoffset", "state"]),
            )
        }
    for kind in want:
        same(got[kind], [{"time": time, **f} for f in want[kind]], f"{kind} of {raw!r}")
    ctx.label("ended early" if ended else "complete", "comments" if any(b"#" in line["trail"] for line in spec["lines"]) else "")
    if not any(want.values()):
        ctx.mark_trivial()


CHECK = Check(
    "C26",
    "at least one volume, plex or subdisk is described in front of the line that ends the configuration",
    [Part("config", configs(), check, quick=6000, thorough=80000)],
)

if __name__ == "__main__":
    CHECK.main()
