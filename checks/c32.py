from hypothesis import strategies as st

from checks import zoo
from checks.c31 import LENGTH, WHERE
from vlib import hist
from vlib.core import Check, Part, same, subject

SLOT = st.integers(0, 3)
OP = st.one_of(
    st.tuples(st.just("read"), SLOT, LENGTH),
    st.tuples(st.just("read"), SLOT, LENGTH),
    st.tuples(st.just("seek"), SLOT, WHERE),
    st.tuples(st.just("open"), SLOT, st.integers(0, 7)),
    st.tuples(st.just("raw"), SLOT, st.tuples(st.integers(0, 1 << 20), st.integers(0, 600))),
)


@st.composite
def cases(draw, kind):
    count = draw(st.integers(2, 4))
    ops = []
    for slot in range(count):
        ops.append(("open", slot, draw(st.integers(0, 7))))
    for slot in range(count):
        ops.append(("seek", slot, draw(WHERE)))
    ops += draw(st.lists(OP, min_size=draw(st.sampled_from([2, 8, 16])), max_size=30))
    return {"spec": draw(zoo.KINDS[kind][0]), "ops": ops, "count": count}


def part(kind, quick):
    def check(ctx, spec):
        run(ctx, kind, spec)

    return Part(kind, cases(kind), check, quick=quick, thorough=quick * 12)


def run(ctx, kind, spec):
    devices, volumes = zoo.opened(kind, spec["spec"])
    _, alone = zoo.opened(kind, spec["spec"])
    if not volumes:
        ctx.mark_trivial()
        return
    streams, last = {}, None
    switches = same_volume = raws = 0
    for op, slot, arg in spec["ops"]:
        if op == "raw":
            where, n = arg
            dev = devices[slot % len(devices)]
            dev.seek(where)
            dev.read(n)
            raws += 1
            last = None
            continue
        slot %= spec["count"]
        if op == "open":
            which = arg % len(volumes)
            name, opener, marks = volumes[which]
            with subject(f"{name}: open stream {slot}"):
                fh = opener()
                size = fh.size
            with subject(f"{name}: open alone"):
                want_size = alone[which][1]().size
            same(size, want_size, f"{name}: size when it is opened once more")
            same_volume += any(s[1] == which for k, s in streams.items() if k != slot)
            streams[slot] = [fh, which, 0, size]
            continue
        fh, which, pos, size = streams[slot]
        name, _, marks = volumes[which]
        what = f"{name} of {size} bytes, stream {slot} of {len(streams)}: {op} {arg} at {pos}"
        if op == "seek":
            target = min(max(marks[arg[0] % len(marks)] + arg[1], 0), size)
            with subject(what):
                fh.seek(target)
            streams[slot][2] = target
            continue
        with subject(what):
            got = fh.read(arg)
            tell = fh.tell()
        with subject(f"{what}, alone"):
            fresh = alone[which][1]()
            fresh.seek(pos)
            want = fresh.read(arg)
        hist.compare(got, want, pos, what)
        same(tell, pos + len(want), f"{what}: position afterwards")
        if want:
            switches += last is not None and last != slot or raws > 0
            last = slot
        streams[slot][2] = tell
    ctx.label("one volume opened twice" if same_volume else "different volumes", "handles moved" if raws else "", "alternating" if switches else "")
    if not switches:
        ctx.mark_trivial()


CHECK = Check(
    "C32",
    "bytes are read after another stream read or after a handle was moved",
    [part(kind, 300 if kind in ("disk", "thin", "VSS", "LVM", "thin LVM") else 200) for kind in zoo.KINDS],
)

if __name__ == "__main__":
    CHECK.main()
