import io

from hypothesis import strategies as st

from checks import zoo
from vlib import hist
from vlib.core import Check, Part, expect, same, subject

LENGTH = st.one_of(st.integers(0, 20), st.sampled_from([511, 512, 513, 4096, 8191, 8192, 8193, 16384, 65536]), st.integers(0, 100000))
WHERE = st.tuples(st.integers(0, 63), st.one_of(st.sampled_from([0, 0, -1, 1, 512, -512]), st.integers(-70000, 70000)))
OP = st.one_of(
    st.tuples(st.sampled_from(["set", "set", "cur", "end"]), WHERE),
    st.tuples(st.just("beyond"), st.integers(0, 5000)),
    st.tuples(st.sampled_from(["read", "read", "read", "readinto", "peek"]), LENGTH),
    st.tuples(st.just("rest"), st.just(0)),
)


@st.composite
def cases(draw, kind):
    return {
        "spec": draw(zoo.KINDS[kind][0]),
        "which": draw(st.integers(0, 7)),
        "ops": draw(st.lists(OP, min_size=draw(st.sampled_from([3, 5, 8, 14])), max_size=25)),
    }


def part(kind, quick):
    def check(ctx, spec):
        run(ctx, kind, spec)

    return Part(kind, cases(kind), check, quick=quick, thorough=quick * 12)


def run(ctx, kind, spec):
    devices, streams = zoo.opened(kind, spec["spec"])
    if not streams:
        ctx.mark_trivial()
        return
    name, opener, marks = streams[spec["which"] % len(streams)]
    with subject(f"{name}: open"):
        fh = opener()
        size = fh.size
    small = size <= 400000
    if small:
        with subject(f"{name}: read everything at once"):
            whole = opener().read()
        same(len(whole), size, f"{name}: length of everything read at once")

    def want(off, n):
        if small:
            return whole[off : off + n]
        # one read of a stream that did nothing before
        start = max(0, off - 3000)
        with subject(f"{name}: read {n} bytes at {off} of a fresh stream"):
            fresh = opener()
            fresh.seek(start)
            return fresh.read(n + off - start)[off - start :]

    pos = read = turns = 0
    for op, arg in spec["ops"]:
        what = f"{name} of {size} bytes: {op} {arg} at {pos}"
        if op in ("set", "cur", "end", "beyond"):
            if op == "beyond":
                target = size + arg
            else:
                target = min(max(marks[arg[0] % len(marks)] + arg[1], 0), size)
            with subject(what):
                if op == "cur":
                    got = fh.seek(target - pos, io.SEEK_CUR)
                elif op == "end":
                    got = fh.seek(target - size, io.SEEK_END)
                else:
                    got = fh.seek(target)
                tell = fh.tell()
            expect(got in (None, target) and tell == target, f"{what}: position is {tell} ({got}), expected {target}")
            turns += target < pos
            pos = target
            continue
        left = max(0, size - pos)
        n = left if op == "rest" else arg
        if op == "rest" and left > 300000:
            continue
        with subject(what):
            if op == "read":
                got = fh.read(n)
            elif op == "peek":
                got = fh.peek(n)
            elif op == "rest":
                got = fh.read()
            else:
                buf = bytearray(b"\xee" * n)
                count = fh.readinto(buf)
                got = bytes(buf[:count])
                expect(buf[count:] == b"\xee" * (n - count), f"{what}: more than {count} bytes are written")
            tell = fh.tell()
        hist.compare(got, want(pos, min(n, left)), pos, what)
        if op != "peek":
            pos += len(got)
        same(tell, pos, f"{what}: position afterwards")
        read += len(got)
    ctx.label("small, compared with one read" if small else "large", "went back" if turns else "")
    if not read:
        ctx.mark_trivial()


CHECK = Check(
    "C31",
    "at least one byte is read",
    [part(kind, 400 if kind in ("disk", "thin", "VSS") else 250) for kind in zoo.KINDS],
)

if __name__ == "__main__":
    CHECK.main()
