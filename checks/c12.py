from hypothesis import strategies as st

from checks import c10
from vlib import hist, raidgen
from vlib.core import Check, Part, subject


def check_linear(ctx, spec):
    c10.check(ctx, {**spec, "starts": [0] * spec["n"], "trim": 0, "chunk": 4096})
    ctx.label("members in another order" if list(spec["order"]) != sorted(spec["order"]) else "")


@st.composite
def mirrors(draw):
    spec = draw(c10.arrays(1))
    return {**spec, "missing": draw(st.lists(st.integers(0, spec["n"] - 1), max_size=spec["n"] - 1, unique=True)), "trim": 0}


def check_mirror(ctx, spec):
    vd, lay, size, ranges = c10.assemble({**spec, "chunk": 4096}, missing=spec["missing"])
    ranges = [(off, min(n, size - off)) for off, n in ranges]
    with subject("open the mirror"):
        fh = vd.open()
    hist.verify(fh, raidgen.content(size, 10), [(o, n) for o, n in ranges if n], "mirror")
    ctx.label(f"{spec['n']} members", f"{len(spec['missing'])} missing", "start offset" if any(spec["starts"]) else "")
    if not any(n for _, n in ranges):
        ctx.mark_trivial()


CHECK = Check(
    "C12",
    "at least one byte is read",
    [
        Part("linear", c10.arrays(-1), check_linear, quick=2500, thorough=30000),
        Part("mirror", mirrors(), check_mirror, quick=2000, thorough=20000),
    ],
)

if __name__ == "__main__":
    CHECK.main()
