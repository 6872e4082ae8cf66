from hypothesis import strategies as st

from vlib import lvmtext
from vlib.core import Check, Part, same, subject

from dissect.volume.lvm.physical import parse_metadata


@st.composite
def texts(draw):
    return {"tree": draw(lvmtext.TREE), "choices": draw(lvmtext.CHOICES)}


@st.composite
def long_texts(draw):
    """The same few sections many times, with different numbers."""
    trees = draw(st.lists(lvmtext.TREE, min_size=1, max_size=3))
    n = draw(st.sampled_from([30, 100, 300]))
    return {"tree": {f"lv{i}": {"number": i, **trees[i % len(trees)]} for i in range(n)}, "choices": draw(lvmtext.CHOICES)}


def depth(tree):
    return 1 + max((depth(v) for v in tree.values() if isinstance(v, dict)), default=0)


def check(ctx, spec):
    printer = lvmtext.Printer(spec["choices"])
    text = printer.text(spec["tree"])
    with subject(f"parse {text!r}"):
        got = parse_metadata(text)
    got = {k: v for k, v in got.items() if k != "_raw"}
    same(got, spec["tree"], f"values of {text!r}")
    ctx.label(*printer.features, f"depth {depth(spec['tree'])}")
    if not spec["tree"]:
        ctx.mark_trivial()


CHECK = Check(
    "C21",
    "the text has at least one entry",
    [
        Part("text", texts(), check, quick=12000, thorough=120000),
        Part("long", long_texts(), check, quick=120, thorough=1200),
    ],
    assumptions=["strings hold no control characters", "a comment after a value holds no quotes (LVM2 writes none)"],
)

if __name__ == "__main__":
    CHECK.main()
