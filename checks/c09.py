from checks import c10
from vlib import raidgen
from vlib.core import Check, Part


def check(ctx, spec):
    c10.check(ctx, {**spec, "trim": spec["trim"] if spec["trim"] < 5 else 0})
    zones = len(raidgen.model(spec).zones)
    ctx.label(f"{zones} zones", "original layout" if spec["layout"] == 1 else "", "unused tail" if any(s % spec["chunk"] for s in spec["sizes"]) else "")


CHECK = Check(
    "C09",
    "at least one byte is read",
    [Part("raid0", c10.arrays(0), check, quick=4000, thorough=50000)],
)

if __name__ == "__main__":
    CHECK.main()
