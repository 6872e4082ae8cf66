from checks import c10
from vlib.core import Check, Part

CHECK = Check(
    "C11",
    "at least one byte is read, or the volume is refused",
    [
        Part("raid10", c10.arrays(10), c10.check, quick=4000, thorough=50000),
        Part("unknown", c10.unknown(10), c10.check_unknown, quick=300, thorough=3000),
    ],
    assumptions=["the product of near and far copies does not exceed the number of members"],
)

if __name__ == "__main__":
    CHECK.main()
