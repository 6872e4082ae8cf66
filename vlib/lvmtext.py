"""LVM2 metadata text: strategies for section trees and a printer with generated formatting."""

from __future__ import annotations

from hypothesis import strategies as st

NAME = st.one_of(
    st.sampled_from(["id", "status", "pv0", "lv-1", "vg_test", "lvol0_pmspare", "segment1", "a.b+c"]),
    st.text(alphabet="abcXYZ019_-.+", min_size=1, max_size=8),
)
PLAIN = st.characters(min_codepoint=32, max_codepoint=0x2FFF, exclude_categories=("Cs", "Cc", "Zl", "Zp"))
STRING = st.one_of(
    st.sampled_from(["", "striped", "a#b", "# x", "x = y", "{", "}", "[", "]", "a]", "x {", '"', "\\", '\\"', "a\\nb", "it's", 'say "hi" # no', "/dev/mapper/a--b", "[1, 2]"]),
    st.text(alphabet='ab #{}[]="\\\',/-', max_size=12),
    st.text(alphabet=PLAIN, max_size=12),
)
INT = st.one_of(st.integers(0, 9), st.integers(0, 2**64))
LIST = st.lists(st.one_of(STRING, INT), max_size=6)
SCALAR = st.one_of(INT, STRING, LIST)
TREE = st.recursive(
    st.dictionaries(NAME, SCALAR, max_size=5),
    lambda kid: st.dictionaries(NAME, st.one_of(SCALAR, kid, kid), max_size=5),
    max_leaves=12,
)

# one number decides one detail of the layout
CHOICES = st.lists(st.integers(0, 999), min_size=1, max_size=40)


def quote(s: str) -> str:
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


class Printer:
    """Prints a tree; every choice of layout is taken from a list of numbers, plainly (like LVM itself) when it is empty."""

    def __init__(self, choices=()):
        self.choices = list(choices)
        self.at = 0
        self.features = set()

    def pick(self, n: int) -> int:
        if not self.choices:
            return 0
        self.at += 1
        return self.choices[self.at % len(self.choices)] * 31 // 7 % n

    def comment(self) -> str:
        """The rest of a line: nothing, blanks or a comment without quotes."""
        how = self.pick(8)
        if how < 5:
            return ""
        if how == 5:
            return "  \t"
        if how == 6:
            self.features.add("comment after a value")
            return "\t# Tue Jan  5 2021 {"
        self.features.add("comment after a value")
        return " # 4 Megabytes]"

    def between(self) -> list[str]:
        how = self.pick(12)
        if how == 7:
            self.features.add("blank line")
            return [""]
        if how == 8:
            self.features.add("comment line")
            return ["# Generated by LVM2 version 2.02 }"]
        if how == 9:
            self.features.add("comment line with quotes")
            return ['\t# the "first" {']
        if how == 10:
            self.features.add("empty comment")
            return ["  #"]
        if how == 11:
            self.features.add("blank line")
            return [" \t "]
        return []

    def value(self, v) -> list[str]:
        if isinstance(v, int):
            return [str(v)]
        if isinstance(v, str):
            return [quote(v)]
        items = [str(x) if isinstance(x, int) else quote(x) for x in v]
        how = self.pick(4)
        if not v or how < 2:
            pad = " " if self.pick(5) == 4 else ""
            sep = [", ", ",", " , "][self.pick(3)]
            return ["[" + pad + sep.join(items) + pad + "]"]
        self.features.add("list over several lines")
        per = 2 if how == 2 else 1
        rows = [", ".join(items[i : i + per]) for i in range(0, len(items), per)]
        lines = ["["]
        if len(rows) > 1 and self.pick(3) == 2:
            self.features.add("list starts on the line of its bracket")
            lines = ["[" + rows.pop(0) + ","]
        for i, row in enumerate(rows):
            last = i == len(rows) - 1
            if self.pick(9) == 8:
                lines.append("")
                self.features.add("blank line in a list")
            tail = "" if last else ","
            if last and self.pick(6) == 5:
                lines.append("\t" + row + "]")
                return lines
            lines.append(["\t", "", "    "][self.pick(3)] + row + tail + self.comment())
        lines.append(["\t]", "]"][self.pick(2)])
        return lines

    def lines(self, tree: dict, depth: int = 0) -> list[str]:
        out = []
        indent = ["\t" * depth, "  " * depth, ""][self.pick(3)]
        for key, v in tree.items():
            out += self.between()
            if isinstance(v, dict):
                out.append(indent + key + [" {", "{", "  {"][self.pick(3)] + self.comment())
                out += self.lines(v, depth + 1)
                out.append(indent + "}" + self.comment())
                continue
            first, *rest = self.value(v)
            eq = [" = ", "=", " =", "= "][self.pick(4)]
            if rest:
                out.append(indent + key + eq + first + self.comment())
                out += rest[:-1]
                out.append(rest[-1] + self.comment())
            else:
                out.append(indent + key + eq + first + self.comment())
        out += self.between()
        return out

    def text(self, tree: dict) -> str:
        out = "\n".join(self.lines(tree))
        if self.pick(6) == 5:
            self.features.add("no line break at the end")
            return out
        return out + "\n"
