"""Writes spec/Unicode.tla: the codepoint classes of Python's re (\\w, \\d, \\s) beyond ASCII."""
import os, sys, unicodedata
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def ranges(f):
    out = []
    for c in range(128, 0x110000):
        if f(chr(c)):
            if out and out[-1][1] == c - 1:
                out[-1][1] = c
            else:
                out.append([c, c])
    return out


def seq(name, rs):
    lines, cur = [], ""
    for t in ["<<%d, %d>>" % tuple(r) for r in rs]:
        if len(cur) + len(t) > 95:
            lines.append(cur)
            cur = ""
        cur += t + ", "
    lines.append(cur)
    return "%s == <<\n    %s>>\n" % (name, "\n    ".join(lines).rstrip(", "))


with open(os.path.join(ROOT, "spec", "Unicode.tla"), "w") as f:
    f.write("------------------------------ MODULE Unicode ------------------------------\n")
    f.write("(* Codepoints beyond ASCII by class, as <<first, last>> in ascending order; Unicode %s.\n"
            "   Written by tools/mkunicode.py from Python's tables. *)\n" % unicodedata.unidata_version)
    f.write("EXTENDS Integers, Sequences\n\n")
    f.write(seq("UniWordRanges", ranges(str.isalnum)) + "\n")
    f.write(seq("UniDigitRanges", ranges(str.isdecimal)) + "\n")
    f.write(seq("UniSpaceRanges", ranges(str.isspace)) + "\n")
    f.write("""RECURSIVE Within(_, _, _, _)
\\* c lies in one of the ranges rs[a..b]
Within(c, rs, a, b) ==
    IF a > b THEN FALSE
    ELSE LET m == (a + b) \\div 2 IN
         IF c < rs[m][1] THEN Within(c, rs, a, m - 1)
         ELSE IF c > rs[m][2] THEN Within(c, rs, m + 1, b) ELSE TRUE
InRanges(c, rs) == Within(c, rs, 1, Len(rs))
=============================================================================
""")
