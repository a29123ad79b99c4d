#!/usr/bin/env python3
"""spec/data/cli.json: name components (as code points) for the command line scenarios."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
c = lambda s: [ord(x) for x in s]
d = {
    "files": [c(x) for x in ["a", "b", "x", "A", "a.txt", "b.txt", "B.TXT", "notes.tmp", "data.bin", "Read Me.md", "\u65e5\u672c\u8a9e.dat", ".hidden", "-x", "--help", "a;b",
              "#first", "x ", "two  blanks", "war3map.j", "units.slk", "q[1].txt", "star*.txt", "100%.log", "a.b.c", "x.TMP", "it's", "caf\u00e9.txt", "CAF\u00c9.TXT", "\u00dcber.dat",
              "averylongfilename-that-goes-on-and-on-\u65e5\u672c\u8a9e\u65e5\u672c\u8a9e-and-on.text", "\u65e5" * 20 + ".bin", "\u672c" * 13 + "x", "(signature)x", "file_00000001.dat"]],
    "dirs": [c(x) for x in ["sub", "Sub dir", "deep", "d.x", "a", "\u8a9e", "tmp", "Units", ".git"]],
    "parts": [c(x) for x in ["..", "..", "..", ".", "", "a", "b", "x.txt", "secret", "sub", "...", "..a", "a..", "\u65e5", "w", "out", "d2", "~", "$HOME", "C:", "CON", " ", ". ", ".. "]],
    "long": c("n" * 300), "nul": c("a\0b"),
    "globs": [c(x) for x in ["a", "b", "t", "x", ".", "/", "s", "u", "T", "X", "1", "m", "p", "\u65e5", "\u00e9", "\u00c9", "\u00fc"]],
    "ignores": [c(x) for x in ["tmp", "sub", "b.txt", ".git", "a", "zzz", "Sub dir/", "/a", "src", "d1"]],
}
json.dump(d, open(os.path.join(HERE, "..", "spec", "data", "cli.json"), "w"), separators=(",", ":"))
