#!/usr/bin/env python3-vt
"""Builds spec/data/names.json: name pools (as byte arrays) for the scenario generators.
Independent of /repo: the published name hash is implemented here."""
import json, os
import numpy as np
HERE = os.path.dirname(os.path.abspath(__file__))
def table():
    t = np.zeros(1280, dtype=np.uint32); s = 0x00100001
    for j in range(256):
        for i in range(5):
            s = (s*125+3) % 0x2AAAAB; a = (s & 0xFFFF) << 16
            s = (s*125+3) % 0x2AAAAB; t[j+i*256] = a | (s & 0xFFFF)
    return t
T = table()
def up(b):
    b = b.copy(); b[b == 47] = 92
    m = (b >= 97) & (b <= 122); b[m] -= 32
    return b
def hash_many(mat, typ):
    """mat: n x L uint8, all names the same length"""
    n, L = mat.shape
    s1 = np.full(n, 0x7FED7FED, dtype=np.uint32); s2 = np.full(n, 0xEEEEEEEE, dtype=np.uint32)
    m = up(mat)
    with np.errstate(over='ignore'):
        for k in range(L):
            c = m[:, k].astype(np.uint32)
            s1 = T[typ*256 + c] ^ (s1 + s2)
            s2 = c + s1 + s2 + (s2 << np.uint32(5)) + np.uint32(3)
    return s1
def h1(name, typ):
    return int(hash_many(np.frombuffer(name, dtype=np.uint8).reshape(1, -1), typ)[0]) if name else 0x7FED7FED
assert h1(b"(listfile)", 0) == 0x5F3DE859
N = 1 << 20
idx = np.arange(N)
digits = [(idx // 36**p) % 36 for p in range(4)]
al = np.frombuffer(b"abcdefghijklmnopqrstuvwxyz0123456789", dtype=np.uint8)
mat = np.stack([np.full(N, c, dtype=np.uint8) for c in b"dir\\"] + [al[d] for d in reversed(digits)] +
               [np.full(N, c, dtype=np.uint8) for c in b".x"], axis=1)
A, B, O = hash_many(mat, 1), hash_many(mat, 2), hash_many(mat, 0)
def pairs(H, other, want_mod):
    order = np.argsort(H, kind="stable"); r = []
    for a, b in zip(order[:-1], order[1:]):
        if H[a] == H[b] and (O[a] % want_mod) == (O[b] % want_mod): r.append([int(a), int(b)])
    return r
nm = lambda i: list(bytes(mat[i]))
pa = pairs(A, B, 16); pb = pairs(B, A, 16)
chain = {}
for slot in (0, 7, 15):
    ids = [int(i) for i in np.nonzero(O % 16 == slot)[0][:24]]
    chain[str(slot)] = [nm(i) for i in ids]
# the same full table offset: chains in tables of any size
order = np.argsort(O, kind="stable"); same = []
for a, b in zip(order[:-1], order[1:]):
    if O[a] == O[b]: same.append([nm(int(a)), nm(int(b))])
plain = ["readme.txt", "data\\file.bin", "Data/Sub/Deep/x.y", "a", "A b", "UPPER.TXT", "war3map.j",
 "units\\human\\footman\\footman.mdx", "interface/glue/mainmenu.blp", "x1", "x2", "x3", "noext", ".hidden",
 "dir\\.hidden", "two  spaces", "tab\tname", "file.with.many.dots", "üñí\\cödé.txt", "日本語.dat",
 "path/with\\mixed/seps", "~tmp$1", "100%", "a\\b\\c\\d\\e\\f\\g\\h", "trailing\\", "double\\\\sep", "(x)",
 "[brackets]", "{braces}", "question?", "star*", "quote'\"", "comma,plus+", "eq=and&", "n"*100, "deep\\"*20+"f",
 "!bang", "@at", "under_score-dash", "z"*259, "file_00000000.dat", "listfile", "(listfile", "attributes",
 "ends.", "a.b..", "..x", "...", "dir\\name.", "x.\\y.", "_", "-", "/lead", "\\lead", "end/", "a//b", "c:\\d"]
odd = ["", " lead", "trail ", "a;b", "#hash", ";semi", "cr\rlf\nx", "nul\0x", "q"*1000, "   ", "\u0085nel", "\u00a0nbsp\u00a0", "\u3000wide\u3000"]
special = ["(listfile)", "(attributes)", "(signature)", "(ListFile)"]
enc = lambda l: [list(s.encode()) for s in l]
out = {"plain": enc(plain), "odd": enc(odd), "special": enc(special),
       "chain0": chain["0"], "chain7": chain["7"], "chain15": chain["15"],
       "pairsA": [[nm(a), nm(b)] for a, b in pa[:12]], "pairsB": [[nm(a), nm(b)] for a, b in pb[:12]],
       "sameoff": same[:40]}
json.dump(out, open(os.path.join(HERE, "../spec/data/names.json"), "w"))
print({k: len(v) for k, v in out.items()})
