"""Writes raw font data from a description, independently of the builder. Every field has a
default; every section can be replaced by raw bytes through 'raw' overrides (by section name),
so that damaged and unusual fonts can be produced as well."""
import struct

def u8(v): return bytes([v])
def u16(v): return struct.pack("<H", v & 0xFFFF)
def u24(v): return struct.pack("<I", v & 0xFFFFFF)[:3]
def u32(v): return struct.pack("<I", v & 0xFFFFFFFF)
def u64(v): return struct.pack("<Q", v)
def sstr(s):
    b = s.encode() if isinstance(s, str) else bytes(s)
    return u8(len(b)) + b
def date(d): return u16(d[0]) + u8(d[1]) + u8(d[2])

def ends(chunks, enc):
    out, t = b"", 0
    for c in chunks:
        t += len(c)
        out += enc(t)
    return out

OPS = {"==": 0, "!=": 1, "<": 2, ">": 3, "<=": 4, ">=": 5}

def cond(ast):
    """encodes a condition formula; see Conditions.tla for the formulas"""
    k = ast["k"]
    if k == "or":
        return u8(len(ast["xs"])) + b"".join(cond(x) for x in ast["xs"])
    if k == "and":
        return u8(0b00100000 | len(ast["xs"])) + b"".join(cond(x) for x in ast["xs"])
    if k == "cmp":      # setting against setting (c = 0) or constant (c = 1)
        return u8(0b01000000 | (0b00010000 if ast["c"] else 0) | OPCODES[ast["o"]]) + u8(ast["a"]) + u8(ast["b"])
    return u8(QUICK[ast["o"]] << 5 | ast["b"]) + u8(ast["a"])   # quick comparison

OPCODES = {"==": 0, "!=": 1, "<": 2, ">": 3, "<=": 4, ">=": 5}
QUICK = {"==": 3, "!=": 4, "<": 5, ">": 6}

def elemset(s, wide):
    e = u32 if wide else u16
    r = s.get("ranges", [])
    l = s.get("list", [])
    return u8(len(r)) + b"".join(e(a) + u8(n) for a, n in r) + u8(len(l)) + b"".join(e(x) for x in l)

def rule(r, wide):
    """r: cond, head, body, tail (lengths), out, els: sequence of ["s", set] or ["e", element];
    a new fragment starts where a set follows an element, or the fragment is full, and at every block"""
    e = u32 if wide else u16
    out = bytes([r.get("cond", 255), r["head"], r["body"], r["tail"], len(r["out"])]) + b"".join(e(x) for x in r["out"])
    els, pos = r["els"], 0
    for n in (r["head"], r["body"], r["tail"]):
        block = els[pos:pos + n]
        pos += n
        if not block:
            out += b"\0"
            continue
        i = 0
        while i < len(block):
            ss = []
            while i < len(block) and block[i][0] == "s" and len(ss) < 15:
                ss.append(block[i][1])
                i += 1
            es = []
            while i < len(block) and block[i][0] == "e" and len(es) < 15:
                es.append(block[i][1])
                i += 1
            out += u8(len(ss) << 4 | len(es)) + bytes(ss) + b"".join(e(x) for x in es)
    return out

def group(g):
    """g: {"glyphs": [...], "range": bool, "flags": n}"""
    n = len(g["glyphs"])
    out = u8((n - 1) | (0x80 if g.get("range") else 0))
    if n > 1:
        out += u8(g.get("flags", 0))
    if g.get("range"):
        return out + u16(g["glyphs"][0])
    return out + b"".join(u16(x) for x in g["glyphs"])

def mapping(mp):
    """mp: {"type": 255|254|switch, "groups": [...]}"""
    if mp["type"] == 255:
        return u8(255) + u16(mp["groups"][0]["glyphs"][0])
    return u8(mp["type"]) + b"".join(group(g) for g in mp["groups"])

SECTIONS = ["header", "metrics", "color", "glyphs", "settings", "mapping", "rewrites", "kerning"]

def sections(d):
    """list of (name, bytes) in file order"""
    o = d.get("over", {})
    out = []
    def put(name, data):
        out.append((name, o.get(name, data)))
    put("version", u32(d.get("fmt", 2)))
    put("id", u64(d.get("id", 0x1357F02468ACE9B5)))
    v = d.get("ver", (0, 1))
    put("ver", u16(v[0]) + u16(v[1]))
    for i, k in enumerate(("first", "major", "minor")):
        put("date-" + k, date(d.get("dates", [(0, 0, 0)] * 3)[i]))
    put("name", sstr(d.get("name", "n")))
    put("family", sstr(d.get("family", "")))
    put("author", sstr(d.get("author", "")))
    about = d.get("about", "")
    about = about.encode() if isinstance(about, str) else bytes(about)
    put("about", u16(len(about)) + about)
    n = d.get("glyphs", 3)
    m = d.get("metrics", {})
    vert = m.get("vert", 0)
    put("metrics", u16(n) + bytes([vert, m.get("mono", 0), m.get("ascent", 9), m.get("extraAscent", 0), m.get("descent", 5),
        m.get("extraDescent", 0), m.get("uppercase", 9), m.get("midline", 5), m.get("horzInter", 1), m.get("vertInter", 0),
        m.get("lineGap", 1), m.get("vertLineWidth", 0), m.get("vertLineGap", 0)]))
    dyes = d.get("dyes", [["main", [255]]])
    put("dyes", u8(len(dyes)) + ends([a for _, a in dyes], u8) + b"".join(bytes(a) for _, a in dyes)
        + ends([nm.encode() for nm, _ in dyes], u16) + b"".join(nm.encode() for nm, _ in dyes))
    pals = d.get("palettes", [])
    put("palettes", u8(len(pals)) + ends([c for _, c in pals], u8) + b"".join(bytes(x) for _, c in pals for x in c)
        + ends([nm.encode() for nm, _ in pals], u16) + b"".join(nm.encode() for nm, _ in pals))
    names = sorted((k.encode(), v) for k, v in d.get("names", {}).items())
    put("names", u16(len(names)) + b"".join(u16(v) for _, v in names) + ends([k for k, _ in names], u24) + b"".join(k for k, _ in names))
    pl = d.get("masks") or [(u8(i % 250) + (bytes([i % 200, 9, 3]) if vert else b"")) for i in range(n)]
    put("masks", ends(pl, u24) + b"".join(bytes(x) for x in pl))
    words = [w.encode() for w in d.get("words", [])]
    put("words", u8(len(words)) + ends(words, u16) + b"".join(words))
    st = d.get("settings", [])       # [name, [option words]]
    put("settings", u8(len(st)) + ends([s[0].encode() for s in st], u16) + b"".join(s[0].encode() for s in st)
        + ends([s[1] for s in st], u16) + b"".join(bytes(s[1]) for s in st))
    sw = d.get("switches", [])       # lists of settings
    put("switches", u8(len(sw)) + ends(sw, u16) + b"".join(bytes(s) for s in sw))
    mp = sorted(d.get("mapping", {}).items())
    enc = [mapping(x) if isinstance(x, dict) else bytes(x) for _, x in mp]
    put("mapping", u16(len(mp)) + b"".join(struct.pack("<i", c) for c, _ in mp) + ends(enc, u24) + b"".join(enc))
    cs = [c if isinstance(c, (bytes, list)) and not isinstance(c, dict) else cond(c) for c in d.get("conds", [])]
    cs = [bytes(c) for c in cs]
    put("conds", u8(len(cs)) + ends(cs, u16) + b"".join(cs))
    for k, wide in (("rsets", True), ("gsets", False)):
        ss = [bytes(s) if isinstance(s, (bytes, list)) else elemset(s, wide) for s in d.get(k, [])]
        put(k, u8(len(ss)) + ends(ss, u16) + b"".join(ss))
    for k, wide in (("urules", True), ("grules", False)):
        rs = [bytes(r) if isinstance(r, (bytes, list)) else rule(r, wide) for r in d.get(k, [])]
        put(k, u16(len(rs)) + ends(rs, u24) + b"".join(rs))
    for k in ("kern", "vkern"):
        ks = sorted((a << 16 | b, v) for (a, b), v in d.get(k, {}).items())
        put(k, u24(len(ks)) + b"".join(u32(x) for x, _ in ks) + b"".join(u8(v & 0xFF) for _, v in ks))
    return out

def raw(d):
    return b"".join(b for _, b in sections(d))

def hexraw(d):
    return raw(d).hex()
