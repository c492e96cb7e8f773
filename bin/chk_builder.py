"""C01, C04, C20: building fonts, what comes out of the builder, and what it refuses."""
import chk_bulk
import string

ALNUM = string.ascii_letters + string.digits
U8 = ["mono", "asc", "xasc", "desc", "xdesc", "upper", "mid", "hinter", "vinter", "gap", "vlw", "vlg"]

def b2l(s):
    return list(s.encode() if isinstance(s, str) else s)

def basic(rng, hi=8):
    n = rng.randint(1, hi)
    s = [rng.choice(ALNUM) for _ in range(n)]
    for i in range(1, n - 1):
        if rng.random() < 0.15 and s[i - 1] != "-":
            s[i] = "-"
    return "".join(s)

ODD = ["", "-a", "a-", "a--b", "a b", "x" * 32, "x" * 33, "a_b", "é", b"\xff", "-", "a\x00", "A-1-b"]
TEXTS = ["", "a", "Some Font", "näme ✓", "日本語", "\U0001F600", b"\xff\xfe", b"ab\xc3", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xc0\x80",
         "tab\there", "nl\n", "\x1f", "\x7f", "�", b"\xe2\x82", "x" * 255, "x" * 256, "é" * 127 + "x", "é" * 128, b"\xf0\x8f\xbf\xbf", b"a\x80",
         b"\xe0\x9f\xbf", "\u0085 ok", b"\xf5\x80\x80\x80", b"\xef\xbf\xbd\xbf"]

def edition(rng, s, valid=True):
    """edition data (after the font ID) for a session s"""
    out = []
    ncat = rng.choice([0, 0, 1, 2])
    def names(n):
        for _ in range(n):
            nm = rng.choice([basic(rng, 6), "Two Words", "x" * 32, "-", " "]) if rng.random() < 0.95 else rng.choice(ODD)
            nm = b2l(nm)
            out.extend([len(nm)] + nm)
    out.append(ncat)
    names(ncat)
    for _ in range(ncat):
        out.extend([rng.randint(0, 255), rng.choice([0, 0, 255])])
    nc = rng.choice([0, 1, 1, 2, 3, 3, 5])
    out.extend([nc, 0])
    names(nc)
    for _ in range(nc):
        out.append(rng.choice([0, 1, 255, 127, 128, rng.randint(0, 255)]))
    for _ in range(2):
        n = rng.choice([0, 1, 2, 4]) if nc and s.ng else 0
        if not valid and rng.random() < 0.2:
            n += 1
        out.extend([n, 0, 0])
        for _ in range(n):
            if rng.random() < 0.5 and s.pairs:
                a, c = rng.choice(s.pairs)
                a, c = max(a - 1, 0), max(c - 1, 0)
            else:
                a, c = (rng.randrange(max(s.ng, 1)) for _ in range(2))
            k = rng.randint(1, max(nc, 1))
            if not valid and rng.random() < 0.2:
                a, c, k = rng.choice([(s.ng, c, k), (a, s.ng, k), (a, c, 0), (a, c, nc + 1), (a, c, 256), (a, c + 256, k)])
            s.pairs.append((a + 1, c + 1))
            for v in (a, c, k):
                out.extend([v & 255, v >> 8])
    out.append(0 if valid or rng.random() < 0.9 else rng.choice([1, 255]))
    return out

class Session:
    """operations of one builder session, mostly sensible ones"""
    def __init__(self, rng, bad=0.12):
        self.rng, self.bad = rng, bad
        self.ops = [dict(op="b.new")]
        self.ng, self.gs, self.rs = 0, 0, 0
        self.names, self.cnames, self.snames, self.cps, self.pairs, self.maxopts = [], [], [], [], [], 0
        self.settings, self.switches = [], []
        self.asc, self.desc, self.mono, self.vert = 9, 5, 0, False
        self.words = False
        self.last = {"gset": [], "rset": []}

    def add(self, op, **kw):
        self.ops.append(dict(op="b." + op, **kw))

    def odd(self, p=None):
        return self.rng.random() < (self.bad if p is None else p)

    def g(self):
        return 0 if self.odd(self.bad / 3) or not self.ng else self.rng.randint(1, self.ng)

    # --- header and metrics
    def str_(self):
        rng = self.rng
        f = rng.choice(["name", "family", "author", "about"])
        s = rng.choice(TEXTS) if rng.random() < 0.6 else "".join(chr(rng.choice([rng.randint(32, 126), rng.randint(0xA0, 0x2FF), rng.randint(0x10000, 0x10FFFF)])) for _ in range(rng.randint(0, 12)))
        if rng.random() < 0.2:
            s = bytes(rng.choice([rng.randint(0, 255), 65, 0xE2, 0x82, 0xAC, 0xF0, 0x9F, 0x98, 0x80]) for _ in range(rng.randint(1, 6)))
        self.add("str", f=f, s=b2l(s))

    def date(self):
        rng = self.rng
        self.add("date", i=rng.randint(1, 3), date=[rng.choice([0, 1, 1900, 2000, 2023, 2024, 65535]), rng.choice([0, 1, 2, 2, 4, 12, 13]), rng.choice([0, 1, 28, 29, 30, 31, 32])])

    def version(self):
        rng = self.rng
        if rng.random() < 0.6:
            self.add("raise", k=rng.choice(["major", "minor"]))
        else:
            self.add("version", major=rng.choice([0, 1, 255, 256, 65400]), minor=rng.choice([0, 9, 10, 99, 100, 256, 65400]))

    def metric(self, f=None, v=None):
        rng = self.rng
        f = f or rng.choice(U8)
        if v is None:
            v = rng.choice([0, 1, 5, 9, 10, 255, rng.randint(0, 255)]) if self.odd(0.3) else dict(mono=rng.choice([0, 0, 4]), asc=rng.choice([9, 10, 12]), xasc=rng.choice([0, 2, 3]), desc=rng.choice([5, 6, 0]),
                xdesc=rng.choice([0, 2]), upper=rng.choice([9, 8]), mid=rng.choice([5, 6, 9]), hinter=rng.choice([0, 1, 7]), vinter=rng.choice([0, 0, 3 if self.vert else 0]),
                gap=rng.choice([1, 2]), vlw=7 if self.vert else 0, vlg=2 if self.vert else 0)[f]
        if f in ("asc", "desc", "mono"):
            setattr(self, f, v)
        self.add("u8", f=f, v=v)

    def setvert(self, v=None):
        self.vert = self.rng.choice([True, False]) if v is None else v
        self.add("vert", v=self.vert)

    # --- glyphs
    def glyph(self, wild=False):
        rng = self.rng
        if wild or self.odd(0.08):
            r = rng.choice([[0, -self.asc - 1, 2, 0], [0, 0, 2, self.desc + 1], [-1, -3, 4, 0], [0, -3, self.mono + 1 if self.mono else 300, -1], [5, -1, 5, 3], [-130, -2, 3, 1], [0, -self.asc, 2, self.desc],
                            [0, -self.asc - 3, 6, self.desc + 2], [0, -2, 254, 0], [0, -2, 255, 0], [0, -1, 256, 0], [0, -1, 257, 0], [-3, -2, 129, 0]])
        else:
            w, h = rng.choice([0, 1, 3, 5, 6]), rng.choice([1, 3, 5, 7])
            y = rng.randint(-min(self.asc, 9), 0)
            x = 0 if self.mono or rng.random() < 0.7 else rng.randint(-3, 3)
            r = [x, y, x + (min(w, self.mono) if self.mono else w), min(y + h, self.desc)]
            if r[3] < r[1]:
                r[3] = r[1]
        px = []
        style = rng.choice(["none", "full", "rand", "rand", "lines", "one"])
        cells = [(x, y) for y in range(r[1], r[3]) for x in range(r[0], r[2])]
        if style == "one" and cells:
            cells = [rng.choice(cells), cells[-1]]
            style = "full"
        if len(cells) > 600 and style != "none":
            style = "full"
        a = rng.choice([255, 255, 254, 1, 100])
        for x, y in dict.fromkeys(cells):
            v = dict(none=0, full=a, rand=rng.choice([0, 255, a, rng.randint(0, 255)]), lines=a if y % 2 else 0)[style]
            if v:
                px.append([x, y, v])
        outer = list(r)
        if rng.random() < 0.4:
            outer = [r[0] - rng.randint(0, 3), r[1] - rng.randint(0, 3), r[2] + rng.randint(0, 3), r[3] + rng.randint(0, 3)]
        if r[0] == r[2] or r[1] == r[3]:
            outer = list(r)
        self.add("glyph", rect=r, outer=outer, fill=rng.choice([0, 200]), px=px)
        # whether it was taken: only a guess is needed here
        ys = [p[1] for p in px]
        xs = [p[0] for p in px]
        if not px or (min(ys) >= -self.asc and max(ys) < self.desc and (not self.mono or (min(xs) >= 0 and max(xs) < self.mono))):
            self.ng += 1

    def place(self):
        rng = self.rng
        self.add("place", g=self.g(), v=[rng.choice([0, 255, rng.randint(0, 255)]) for _ in range(4)])

    def gname(self):
        rng = self.rng
        s = rng.choice(ODD) if self.odd() else basic(rng, rng.choice([2, 6, 32]))
        if self.names and rng.random() < 0.1:
            s = rng.choice(self.names)
            if rng.random() < 0.8 and isinstance(s, str):
                s = (s + "x")[:32]
        self.names.append(s)
        self.add("gname", g=self.g(), s=b2l(s))

    def kern(self):
        rng = self.rng
        a, c = self.g(), self.g()
        if self.pairs and rng.random() < 0.35:
            a, c = rng.choice(self.pairs)
            if rng.random() < 0.3:
                a, c = c, a
        self.pairs.append((a, c))
        self.add("kern", a=a, c=c, v=rng.choice([0, 1, -1, 127, -128, rng.randint(-128, 127)]))

    def edition(self):
        rng = self.rng
        data = edition(rng, self, rng.random() < 0.75)
        kw = {}
        if rng.random() < 0.25:
            x = rng.random()
            if x < 0.4:
                data = data[:rng.randint(0, len(data))]
            elif x < 0.7:
                i = rng.randrange(len(data))
                data[i] = rng.choice([0, 1, 255, data[i] ^ 1, rng.randint(0, 255)])
            else:
                data.insert(rng.randint(0, len(data)), rng.randint(0, 255))
        whole = True
        if rng.random() < 0.2:
            whole = False
            kw = dict(damage=rng.choice(["id", "sig", "cut", "fail", "flip", "tail"]), at=rng.randint(0, 2000))
        if rng.random() < 0.4:
            kw["chunks"] = rng.choice([[1], [2, 5], [7], [1024], [6, 1]])
        if rng.random() < 0.3:
            kw["eof"] = True
        if rng.random() < 0.2:
            kw["empty"] = 3
        if rng.random() < 0.3:
            kw["level"] = rng.choice([0, 1, 9])
        self.add("edition", data=data, whole=whole, **kw)

    def clear(self):
        self.add("clear")

    # --- colors
    def color(self):
        rng = self.rng
        kind = rng.choice(["dye", "pal"])
        n = rng.choice([1, 1, 2, 3]) if rng.random() < 0.85 else rng.choice([0, 100, 254, 255, 256])
        if self.cnames and self.odd():
            s = rng.choice(self.cnames)
        else:
            s = b2l(rng.choice(["main", basic(rng), b"\xff\x00", "x" * 255, "x" * 256, "", "é"])) if self.odd(0.2) else b2l(basic(rng))
        self.cnames.append(s)
        self.add(kind, s=s, cols=[[rng.choice([0, 255, rng.randint(0, 255)]) for _ in range(1 if kind == "dye" else 4)] for _ in range(n)])
        if rng.random() < 0.5:
            self.colors()

    def colors(self):
        self.add("colors", ask=[list(s) for s in self.cnames[-6:]] + [b2l("main"), []])

    # --- settings and mapping
    def setting(self, n=None):
        rng = self.rng
        n = n or (rng.choice([1, 2, 2, 3, 4]) if rng.random() < 0.93 else rng.choice([16, 17]))
        if self.odd(self.bad / 3):
            n = 0
        s = rng.choice(ODD) if self.odd() else basic(rng, rng.choice([3, 8, 32]))
        if self.snames and self.odd(self.bad / 2):
            s = rng.choice(self.snames)
        opts = [rng.choice(ODD) if self.odd(self.bad / 8) else rng.choice([basic(rng, 3), rng.choice(["on", "off", "yes", "no", "auto", "A", "B", "1", "2"])]) for _ in range(n)]
        good = all(isinstance(x, str) and 0 < len(x) <= 32 and x.replace("-", "").isascii() and x.replace("-", "").isalnum() and x[0] != "-" and x[-1] != "-" and "--" not in x for x in [s] + opts)
        if good and n and s not in self.snames:
            self.settings.append(n)
            self.snames.append(s)
        self.add("setting", s=b2l(s), opts=[b2l(o) for o in opts])

    def switch(self):
        rng = self.rng
        ns = len(self.settings)
        keys = [rng.randrange(ns) for _ in range(rng.choice([1, 1, 2, 2, 3]))] if ns else []
        if rng.random() < 0.85:
            keys = list(dict.fromkeys(keys))
        if self.odd():
            keys = rng.choice([[], keys + [ns], keys + [255], keys * 2])
        n = 1
        ok = len(set(keys)) == len(keys) and bool(keys) and all(k < ns for k in keys)
        if ok:
            for k in keys:
                n *= self.settings[k]
            ok = n <= 254
        if ok:
            self.switches.append(keys)
        self.add("switch", keys=keys)

    def cases(self, sw):
        n = 1
        for k in self.switches[sw]:
            n *= self.settings[k]
        return n

    def cp(self):
        rng = self.rng
        if self.cps and rng.random() < 0.3:
            return rng.choice(self.cps)
        c = rng.choice([31, 0, 10]) if self.odd(self.bad / 3) else rng.choice([rng.randint(32, 90), rng.randint(32, 0x10FFFF), 32, 127, 0x7FFFFFFF, 65535, 65536])
        self.cps.append(c)
        return c

    def map(self):
        rng = self.rng
        k = rng.choice(["one", "group", "singles", "switch", "switch"])
        if k in ("singles", "switch") and not self.switches:
            k = rng.choice(["one", "group"]) if rng.random() < 0.9 else k
        cp = self.cp()
        if k == "one":
            self.add("map", cp=cp, g=self.g())
        elif k == "group":
            n = rng.choice([2, 2, 3, 5]) if rng.random() < 0.9 else rng.choice([0, 1, 126, 127, 128, 129])
            self.add("mapg", cp=cp, flags=rng.randint(0, 255), gs=[self.g() for _ in range(n)])
        else:
            ns = len(self.switches)
            sw = rng.randrange(ns) if ns and not self.odd(self.bad / 3) else rng.choice([ns, 253, 254, 255])
            n = self.cases(sw) if sw < ns else rng.choice([1, 2])
            if self.odd(self.bad / 2):
                n = max(0, n + rng.choice([-1, 1]))
            if k == "singles":
                self.add("maps", cp=cp, sw=sw, gs=[self.g() for _ in range(n)])
            else:
                sizes = [rng.choice([1, 1, 2, 3]) if rng.random() < 0.98 else rng.choice([0, 127, 128, 129]) for _ in range(n)]
                m = sum(1 for x in sizes if x > 1)
                if self.odd(self.bad / 2):
                    m = max(0, m + rng.choice([-1, 1]))
                self.add("mapsw", cp=cp, sw=sw, groups=[[self.g() for _ in range(x)] for x in sizes], flags=[rng.randint(0, 255) for _ in range(m)])

    # --- sets and rules
    def h(self, n):
        return self.rng.randint(1, n) if n and not self.odd(self.bad / 3) else self.rng.choice([0, n + 1])

    def sets(self):
        rng = self.rng
        k = rng.choice(["g", "r"])
        n = self.gs if k == "g" else self.rs
        if n == 0 or rng.random() < 0.25:
            self.add(k + "set")
            if k == "g":
                self.gs += 1
            else:
                self.rs += 1
            return
        if rng.random() < 0.05:
            self.add(k + "setrm", h=self.h(n))
            return
        h = self.h(n)
        mem = self.last[k + "set"]
        undo = rng.random() < 0.25
        if rng.random() < 0.5:
            if k == "g":
                a = self.g()
                c = min(self.ng, a + rng.choice([0, 1, 2, 3])) if a and not self.odd() else self.g()
            else:
                a = rng.choice([rng.randint(0, 100), rng.randint(32, 0x10FFFF), 0, 0x7FFFFF00])
                c = a + rng.choice([0, 1, 2, 100, 254, 255]) if not self.odd(self.bad / 4) else a + rng.choice([256, -1, 1000])
                c = max(c, 0)
            if mem and rng.random() < (0.8 if undo else 0.15):
                h, a, c = rng.choice(mem)
            if not undo:
                mem.append((h, a, c))
            self.add(("un" if undo else "") + k + "range", h=h, a=a, c=c)
        else:
            v = self.g() if k == "g" else rng.choice([rng.randint(0, 20), rng.randint(0, 0x10FFFF), 0x7FFFFFFF])
            lst = self.last.setdefault(k + "list", [])
            if lst and rng.random() < (0.8 if undo else 0.15):
                h, v = rng.choice(lst)
            if not undo:
                lst.append((h, v))
            self.add(("un" if undo else "") + k + "list", h=h, v=v)
        if rng.random() < 0.15:
            self.add("sets")

    def rule(self):
        rng = self.rng
        if rng.random() < 0.4:
            n = rng.choice([1, 1, 2, 5, 15, 16, 31]) if rng.random() < 0.95 else rng.choice([0, 255, 256, 100])
            self.add("urule", v=rng.choice([rng.randint(32, 127), rng.randint(0, 0x10FFFF), 0x7FFFFFFF]), seq=[rng.choice([rng.randint(32, 0x2FF), rng.randint(0, 0x10FFFF)]) for _ in range(n)])
            return
        lens = [rng.choice([0, 0, 1, 2]), rng.choice([1, 1, 2, 3, 4]), rng.choice([0, 0, 1, 2])]
        if rng.random() < 0.2:
            lens[rng.randrange(3)] = rng.choice([0, 14, 15, 16, 17, 30, 31, 46])
        if self.odd(self.bad / 3):
            lens = rng.choice([[0, 0, 1], [0, 0, 0], [100, 100, 56], [100, 100, 55], [255, 1, 0], [0, 255, 0], [0, 255, 1], [0, 1, 254]])
        mix = rng.choice([0, 0.3, 0.6, 1])
        els = [-self.h(self.gs) if self.gs and rng.random() < mix else self.g() for _ in range(sum(lens))]
        if self.odd(self.bad / 3):
            els = els[:-1] if els and rng.random() < 0.5 else els + [1]
        n = rng.choice([1, lens[1], rng.randint(1, max(1, lens[1]))]) if not self.odd(self.bad / 2) else rng.choice([0, lens[1] + 1])
        self.add("grule", lens=lens, els=els, out=[self.g() for _ in range(n)])

    # --- looking
    def vals(self):
        return [self.rng.randrange(n) for n in self.settings]

    def build(self, raw=True, checks=False, many=False):
        rng = self.rng
        names = [b2l(s) for s in self.names[-12:]]
        names += [n + [120] for n in names[:2]] + [n[:-1] for n in names[:2]] + [[], b2l("nothing")]
        cps = list(dict.fromkeys(self.cps))
        if len(cps) > 30 and not many:
            cps = rng.sample(cps, 30)
        lookups = []
        for c in cps:
            for _ in range(1 if many else rng.choice([1, 2, 4])):
                lookups.append(dict(cp=c, vals=self.vals()))
        lookups += [dict(cp=c, vals=self.vals()) for c in (0, 31, 32, 65, 0x10FFFF)]
        kerns = [[max(0, a - 1), max(0, c - 1)] for a, c in (self.pairs if many else self.pairs[-25:])]
        kerns += [[c, a] for a, c in kerns[:5]] + [[0, 0], [self.ng, 0], [0, self.ng], [65535, 65535]]
        self.add("build", names=names, lookups=lookups, kerns=kerns, raw=raw, checks=checks, chunkings=[[1], [5, 3]] if checks else [])

    def run(self, tag):
        ops = self.ops
        if self.words:
            ops = ops[:1] + [dict(op="b.words")] + ops[1:]
        return dict(ops=ops, tag=tag)

THEMES = {
    "all": dict(glyph=5, gname=2, place=1, kern=3, color=2, setting=3, switch=3, map=6, sets=6, rule=4, edition=1, clear=0.3, str_=1, date=1, version=1, metric=1),
    "header": dict(str_=6, date=4, version=3, metric=5, setvert=1, color=3, glyph=2),
    "metrics": dict(metric=8, setvert=2, glyph=6, place=3),
    "mapping": dict(glyph=3, setting=3, switch=4, map=14),
    "rules": dict(glyph=3, sets=14, rule=7),
    "kern": dict(glyph=2, kern=10, edition=7, clear=1, gname=1, setvert=0.3),
    "glyphs": dict(glyph=10, gname=6, place=3, metric=1),
    "colors": dict(color=10, glyph=2),
}

def session(rng, theme, bad, steps, raw=True, checks=False):
    s = Session(rng, bad)
    for _ in range(rng.choice([0, 1, 2, 4])):
        s.glyph()
    if rng.random() < 0.3:
        s.setvert(True)
    if theme in ("metrics", "glyphs") and rng.random() < 0.5:
        s.metric("mono", rng.choice([3, 5, 8]))
    names, weights = zip(*THEMES[theme].items())
    if theme == "rules":
        for _ in range(3):
            s.sets()
    gap = rng.choice([6, 10, 14])
    for i in range(steps):
        getattr(s, rng.choices(names, weights)[0])()
        if i % gap == gap - 1:
            s.build(raw)
    if s.ng == 0:
        s.mono = 0
        s.add("glyph", rect=[0, -1, 1, 0], outer=[0, -1, 1, 0], fill=0, px=[[0, -1, 255]])
        s.ng = 1
    s.add("sets")
    s.colors()
    s.build(raw, checks)
    return s.run("random-" + theme)

def sessions(ctx, n, bad, themes=None, checks=False, steps=None):
    rng = ctx.rng
    names = themes or list(THEMES)
    return [session(rng, names[i % len(names)] if i % 3 else "all" if not themes else names[i % len(names)], rng.choice(bad),
                    steps or rng.choice([8, 20, 35]), True, checks) for i in range(n)]

# --- the bounds of everything that is counted ------------------------------------

def limits(ctx):
    rng = ctx.rng
    runs = []
    def sess(ng=2, words=False):
        s = Session(rng, 0)
        for _ in range(ng):
            s.glyph_plain()
        s.words = words
        return s
    def done(s, tag, raw=False, **kw):
        if tag.startswith("limit-set") or "range" in tag:
            s.add("sets")
        s.build(raw, **kw)
        runs.append(s.run(tag))
    # colors
    for a, b_ in [(255, 0), (0, 255), (128, 127), (254, 1), (128, 128), (255, 1), (1, 255), (0, 256)]:
        s = sess()
        if a:
            s.add("dye", s=b2l("d"), cols=[[i % 256] for i in range(a)])
        if b_:
            s.add("pal", s=b2l("p"), cols=[[i % 256, 255 - i % 256, 7, i % 3] for i in range(b_)])
        s.add("dye", s=b2l("e"), cols=[[1]])
        s.add("colors", ask=[b2l("d"), b2l("p"), b2l("e")])
        done(s, "limit-colors", raw=True)
    s = sess()
    for i in range(256):
        s.add("dye" if i % 3 else "pal", s=b2l("c%d" % i), cols=[[i % 256]] if i % 3 else [[i % 256, 1, 2, 3]])
    s.add("colors", ask=[b2l("c%d" % i) for i in (0, 1, 2, 3, 100, 253, 254, 255)])
    done(s, "limit-colors", raw=True)
    # strings
    s = sess()
    for f, n in [("name", 255), ("family", 255), ("author", 255), ("about", 65535)]:
        s.add("str", f=f, s=b2l("x" * n))
        s.add("str", f=f, s=b2l("y" * (n + 1)))
        s.add("str", f=f, s=b2l("é" * ((n + 1) // 2)))
    s.build(False)
    done(s, "limit-strings")
    # settings and options
    s = sess(words=True)
    for i in range(256):
        s.add("setting", s=b2l("s%d" % i), opts=[b2l(o) for o in ["w%d" % (i % 7), "on", "w%d" % (i % 3)][:1 + i % 3]])
    s.settings = [1 + i % 3 for i in range(255)]
    done(s, "limit-settings", raw=True)
    for n in (254, 255, 256):
        s = sess(words=True)
        s.add("setting", s=b2l("s"), opts=[b2l("w%d" % (i % 200)) for i in range(n)])
        s.settings = [n] if n < 256 else []
        s.add("switch", keys=[0])
        if n == 254:
            s.add("maps", cp=65, sw=0, gs=[1 + i % 2 for i in range(254)])
            s.add("maps", cp=66, sw=0, gs=[1 + i % 2 for i in range(255)])
            s.add("mapsw", cp=67, sw=0, groups=[[1 + i % 2] * (1 + i % 3) for i in range(254)], flags=[i % 256 for i in range(254) if i % 3])
            s.cps += [65, 66, 67]
        done(s, "limit-options", raw=True)
    # words: custom ones, some of which are predefined
    for n in (250, 255, 256, 260, 300):
        for own in (True, False):
            s = sess(words=True)
            ws = ["q%dq" % i for i in range(n)] + ([] if own else ["on", "off", "a", "b", "yes", "no", "1", "2", "default"])
            for i in range(0, len(ws), 50):
                s.add("setting", s=b2l("s%d" % i), opts=[b2l(w) for w in ws[i:i + 50]])
                s.settings.append(len(ws[i:i + 50]))
            done(s, "limit-words", raw=n < 256)
    # switches
    s = sess()
    for n in (1, 2, 254, 255, 127, 16, 15):
        s.add("setting", s=b2l("s%d" % n), opts=[b2l("w%d" % i) for i in range(n)])
        s.settings.append(n)
    for keys in [[2], [3], [2, 0], [2, 1], [4, 1], [1, 4, 0], [5, 5], [5, 6], [5, 6, 1], [6, 6], [5, 0, 6], [1], [0]]:
        s.add("switch", keys=keys)
    done(s, "limit-cases", raw=True)
    s = sess()
    for i in range(255):
        s.add("setting", s=b2l("s%d" % i), opts=[b2l("a")] if i < 190 else [b2l("a"), b2l("b")])
    s.settings = [1] * 190 + [2] * 65
    s.add("switch", keys=list(range(190)))
    s.add("switch", keys=list(range(191)))
    s.add("switch", keys=list(range(190, 254)))    # 2^64 cases
    s.add("switch", keys=list(range(190, 222)))    # 2^32
    s.add("switch", keys=list(range(190, 198)))    # 2^8
    s.add("switch", keys=list(range(190, 197)))    # 2^7
    s.add("switch", keys=list(range(255)))
    s.add("switch", keys=list(range(255)) + [0])
    s.add("maps", cp=70, sw=0, gs=[2])
    s.cps.append(70)
    done(s, "limit-cases")
    s = sess()
    s.add("setting", s=b2l("s"), opts=[b2l("a"), b2l("b")])
    s.add("setting", s=b2l("t"), opts=[b2l("a")])
    s.settings = [2, 1]
    for i in range(256):
        s.add("switch", keys=[[0], [1], [0, 1], [1, 0]][i % 4])
    for sw in (253, 252, 254, 255):
        s.add("maps", cp=70 + sw, sw=sw, gs=[1, 2] if sw % 4 != 1 else [2])
        s.add("mapsw", cp=370 + sw, sw=sw, groups=[[1, 2], [2]] if sw % 4 != 1 else [[2, 1, 2]], flags=[5])
        s.cps += [70 + sw, 370 + sw]
    done(s, "limit-switches", raw=True)
    # groups
    s = sess(5)
    s.add("setting", s=b2l("s"), opts=[b2l("a"), b2l("b"), b2l("c")])
    s.add("switch", keys=[0])
    s.settings = [3]
    for n in (1, 2, 126, 127, 128, 129, 200):
        s.add("mapg", cp=100 + n, flags=n, gs=[1 + (i * i) % 5 for i in range(n)])
        s.add("mapsw", cp=400 + n, sw=0, groups=[[1 + (i * i) % 5 for i in range(n)], [3], [1 + i % 5 for i in range(min(n, 128))]], flags=[n % 256, 77] if n > 1 else [])
        s.cps += [100 + n, 400 + n]
    s.add("mapg", cp=700, flags=1, gs=[1, 2, 3, 4, 5])
    s.add("mapg", cp=701, flags=2, gs=[2, 3, 4])
    s.add("mapg", cp=702, flags=3, gs=[4, 5, 1])
    s.add("mapg", cp=703, flags=4, gs=[3, 2, 1])
    s.add("mapg", cp=704, flags=5, gs=[2, 2])
    s.cps += [700, 701, 702, 703, 704]
    done(s, "limit-groups", raw=True)
    # sets
    for k, f in (("g", "gsets"), ("r", "rsets")):
        s = sess(2)
        for i in range(256):
            s.add(k + "set")
        s.add(k + "setrm", h=7)
        s.add(k + "setrm", h=7)
        s.add(k + "set")
        s.add(k + "set")
        s.add(k + "list", h=255, v=1)
        if k == "g":
            s.add("grule", lens=[0, 2, 0], els=[-255, -256], out=[1])
            s.add("grule", lens=[0, 2, 0], els=[-1, -7], out=[1])
            s.gs = 256
        done(s, "limit-sets")
        s = sess(2)
        s.add("fill", kind="glyph", n=300)
        s.ng += 300
        s.add(k + "set")
        s.add("fill", kind="set", set=f, h=1, base=10, n=254)
        for v in (2, 3, 3):
            s.add(k + "list", h=1, v=v)
            s.add(k + "range", h=1, a=v, c=v + 5)
        s.add("un" + k + "list", h=1, v=11)
        s.add("un" + k + "range", h=1, a=264, c=264)
        s.add(k + "list", h=1, v=290)
        s.add(k + "range", h=1, a=5, c=260)
        done(s, "limit-set-elements")
        for n in (28, 29) if k == "r" else (51, 52):    # around 65535 bytes of sets
            s = sess(2)
            s.add("fill", kind="glyph", n=300)
            s.ng += 300
            for i in range(n):
                s.add(k + "set")
                s.add("fill", kind="set", set=f, h=i + 1, base=i % 40, n=255)
            if n in (28, 51):
                # 28 * 2297 = 64316, 51 * 1277 = 65127: fill up to 65535 exactly, and one more
                s.add(k + "set")
                room = 65535 - (28 * 2297 if k == "r" else 51 * 1277) - 2
                w = 4 if k == "r" else 2
                a, c = 0, 0
                while (room - a * (w + 1)) % w:
                    a += 1
                c = (room - a * (w + 1)) // w
                for i in range(a):
                    s.add(k + "range", h=n + 1, a=i + 1, c=i + 2)
                for i in range(min(c, 255)):
                    s.add(k + "list", h=n + 1, v=i + 1)
                s.build(False)
                if c <= 255:
                    s.add("un" + k + "range" if a else "un" + k + "list", **(dict(h=n + 1, a=1, c=2) if a else dict(h=n + 1, v=1)))
                    s.add(k + "list", h=n + 1, v=290)
                    s.add(k + "list", h=n + 1, v=291)
            done(s, "limit-set-bytes")
    for span in (254, 255, 256, -1):
        s = sess(2)
        s.add("fill", kind="glyph", n=300)
        s.ng += 300
        s.add("gset")
        s.add("grange", h=1, a=20, c=20 + span)
        done(s, "limit-glyph-range")
        s = sess(2)
        s.add("rset")
        s.add("rrange", h=1, a=0x10FF00, c=0x10FF00 + span)
        done(s, "limit-rune-range", raw=True)
    # rules
    s = sess(3)
    s.add("gset")
    s.add("gset")
    s.add("glist", h=2, v=3)
    s.gs = 2
    for n in (1, 14, 15, 16, 17, 30, 31, 45, 46, 240, 254, 255, 256):
        s.add("urule", v=65 + n, seq=[1000 + (i * 7919) % 50021 for i in range(n)])
        for kind in ("glyphs", "sets", "alternating", "set-last", "set-first"):
            for part in ((0,) if n > 50 else (0, 1, 2)):
                lens = [0, n, 0] if part == 0 else [n, 1, 0] if part == 1 else [0, 1, n]
                if sum(lens) > 300 or max(lens) > 255:
                    continue
                t = sum(lens)
                els = [(-(1 + i % 2) if kind == "sets" or (kind == "alternating" and i % 2) or (kind == "set-last" and i % 16 == 15) or (kind == "set-first" and i % 15 == 0) else 1 + i % 3) for i in range(t)]
                s.add("grule", lens=lens, els=els, out=[1 + i % 3 for i in range(rng.choice([1, lens[1]]))])
    done(s, "limit-rules", raw=True)
    s = sess(3)
    for lens in ([100, 100, 55], [100, 100, 56], [254, 1, 0], [255, 1, 0], [0, 1, 254], [0, 1, 255], [0, 255, 0], [85, 85, 85], [86, 85, 85], [255, 255, 2]):
        s.add("grule", lens=lens, els=[1 + i % 3 for i in range(sum(lens))], out=[2])
        s.add("grule", lens=lens, els=[1 + i % 3 for i in range(sum(lens) % 256)], out=[2])
    done(s, "limit-rules", raw=True)
    # metrics
    for over in ([("asc", 1), ("upper", 0), ("mid", 0), ("desc", 0)], [("asc", 255), ("desc", 255), ("xasc", 254), ("xdesc", 255)], [("asc", 9), ("xasc", 9)], [("xasc", 8)],
                 [("upper", 10)], [("mid", 10)], [("upper", 5), ("mid", 6)], [("asc", 0)], [("vinter", 1)]):
        s = sess(1)
        for f, v in over:
            s.metric(f, v)
        for y0, y1 in ((-1, 0), (0, 0), (0, 1), (-256, -255), (254, 255), (-1, 256), (-9, 5), (-510, 0), (-509, -1), (-18, 0), (0, 510)):
            s.add("glyph", rect=[0, y0, 1, y1], outer=[0, y0, 1, y1], fill=0, px=[] if y0 == y1 else [[0, y0, 255]] + ([[0, y1 - 1, 9]] if y1 > y0 + 1 else []))
        s.ng = 1
        s.build()
        s.setvert(True)
        done(s, "limit-metrics", raw=True)
    # vertical metrics while the vertical layout comes and goes
    s = sess(1)
    for vert in (False, True, False, True, True):
        s.setvert(vert)
        for f, v in (("vlw", 0), ("vlg", 0), ("vlw", 1), ("vlg", 1), ("vlw", 255), ("vlw", 0), ("vlg", 200), ("vinter", 1), ("vinter", 0), ("vlg", 0)):
            s.metric(f, v)
        s.build()
    done(s, "limit-metrics", raw=True)
    # glyph sizes: everything the mask encoding has to move over
    s = sess(1)
    for r in ([0, 0, 255, 5], [0, 0, 256, 1], [0, 0, 300, 1], [-300, -1, 0, 0], [-128, -1, 128, 0], [-129, -2, -127, 0], [127, -1, 129, 0], [500, 0, 510, 2], [1000, -3, 1001, 2], [-1000, -3, -999, 2]):
        w = r[2] - r[0]
        s.add("glyph", rect=r, outer=r, fill=0, px=[[x, y, 255 if (x + y) % 3 else 40] for y in range(r[1], r[3]) for x in (range(r[0], r[2]) if w < 20 else (r[0], r[0] + 1, (r[0] + r[2]) // 2, r[2] - 1))])
    s.ng = 11
    s.add("gname", g=3, s=b2l("wide"))
    s.names.append("wide")
    done(s, "limit-masks", raw=True)
    # names
    s = sess(0)
    s.add("fill", kind="glyph", n=300)
    s.ng = 300
    for i in range(300):
        s.add("gname", g=1 + (i * 7) % 300, s=b2l(("%x-" % i).strip("-") + ("z" * (i % 30 if i % 2 else 0))))
        s.names.append(("%x-" % i).strip("-"))
    done(s, "limit-names")
    # kerning: all pairs of a font
    s = sess(0)
    s.add("fill", kind="glyph", n=9)
    s.ng = 9
    prs = [(a, c) for a in range(1, 10) for c in range(1, 10)]
    rng.shuffle(prs)
    for a, c in prs:
        s.add("kern", a=a, c=c, v=(a * 31 + c * 17) % 256 - 128)
    s.pairs = prs
    done(s, "limit-kern", raw=True, many=True)
    s.ops.pop()
    data = [0, 2, 0, 1, 65, 1, 66, 100, 200] + [81, 0, 0]
    for a, c in prs:
        data += [a - 1, 0, c - 1, 0, 1 + (a + c) % 2, 0]
    data += [81, 0, 0]
    for a, c in reversed(prs):
        data += [a - 1, 0, c - 1, 0, 1 + (a * c) % 2, 0]
    s.add("edition", data=data + [0], whole=True)
    done(s, "limit-kern", raw=True, many=True)
    return runs

def big_limits(ctx):
    """counts that take long to reach"""
    rng = ctx.rng
    runs = []
    s = Session(rng, 0)
    s.glyph_plain()
    s.add("fill", kind="urule", n=65534)
    s.add("urule", v=67, seq=[70, 71])
    s.add("urule", v=67, seq=[70, 71])
    s.build(False)
    runs.append(s.run("limit-urules"))
    s = Session(rng, 0)
    s.glyph_plain()
    s.add("fill", kind="glyph", n=56787)
    s.ng = 56788
    s.glyph_plain()
    s.glyph_plain()
    s.add("gname", g=56789, s=b2l("last"))
    s.add("kern", a=56789, c=1, v=-9)
    s.add("map", cp=99, g=56789)
    s.names, s.cps, s.pairs = ["last"], [99], [(56789, 1)]
    s.build(False)
    runs.append(s.run("limit-glyphs"))
    for n in (56788, 56789):
        s = Session(rng, 0)
        s.glyph_plain()
        s.add("fill", kind="map", n=n, base=100)
        s.add("map", cp=99, g=1)
        s.cps = [99, 100, 101, 100 + n, 101 + n]
        s.build(False)
        runs.append(s.run("limit-map"))
    # sizes: tables of less than 16 MiB, fonts of at most 32 MiB
    def wide(s, n):
        s.add("setting", s=b2l("s"), opts=[b2l("w%d" % i) for i in range(254)])
        s.add("switch", keys=[0])
        s.add("fill", kind="wide", sw=0, cases=254, base=1000, n=n)
        s.settings = [254]
    for n in (255, 257):
        s = Session(rng, 0)
        for _ in range(3):
            s.glyph_plain()
        wide(s, n)
        s.cps = [1001, 1000 + n, 1001 + n]
        s.build(False)
        runs.append(s.run("limit-map-bytes"))
    def noise(s, n):
        s.metric("asc", 200)
        s.metric("desc", 200)
        s.add("fill", kind="noise", up=100, n=n)
    for n in (100, 290) if ctx.quick else (20, 60, 80, 100, 130, 200, 280, 290):
        s = Session(rng, 0)
        noise(s, n)
        s.build(False)
        runs.append(s.run("limit-mask-bytes"))
    s = Session(rng, 0)
    for _ in range(3):
        s.glyph_plain()
    noise(s, 84)
    wide(s, 250)
    s.add("fill", kind="long", n=12500)
    s.build(False)
    runs.append(s.run("limit-font-bytes"))
    for n in ((16300,) if ctx.quick else (13000, 16200, 16300)):
        s = Session(rng, 0)
        s.glyph_plain()
        s.add("fill", kind="long", n=n)
        s.build(False)
        runs.append(s.run("limit-rule-bytes"))
    return runs

def glyph_plain(self):
    self.ng += 1
    self.add("glyph", rect=[0, -2, 2, 1], outer=[0, -2, 2, 1], fill=0, px=[[0, -2, 255], [1, 0, 255]])
Session.glyph_plain = glyph_plain

# --- sequences of operations from the specification -------------------------------

def generated(ctx, themes, n):
    """operation sequences of the themes, one for every (state, operation), a sample of n"""
    seqs = [g for g in ctx.generate("Gen_Builder", cfg=ctx.n("Gen_Builder.cfg", "Gen_Builder_T.cfg")) if g["theme"] in themes]
    if n and len(seqs) > n:
        seqs = ctx.rng.sample(seqs, n)
    runs, ops = [], []
    for i, g in enumerate(seqs):
        ops += [dict(op="b.new")] + g["ops"]
        if g["theme"] == "rules":
            ops.append(dict(op="b.sets"))
        if g["theme"] == "glyphs":
            ops.append(dict(op="b.colors", ask=[[65, 66], [66], [255], [67]]))
        lookups = [dict(cp=c, vals=v) for c in (31, 32, 65) for v in ([0, 0, 0], [1, 0, 0])] if g["theme"] == "map" else []
        # setting values that exist whatever was defined: one setting of two options, one of one
        if g["theme"] == "map":
            ns = sum(1 for o in g["ops"] if o["op"] == "b.setting")
            two = [o for o in g["ops"] if o["op"] == "b.setting" and o["opts"] and o["s"] != [45]]
            opts, seen = [], []
            for o in two:
                if o["s"] not in seen:
                    seen.append(o["s"])
                    opts.append(len(o["opts"]))
            vals = [[]]
            for k in opts:
                vals = [v + [x] for v in vals for x in range(k)]
            lookups = [dict(cp=c, vals=v) for c in (31, 32, 65) for v in vals]
        ops.append(dict(op="b.build", names=[[97], [97, 45, 98], [98]], lookups=lookups, kerns=[[a, c] for a in range(3) for c in range(3)],
                        raw=True, checks=False, chunkings=[]))
        if len(ops) > 250 or i == len(seqs) - 1:
            runs.append(dict(ops=ops, tag="generated"))
            ops = []
    ctx.cov["sequences"] = len(seqs)
    return runs

ALL = ("map", "rules", "kern", "head", "glyphs")

def C01(ctx):
    ctx.model_check("MC_Builder", ctx.n("MC_Builder.cfg", "MC_Builder_T.cfg"))
    runs = sessions(ctx, ctx.n(400, 4000), [0, 0, 0.05, 0.15], checks=False) + generated(ctx, ALL, ctx.n(2500, 0)) + limits(ctx)
    if not ctx.quick:
        runs += big_limits(ctx)
    ctx.validate("Trace_Builder", ctx.drive("world", runs), kind="builder")
    ctx.assumptions.append("unimplemented operations (NewFrom, Unmap, AddUtf8RewriteRule, ExportEditionData, ValidateEditionData) are not called")
    chk_bulk.built(ctx)

def C04(ctx):
    ctx.model_check("MC_Builder", ctx.n("MC_Builder.cfg", "MC_Builder_T.cfg"))
    runs = sessions(ctx, ctx.n(400, 4000), [0.3, 0.6, 0.9]) + generated(ctx, ALL, ctx.n(2500, 0)) + limits(ctx) + big_limits(ctx)
    ctx.validate("Trace_Builder", ctx.drive("world", runs), kind="builder")
    ctx.assumptions.append("unimplemented operations (NewFrom, Unmap, AddUtf8RewriteRule, ExportEditionData, ValidateEditionData) are not called")
    ctx.assumptions.append("fonts of 16 MiB and more are judged by lower and upper bounds of the size of their encoding")

def editions(ctx, n):
    rng = ctx.rng
    runs = []
    for i in range(n):
        s = Session(rng, 0.05)
        for _ in range(rng.choice([0, 1, 2, 4])):
            s.glyph_plain()
        if rng.random() < 0.4:
            s.setvert(True)
        for _ in range(rng.choice([0, 2, 5])):
            s.kern()
        if s.ng:
            s.build(False)
        data = edition(rng, s)
        style = i % 5
        def load(d, whole=True, **kw):
            s.add("edition", data=d, whole=whole, **kw)
        if style == 0:         # everything cut off at every byte
            cuts = range(len(data)) if len(data) < 120 else sorted(rng.sample(range(len(data)), 120))
            for k in cuts:
                load(data[:k])
                if s.ng and rng.random() < 0.08:
                    s.build(False)
        elif style == 1:       # every byte changed
            for k in range(len(data)) if len(data) < 120 else sorted(rng.sample(range(len(data)), 120)):
                d = list(data)
                d[k] = rng.choice([0, 1, 255, d[k] ^ 1, (d[k] + 1) % 256, 45, 32])
                load(d)
                if s.ng and rng.random() < 0.15:
                    s.build(False)
        elif style == 2:       # damage to the stream, at every offset
            for k in range(60):
                load(data, whole=False, damage=rng.choice(["id", "sig", "cut", "fail", "flip", "tail"]), at=k if k < 40 else rng.randint(0, 5000))
                if rng.random() < 0.1:
                    load(data)
        elif style == 3:       # insertions, repetitions, chunks
            for k in range(30):
                d = list(data)
                p = rng.randint(0, len(d))
                if rng.random() < 0.5:
                    d.insert(p, rng.randint(0, 255))
                else:
                    d += d[p:]
                load(d, chunks=rng.choice([[1], [2, 3], [10], [1023, 1]]), eof=rng.random() < 0.5)
                if rng.random() < 0.3:
                    load(data, empty=2)
                    if s.ng:
                        s.build(False)
        else:                  # a history of loads, own pairs and builds
            for k in range(25):
                rng.choice([s.edition, s.edition, s.kern, s.kern, s.clear, lambda: s.glyph_plain()])()
                if s.ng and rng.random() < 0.4:
                    s.build(rng.random() < 0.5)
        load(data)
        if s.ng:
            s.build()
        s.clear()
        if s.ng:
            s.build(False)
        runs.append(s.run("edition-%d" % style))
    # many of everything an edition describes
    s = Session(rng, 0)
    s.add("fill", kind="glyph", n=300)
    s.ng = 300
    def nm(i):
        t = b2l("c %d" % i)
        return [len(t)] + t
    for ncat, nc, nh, nv in [(255, 0, 0, 0), (0, 300, 1000, 0), (3, 1000, 70000 if not ctx.quick else 2000, 300), (0, 5000, 10, 10)]:
        d = [ncat] + sum((nm(i) for i in range(ncat)), []) + [7, 1] * ncat + [nc & 255, nc >> 8]
        for i in range(nc):
            d += nm(i)
        d += [(i * 37) % 256 for i in range(nc)]
        for k in (nh, nv):
            d += [k & 255, (k >> 8) & 255, k >> 16]
            for i in range(k):
                a, c, x = (i * 7) % 300, (i // 300 + i) % 300, 1 + i % max(nc, 1)
                d += [a & 255, a >> 8, c & 255, c >> 8, x & 255, x >> 8]
        s.add("edition", data=d + [0], whole=True, chunks=[rng.choice([1, 700, 1024, 4096])])
        s.pairs = [(1 + (i * 7) % 300, 1 + (i // 300 + i) % 300) for i in rng.sample(range(max(nh, 1)), min(40, max(nh, 1)))]
        s.build(False, many=True)
        s.add("edition", data=d[:-5], whole=True)
        s.build(False, many=True)
    runs.append(s.run("edition-large"))
    return runs

def C20(ctx):
    ctx.model_check("MC_Builder", ctx.n("MC_Builder.cfg", "MC_Builder_T.cfg"))
    runs = editions(ctx, ctx.n(250, 2500)) + sessions(ctx, ctx.n(100, 1000), [0, 0.1], themes=["kern"]) + generated(ctx, ("kern",), 0)
    ctx.validate("Trace_Builder", ctx.drive("world", runs), kind="builder")

def roundtrips(ctx, n):
    """fonts from the builder, exported, parsed back and checked against the format"""
    ctx.validate("Trace_Builder", ctx.drive("world", sessions(ctx, n, [0], themes=["all"], checks=True, steps=25)), kind="builder")
