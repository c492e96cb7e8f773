"""C02, C03, C16, C18: the font format, parsing, export, lookups, sets and rules."""
import chk_bulk
import string
import ggwriter as gg, fontgen as fg
from chk_raster import rand_op

NAMECH = string.ascii_letters + string.digits + "-_ .~"

def rand_name(rng, lo=1, hi=12, chars=NAMECH):
    return "".join(rng.choice(chars) for _ in range(rng.randint(lo, hi)))

def rand_names(rng, n, hi=32):
    out = set()
    style = rng.choice(["any", "prefix", "short"])
    while len(out) < n:
        if style == "any" or len(out) == 0 or (style == "short" and rng.random() < 0.1):
            out.add(rand_name(rng, 1, hi))
        elif style == "prefix":
            b = rng.choice(sorted(out))
            out.add((b + rand_name(rng, 1, 3))[:hi] if rng.random() < 0.6 else (b[:rng.randint(1, len(b))] + rand_name(rng, 0, 2))[:hi])
        else:
            out.add(rand_name(rng, 1, 3 if n < 2000 else 5))
    return sorted(out)

def mask_ops(rng):
    """a defined stream without the reserved palette value"""
    code = []
    for _ in range(rng.choice([0, 1, 1, 2, 4])):
        op = rand_op(rng, False, False)
        if op[0] & 1 and op[1] == 0:
            op[1] = 5
        code += op
    return code

def rand_metrics(rng):
    vert = rng.choice([0, 0, 1])
    asc = rng.choice([1, 9, 20, 255])
    m = dict(vert=vert, mono=rng.choice([0, 0, 7, 255]), ascent=asc, extraAscent=rng.choice([0, asc // 2, asc]), descent=rng.choice([0, 5, 255]),
             extraDescent=rng.choice([0, 3]), uppercase=rng.choice([0, asc]), midline=rng.choice([0, 4]), horzInter=rng.choice([0, 1, 255]),
             vertInter=rng.choice([0, 2]) if vert else 0, lineGap=rng.choice([0, 1, 200]), vertLineWidth=rng.choice([0, 9]), vertLineGap=rng.choice([0, 2]))
    return m

def rand_set(rng, wide, big=False):
    top = 0x10FFFF if wide else 60000
    nr = rng.choice([0, 1, 2, 3] + ([255, 40] if big else []))
    nl = rng.choice([1, 2, 3, 5] + ([255, 100] if big else [])) if nr == 0 or rng.random() < 0.6 else 0
    return dict(ranges=[(rng.choice([rng.randint(0, top - 255), rng.randint(0, 300)]), rng.choice([0, 1, 2, 255, rng.randint(0, 255)])) for _ in range(nr)],
                list=[rng.choice([rng.randint(0, top), rng.randint(0, 300), top]) for _ in range(nl)])

def rand_rule(rng, wide, nconds, nsets):
    lens = [rng.choice([0, 0, 1, 2]), rng.choice([1, 2, 3, 17]), rng.choice([0, 0, 1, 2])]
    top = 0x10FFFF if wide else 60000
    els = []
    for n in lens:
        for _ in range(n):
            els.append(["s", rng.randrange(nsets)] if nsets and rng.random() < 0.4 else ["e", rng.randint(0, top)])
    return dict(cond=rng.choice([255] + list(range(nconds))), head=lens[0], body=lens[1], tail=lens[2],
                out=[rng.randint(0, top) for _ in range(rng.choice([1, 1, 2, 9, 60]))], els=els)

def rand_font(rng, small=False):
    ng = rng.choice([1, 2, 3]) if small else rng.choice([1, 2, 5, 12, 40])
    m = rand_metrics(rng)
    nopts = fg.rand_settings(rng, 0, 2 if small else 5)
    if small:
        nopts = [min(n, 3) for n in nopts]
    sw = fg.rand_switches(rng, nopts, rng.choice([0, 1]) if small else rng.choice([0, 1, 3]), 6 if small else 60) if nopts else []
    mp = fg.rand_mapping(rng, sw, nopts, rng.choice([0, 1, 3]) if small else rng.choice([0, 1, 5, 30]), ng + 300, 3)
    conds = []
    for _ in range(rng.choice([0, 1, 2])):
        if nopts:
            conds.append(list(fg.rand_formula(rng, len(nopts), nopts, 2)))
    words = rand_names(rng, rng.choice([0, 1, 3]) if small else rng.choice([0, 1, 10, 60]), 8 if small else 32)
    d = dict(glyphs=ng, metrics=m, ver=(rng.choice([0, 1, 65535]), rng.choice([0, 1, 300])),
             id=rng.choice([0x1357F02468ACE9B5, 0x9E3779B97F4A7C15, 0xD1B54A32D192ED03]),
             dates=[(rng.choice([0, 2024, 65535]), rng.choice([0, 1, 12, 77]), rng.choice([0, 31, 200])) for _ in range(3)],
             name=rand_name(rng, 1, 5 if small else rng.choice([5, 255])), family=rand_name(rng, 0, 3 if small else rng.choice([3, 255])),
             author=rand_name(rng, 0, 3 if small else rng.choice([3, 255])), about=rand_name(rng, 0, 4 if small else rng.choice([4, 300, 2000])),
             settings=[[n, [rng.choice([rng.randint(0, 255), rng.randrange(max(1, len(words)))]) for _ in range(nopts[i])]]
                       for i, n in enumerate(rand_names(rng, len(nopts), 6 if small else 32))],
             words=words, switches=sw, mapping=mp, conds=conds)
    pl = []
    for _ in range(ng):
        p = [rng.choice([0, 5, 255, rng.randint(0, 255)]) for _ in range(4 if m["vert"] else 1)]
        pl.append(bytes(p + (mask_ops(rng) if not small or rng.random() < 0.5 else [])))
    d["masks"] = pl
    left = 255
    for k, w in (("dyes", 1), ("palettes", 4)):
        cs = []
        for _ in range(rng.choice([0, 1, 2]) if small else rng.choice([0, 1, 3, 7])):
            n = rng.choice([1, 2, 3]) if small or rng.random() < 0.8 else rng.choice([30, 100, left])
            n = min(n, left)
            if n == 0:
                break
            left -= n
            cs.append([rand_name(rng, 1, 3 if small else 12), [rng.randint(0, 255) if w == 1 else [rng.randint(0, 255) for _ in range(4)] for _ in range(n)]])
        d[k] = cs
    nn = rng.choice([0, 1, ng, rng.randint(0, ng)])
    names = rand_names(rng, nn, 4 if small else 32)
    gl = list(range(ng))
    rng.shuffle(gl)
    d["names"] = dict(zip(names, gl))
    for k, wide in (("rsets", True), ("gsets", False)):
        d[k] = [rand_set(rng, wide) for _ in range(rng.choice([0, 1, 2]) if small else rng.choice([0, 1, 4]))]
    for k, wide, s in (("urules", True, "rsets"), ("grules", False, "gsets")):
        d[k] = [rand_rule(rng, wide, len(conds), len(d[s])) for _ in range(rng.choice([0, 0, 1, 2]) if small else rng.choice([0, 1, 2, 5]))]
        if small:
            for r in d[k]:
                r["out"] = r["out"][:3]
    for k in ("kern", "vkern"):
        n = min(ng * ng, rng.choice([0, 1, 2]) if small else rng.choice([0, 1, 3, 20, 100]))
        prs = [(a, b) for a in range(ng) for b in range(ng)]
        d[k] = {p: rng.choice([1, -1, 127, -128, 0, rng.randint(-128, 127)]) for p in rng.sample(prs, n)}
    return d

def b2l(s):
    return list(s.encode() if isinstance(s, str) else s)

def name_queries(rng, names):
    qs = [b2l(n) for n in names[:60]]
    for n in rng.sample(names, min(20, len(names))):
        b = b2l(n)
        qs += [b[:-1], b + [rng.randint(1, 255)], b[:-1] + [(b[-1] + rng.choice([1, 255])) % 256], b[1:], [c ^ 32 for c in b], b + [0]]
    qs += [[], [0], [255], [45], b2l("nothing-like-that"), [97] * 33, b2l("a"), b2l("Z")]
    return qs

def kern_queries(rng, ng, pairs):
    qs = [list(p) for p in pairs[:80]]
    for a, b in rng.sample(pairs, min(12, len(pairs))):
        qs += [[b, a], [a, b + 1], [a + 1, b], [max(0, a - 1), b], [a, max(0, b - 1)]]
    qs += [[0, 0], [ng - 1, ng - 1], [0, ng - 1], [65535, 65535], [56789, 0], [0, 56789], [ng, ng]]
    for _ in range(8):
        qs.append([rng.randint(0, ng), rng.randint(0, ng)])
    return qs

def dump_args(rng, d):
    nopts = [len(s[1]) for s in d.get("settings", [])]
    cps = sorted(d.get("mapping", {}))
    lk = []
    for cp in rng.sample(cps, min(40, len(cps))):
        lk.append(dict(cp=cp, vals=fg.rand_vals(rng, nopts)))
    for cp in [0, 31, 32, 65, 0x10FFFF, 0x7FFFFFFF, -1] + [c + 1 for c in cps[:4]] + [c - 1 for c in cps[-4:]]:
        lk.append(dict(cp=cp, vals=fg.rand_vals(rng, nopts)))
    return dict(names=name_queries(rng, sorted(d.get("names", {}))), lookups=lk,
                kerns=kern_queries(rng, d.get("glyphs", 3), sorted(set(d.get("kern", {})) | set(d.get("vkern", {})))))

def base_op(raw, at=0, n=0):
    return dict(op="base", b=list(raw), at=at, n=n)

CHUNKS = [[1], [2], [1, 7], [3, 1, 2], [1024], [6, 10, 1], [5], [512, 511, 513], [4096], [17, 1, 1]]

def parse(how="reader", **kw):
    return dict(op="parse", how=how, **kw)

def rand_reader(rng):
    kw = dict(how=rng.choice(["reader", "reader", "reader", "path", "fs"]))
    if rng.random() < 0.6:
        kw["chunks"] = rng.choice(CHUNKS)
    if rng.random() < 0.4:
        kw["eof"] = True
    if rng.random() < 0.3:
        kw["empty"] = rng.choice([2, 3, 7])
    return kw

def rand_packing(rng, size):
    kw = {}
    if rng.random() < 0.6:
        kw["level"] = rng.choice([0, 1, 6, 9, -2])
    if rng.random() < 0.3:
        kw["members"] = sorted(rng.randint(0, size) for _ in range(rng.choice([1, 1, 2, 4])))
    if rng.random() < 0.2:
        kw["comment"] = True
    return kw

# --- C02 ------------------------------------------------------------------------

def C02(ctx):
    ctx.model_check("MC_Format", ctx.n("MC_Format.cfg", "MC_Format_T.cfg"))
    rng = ctx.rng
    runs = []
    # every font value of the model, written by the model
    for v in ctx.generate("Gen_Format", cfg=ctx.n("Gen_Format.cfg", "Gen_Format_T.cfg")):
        ask = dict(names=[[97], [98], [97, 98], [], [99]], lookups=[dict(cp=c, vals=[0, 1]) for c in (32, 65, 66, 70000)],
                   kerns=[[0, 0], [0, 1], [1, 0], [1, 1], [2, 0]])
        runs.append(dict(ops=[base_op(v), parse(**rand_reader(rng)), dict(op="dump", **ask), dict(op="export", chunkings=[[3], [1, 9]], **ask)],
                         tag="model-font"))
    for i in range(ctx.n(150, 1500)):
        d = rand_font(rng, rng.random() < 0.4)
        raw = gg.raw(d)
        ask = dump_args(rng, d)
        ops = [base_op(raw), parse(**rand_reader(rng), **rand_packing(rng, len(raw))), dict(op="dump", **ask),
               dict(op="export", chunkings=rng.sample(CHUNKS, 2), **ask)]
        for _ in range(rng.choice([1, 3])):
            ops.append(parse(**rand_reader(rng), **rand_packing(rng, len(raw))))
        runs.append(dict(ops=ops, tag="random-font"))
    recorded = ctx.drive("world", runs)
    ctx.validate("Trace_Format", recorded, kind="format")
    built(ctx, runs=ctx.n(60, 600))
    chk_bulk.fonts(ctx)

def built(ctx, runs):
    """fonts from the builder: see chk_builder"""
    try:
        import chk_builder
    except ImportError:
        return
    chk_builder.roundtrips(ctx, runs)

# --- C03 ------------------------------------------------------------------------

def edits(*es):
    return [dict(at=a, **{"del": n}, ins=list(x)) for a, n, x in es]

def group(base, ops, tag, k=60):
    return [dict(ops=[base] + ops[i:i + k], tag=tag) for i in range(0, len(ops), k)]

def boundaries(rng):
    """(raw data) around every documented bound of every section"""
    e = lambda lens, enc: b"".join(enc(sum(lens[:i + 1])) for i in range(len(lens)))
    out = []
    def font(glyphs=3, **over):
        out.append(gg.raw(dict(glyphs=glyphs, over=over)))
    u8, u16, u24 = gg.u8, gg.u16, gg.u24
    def tab(n, total, cw, ew, pre=0):
        """a table of n chunks of total bytes (only the last end offset matters here)"""
        return cw(n) + bytes(pre * n) + b"".join(ew(min(i, total)) for i in range(1, n)) + (ew(total) + bytes([65]) * total if n else b"")
    for n, t in [(1, 0), (1, 1), (2, 1), (2, 2), (1, 32), (1, 33), (3, 96), (3, 97), (255, 255), (255, 8160), (255, 8161), (200, 6400), (255, 254), (0, 0)]:
        font(words=tab(n, t, u8, u16))
        names = tab(n, t, u8, u16)
        if n:
            font(settings=names + b"".join(u16(i) for i in range(1, n)) + u16(n) + bytes(n))
    for n, t in [(1, 0), (1, 1), (2, 1), (2, 2), (2, 700), (255, 255), (255, 254)]:
        font(settings=tab(n, n, u8, u16) + b"".join(u16(i) for i in range(1, n)) + u16(t) + bytes(t))
    st = tab(3, 3, u8, u16) + u16(1) + u16(2) + u16(3) + bytes(3)
    for n, t in [(1, 0), (1, 1), (1, 3), (1, 4), (2, 6), (2, 7), (254, 254), (254, 762), (254, 763), (254, 253), (255, 255), (0, 0)]:
        font(settings=st, switches=tab(n, t, u8, u16))
    font(settings=u8(0), switches=tab(1, 1, u8, u16))
    for n, t in [(1, 2), (1, 3), (2, 5), (2, 6), (3, 9), (1, 70000), (300, 900), (300, 899)]:
        font(mapping=tab(n, t, u16, u24, 4))
    for k in ("conds", "rsets", "gsets"):
        for n, t in [(1, 1), (1, 2), (2, 3), (2, 4), (255, 510), (255, 509), (1, 65535), (0, 0)]:
            font(**{k: tab(n, t, u8, u16)})
    for k in ("urules", "grules"):
        for n, t in [(1, 7), (1, 8), (2, 15), (2, 16), (1, 4096), (1, 4097), (2, 8192), (2, 8193), (300, 2400), (300, 2399)]:
            font(**{k: tab(n, t, u16, u24)})
    for k in ("kern", "vkern"):
        for ng, n in [(1, 0), (1, 1), (1, 2), (2, 4), (2, 5), (3, 9), (3, 10), (16, 256), (16, 257)]:
            font(glyphs=ng, **{k: u24(n) + bytes(5 * n)})
        font(**{k: u24(0xFFFFFF)})
    for n, t in [(0, 0), (1, 0), (1, 1), (1, 32), (1, 33), (3, 3), (3, 96), (3, 97), (4, 4), (2, 0)]:
        font(names=u16(n) + bytes(2 * n) + b"".join(u24(min(i, t)) for i in range(1, n)) + (u24(t) + bytes([66]) * t if n else b""))
    for vert in (0, 1):
        for n in (1, 3):
            p = 4 if vert else 1
            for t in (n * p - 1, n * p, n * p + 1, 300):
                d = dict(glyphs=n, metrics=dict(vert=vert), over=dict(masks=b"".join(u24(i * p) for i in range(1, n)) + u24(t) + bytes(t)))
                out.append(gg.raw(d))
    # colors: counts and totals
    def colors(n, total, w, names=None):
        names = n if names is None else names
        if n == 0:
            return u8(0)
        return (u8(n) + b"".join(u8(min(i, total)) for i in range(1, n)) + u8(total) + bytes(total * w)
                + b"".join(u16(i) for i in range(1, n)) + u16(names) + b"x" * names)
    for n, t in [(0, 0), (1, 0), (1, 1), (2, 1), (2, 2), (1, 255), (255, 255), (255, 254), (3, 250)]:
        font(dyes=colors(n, t, 1), palettes=u8(0))
        font(dyes=u8(0), palettes=colors(n, t, 4))
    for a, b in [(254, 1), (255, 1), (1, 254), (1, 255), (128, 128), (127, 128), (255, 0), (200, 56)]:
        font(dyes=colors(1, a, 1), palettes=colors(1, b, 4) if b else u8(0))
    for n, t, l in [(2, 2, 1), (2, 2, 2), (2, 2, 600), (1, 1, 0), (1, 1, 65535)]:
        font(dyes=colors(n, t, 1, l), palettes=u8(0))
        font(palettes=colors(n, t, 4, l))
    # metrics
    for i, vals in [(2, [0, 1, 2, 255]), (4, [0, 1, 255]), (5, [0, 9, 10, 255]), (11, [0, 1]), (3, [0, 255]), (8, [0, 255]), (9, [0, 255])]:
        for v in vals:
            b = bytearray(dict(gg.sections(dict(glyphs=3)))["metrics"])
            b[i] = v
            out.append(gg.raw(dict(glyphs=3, over=dict(metrics=bytes(b)), masks=[bytes([1, 2, 3, 4])] * 3)))
    out.append(gg.raw(dict(glyphs=3, metrics=dict(vert=1, vertInter=4))))
    font(metrics=u16(0) + bytes([0, 0, 9]) + bytes(10), masks=b"")
    # format version and header
    for v in (0, 1, 2, 3, 258, 0x02000002, 0x01000000 * 2):
        out.append(gg.raw(dict(fmt=v)))
    for s in ("", "n", "n" * 255):
        out.append(gg.raw(dict(name=s, family=s, author=s, about=s * 257 if len(s) > 1 else s)))
    # identifiers of all kinds: runs, repetitions and spread bits
    for _ in range(250):
        r = rng.random()
        if r < 0.5:
            b = [rng.choice([0, 0, 0, 27, 228, 255, rng.randint(0, 255)]) for _ in range(8)]
        elif r < 0.8:    # around the threshold: few distinct patterns
            pats = [rng.choice([0, 0, 0, 0, 0, 0, 1, 2, 3]) for _ in range(32)]
            b = [sum(pats[4 * i + k] << (2 * k) for k in range(4)) for i in range(8)]
        else:
            b = [rng.randint(0, 255) for _ in range(8)]
        out.append(gg.raw(dict(over=dict(id=bytes(b)))))
    return out

def size_limits():
    """fonts whose data is just below, at and over the limit of 32 MiB"""
    out = []
    ng = 4000
    for delta in (-1, 0, 1, 5):
        for sec in ("kern", "vkern"):
            raw0 = gg.raw(dict(glyphs=ng, masks=[b"\0"] * ng, over={"kern": b"", "vkern": b""}))
            pad = 0
            n = ((32 << 20) - len(raw0) - 6) // 5
            about = (32 << 20) + delta - (len(raw0) + 6 + 5 * n)
            n, about = (n - 1, about + 5) if about < 0 else (n, about)
            d = dict(glyphs=ng, masks=[b"\0"] * ng, about="a" * about, over={"kern": gg.u24(n if sec == "kern" else 0), "vkern": gg.u24(n if sec == "vkern" else 0)})
            raw = gg.raw(d)
            at = len(raw) if sec == "vkern" else len(raw) - 3
            assert len(raw) + 5 * n == (32 << 20) + delta
            out.append((raw, at, 5 * n))
    return out

def C03(ctx):
    ctx.model_check("MC_Format", ctx.n("MC_Format.cfg", "MC_Format_T.cfg"))
    rng = ctx.rng
    runs = []
    # every proper prefix and some extensions of the fonts of the model
    for v in ctx.generate("Gen_Format", cfg=ctx.n("Gen_Format.cfg", "Gen_Format_T.cfg")):
        if ctx.quick and rng.random() < 0.6:
            continue
        step = ctx.n(3, 1)
        ops = [parse(edits=edits((k, len(v) - k, []))) for k in range(rng.randrange(step), len(v), step)]
        ops += [parse(edits=edits((len(v), 0, x)), **rand_reader(rng)) for x in ([0], [1], [0, 0], [255] * 9)]
        runs += group(base_op(v), [parse()] + ops, "model-cut", 80)
    for i in range(ctx.n(4, 30)):
        d = rand_font(rng, True)
        raw = gg.raw(d)
        n = len(raw)
        base = base_op(raw)
        ops = [parse()]
        # all cuts, and the cut data packed in all ways
        ops += [parse(edits=edits((k, n - k, [])), **(rand_reader(rng) if rng.random() < 0.2 else {})) for k in range(n)]
        ops += [parse(edits=edits((n, 0, [rng.randint(0, 255) for _ in range(k)])), **rand_packing(rng, n)) for k in (1, 1, 2, 3, 5, 6, 40, 1500)]
        # every byte changed
        for k in range(n):
            vals = {0, 1, 255, (raw[k] + 1) % 256, (raw[k] - 1) % 256, rng.randint(0, 255)}
            for x in rng.sample(sorted(vals), min(len(vals), ctx.n(2, 5))):
                ops.append(parse(edits=edits((k, 1, [x]))))
        # bytes removed, added, repeated, moved
        for _ in range(ctx.n(150, 600)):
            es, size = [], n
            for _ in range(rng.choice([1, 1, 2, 3])):
                at = rng.randint(0, size - 1)
                dl = min(size - at - 1, rng.choice([0, 0, 1, 2, 3, 8]))
                ins = [rng.choice([0, 1, 2, 255, rng.randint(0, 255)]) for _ in range(rng.choice([0, 1, 1, 2, 3, 9]))]
                es.append((at, dl, ins))
                size += len(ins) - dl
            ops.append(parse(edits=edits(*es), **(rand_reader(rng) if rng.random() < 0.2 else {})))
        runs += group(base, ops, "edited")
    for raw in boundaries(rng):
        runs.append(dict(ops=[base_op(raw), parse(**rand_reader(rng)), parse(edits=edits((len(raw) - 1, 1, []))), parse(edits=edits((len(raw), 0, [0])))],
                         tag="bound"))
    for raw, at, n in size_limits() if not ctx.quick else rng.sample(size_limits(), 4):
        runs.append(dict(ops=[base_op(raw, at, n), parse(level=1)], tag="size"))
    # the stream around the data
    for i in range(ctx.n(6, 60)):
        d = rand_font(rng, rng.random() < 0.7)
        raw = gg.raw(d)
        n = len(raw)
        ops = []
        for k in range(ctx.n(130, 600)):
            ops.append(parse(scut=k, fromend=True, **rand_packing(rng, n)))
            ops.append(parse(fail=k, fromend=True, **rand_packing(rng, n), **({"chunks": rng.choice(CHUNKS)} if k % 3 == 0 else {})))
        for k in range(0, 1000, ctx.n(20, 4)):
            ops.append(parse(scut=k, **rand_reader(rng)))
            ops.append(parse(fail=k))
        for k in range(24):
            ops.append(parse(flip=k, mask=1 << rng.randrange(8)))
            ops.append(parse(flip=k, mask=rng.randint(1, 255), fromend=True))
        for _ in range(ctx.n(60, 400)):
            ops.append(parse(flip=rng.randint(0, 4000), mask=1 << rng.randrange(8), **rand_packing(rng, n)))
        for t in ([0], [0] * 10, [31], [31, 139], [31, 139, 8], [31, 139, 8, 0, 0, 0, 0, 0, 0, 255], [116, 103, 103, 102, 110, 116], [10], [255] * 600):
            ops.append(parse(tail=t, **rand_reader(rng)))
        ops += [parse("fs", nostat=True), parse("fs", grow=33), parse("fs", grow=31)]
        runs += group(base_op(raw), ops, "stream")
    ctx.validate("Trace_Format", ctx.drive("world", runs), kind="format")
    chk_bulk.cuts(ctx)

# --- C16 ------------------------------------------------------------------------

def C16(ctx):
    ctx.model_check("Lookup", ctx.n("MC_Lookup.cfg", "MC_Lookup_T.cfg"))
    rng = ctx.rng
    runs = []
    for i in range(ctx.n(120, 1200)):
        big = rng.random() < 0.03
        n = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 33, 64, 100]) if not big else rng.choice([300, 900])
        ng = max(1, n, rng.choice([1, 3, 300]))
        names = rand_names(rng, n) if rng.random() < 0.8 else ["".join(chr(rng.choice([97, 98, 200, 255])) for _ in range(rng.randint(1, 9))) for _ in range(n)]
        gl = list(range(ng))
        rng.shuffle(gl)
        d = dict(glyphs=ng, names=dict(zip(sorted(set(names)), gl)), masks=[b"\7"] * ng)
        for k in ("kern", "vkern"):
            m = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 30, 63, 65]) if not big else rng.choice([500, 1500])
            m = min(m, ng * ng)
            side = max(1, int(m ** 0.5) + 1)
            gs = [rng.randrange(ng) for _ in range(rng.choice([side, side * 2, ng]))] if rng.random() < 0.6 else [g for g in (0, 1, 255, 256, ng - 1) if g < ng]
            prs = {(rng.choice(gs), rng.choice(gs)) for _ in range(m)}
            d[k] = {p: rng.choice([-128, 127, 1, -1, rng.randint(-128, 127), 0]) for p in prs}
        raw = gg.raw(d)
        qn = name_queries(rng, sorted(d["names"]))
        qk = kern_queries(rng, ng, sorted(set(d["kern"]) | set(d["vkern"])))
        ops = [base_op(raw), parse(), dict(op="names", names=qn), dict(op="kerns", pairs=qk)]
        runs.append(dict(ops=ops, tag="lookups"))
    # more names than 16 bits can address
    for n in [2200] if ctx.quick else [2100, 2200, 4000]:
        names = sorted({"%c%s-%05d" % (rng.choice("abcxyz"), "n" * rng.choice([22, 23, 24, 25]), k) for k in rng.sample(range(99999), n)})
        d = dict(glyphs=n, names=dict(zip(names, rng.sample(range(n), n))), masks=[b"\1"] * n)
        qn = names[:3] + names[-3:] + rng.sample(names, 60) + name_queries(rng, names[:2] + names[-2:])
        runs.append(dict(ops=[base_op(gg.raw(d)), parse(), dict(op="names", names=[x if isinstance(x, list) else list(x.encode()) for x in qn])], tag="many-names"))
    # no table of kerning at all, pairs of glyphs whose numbers need both bytes
    ng = 60000
    d = dict(glyphs=ng, masks=[b"\1"] * ng, kern={(a, b): (a * 7 + b) % 200 - 100 for a in (0, 255, 256, 257, 32768, 59999) for b in (0, 1, 255, 256, 32767, 32768, 59999)},
             vkern={(59999, 0): -5})
    if not ctx.quick:
        runs.append(dict(ops=[base_op(gg.raw(d)), parse(), dict(op="kerns", pairs=kern_queries(rng, ng, sorted(d["kern"])))], tag="wide"))
    ctx.validate("Trace_Format", ctx.drive("world", runs), kind="lookups", mem="4g")
    built(ctx, runs=ctx.n(30, 300))
    chk_bulk.lookups(ctx)

# --- C18 ------------------------------------------------------------------------

def raw_rule(rng, wide, size=None):
    w = 4 if wide else 2
    nout = rng.choice([0, 1, 2, 5, 255]) if rng.random() < 0.2 else rng.choice([1, 2, 3])
    tail = rng.choice([3, 4, 6, 11])
    lens = [rng.choice([0, 1, 9]), rng.choice([1, 2, 200]), rng.choice([0, 1, 40, 46])]    # at most 255 together
    elems = [rng.choice([rng.randint(0, 0x10FFFF if wide else 65535), 97, 0, 255, 256]) for _ in range(nout)]
    b = bytes([rng.choice([255, 0, 7])] + lens + [nout]) + b"".join((gg.u32 if wide else gg.u16)(x) for x in elems) + bytes(rng.randint(0, 255) for _ in range(tail))
    return b

def C18(ctx):
    ctx.model_check("MC_Format", ctx.n("MC_Format.cfg", "MC_Format_T.cfg"))
    rng = ctx.rng
    runs = []
    for i in range(ctx.n(150, 1500)):
        d = dict(glyphs=3)
        for k, wide in (("rsets", True), ("gsets", False)):
            d[k] = [rand_set(rng, wide, rng.random() < 0.1) for _ in range(rng.choice([0, 1, 2, 5, 9]))]
            if rng.random() < 0.05:
                d[k] = [dict(list=[rng.randint(0, 99)]) for _ in range(255)]
        for k, wide in (("urules", True), ("grules", False)):
            rs = [raw_rule(rng, wide) for _ in range(rng.choice([0, 1, 2, 6]))]
            for _ in range(rng.choice([0, 2])):     # almost equal rules
                if rs:
                    b = bytearray(rng.choice(rs))
                    r = rng.random()
                    if r < 0.3:
                        pass
                    elif r < 0.7:
                        b[-1 if rng.random() < 0.5 else rng.randrange(5 if b[4] == 0 else 1, len(b))] ^= rng.choice([1, 128])
                    elif r < 0.85:
                        b.append(rng.choice([0, b[-1]]))
                    elif len(b) > 9 + b[4] * 4:
                        b = b[:-1]
                    if sum(b[1:4]) <= 255:
                        rs.append(bytes(b))
            rng.shuffle(rs)
            d[k] = rs
        ok = all(5 + r[4] * w <= len(r) for k, w in (("urules", 4), ("grules", 2)) for r in d[k])
        if not ok:
            continue
        ops = [base_op(gg.raw(d)), parse(), dict(op="dump", names=[], lookups=[], kerns=[]), dict(op="equals")]
        for kind, k in (("rune", "rsets"), ("glyph", "gsets")):
            for j, s in list(enumerate(d[k]))[:6]:
                n = max(len(s.get("ranges", [])), len(s.get("list", [])))
                for stop in ([-1] + list(range(1, n + 2))) if n < 8 else [-1, 1, 2, n - 1, n, n + 1]:
                    ops.append(dict(op="set", kind=kind, i=j, stop=stop))
        runs.append(dict(ops=ops, tag="sets"))
    # tables of sets as long as they can be
    for kind, k, wide in (("rune", "rsets", True), ("glyph", "gsets", False)):
        sets, left = [], 65535
        for i in range(255):
            size = left - 2 * (254 - i) if i == 254 else max(2, min(left - 2 * (254 - i), rng.randint(240, 272)))
            w, v = (5, 4) if wide else (3, 2)
            nr = rng.randint(0, (size - 2) // w)
            nl = min(255, (size - 2 - nr * w) // v)
            nr = min(255, (size - 2 - nl * v) // w)
            top = 0x10FF00 if wide else 56000
            sets.append(dict(ranges=[[rng.randrange(top), rng.randrange(256)] for _ in range(nr)], list=[rng.randrange(top) for _ in range(nl)]))
            left -= 2 + nr * w + nl * v
        ctx.cov["longest_table_" + k] = 65535 - left
        ops = [base_op(gg.raw({"glyphs": 3, k: sets})), parse(), dict(op="dump", names=[], lookups=[], kerns=[])]
        ops += [dict(op="set", kind=kind, i=j, stop=-1) for j in (0, 127, 128, 253, 254)]
        runs.append(dict(ops=ops, tag="sets"))
    edges = [0, 1, 2, 255, 256, 32767, 32768, 56788, 56789, 65534, 65535]
    ranges = [dict(op="range", a=a, b=b, max=mx, xs=edges + [rng.randrange(65536) for _ in range(4)])
              for a in edges for b in edges for mx in (0, 1, 256, b, min(b + 1, 65535), 65535)]
    for i in range(0, len(ranges), 100):
        runs.append(dict(ops=ranges[i:i + 100], tag="ranges"))
    ctx.validate("Trace_Format", ctx.drive("world", runs), kind="sets")
    built(ctx, runs=ctx.n(30, 300))
    chk_bulk.rules(ctx)

# --- C23 ------------------------------------------------------------------------

ASK_JS = [0, 1, 2, 3, 4, 126, 127, 128, 129, 254, 255]

def probe_asks(rng, d, k):
    """k questions to the font described by d, most of them around the end of what it defines"""
    st = d.get("settings", [])
    ns, ng = len(st), d["glyphs"]
    num = dict(dye=len(d.get("dyes", [])), palette=len(d.get("palettes", [])), nopts=ns, opt=ns, set=ns, get=ns, switch=len(d.get("switches", [])),
               cond=len(d.get("conds", [])), rset=len(d.get("rsets", [])), gset=len(d.get("gsets", [])))
    num.update(eachdye=num["dye"], eachpalette=num["palette"])
    wide = dict(advance=ng, place=ng, mask=ng, urule=len(d.get("urules", [])), grule=len(d.get("grules", [])))
    cps = sorted(d.get("mapping", {}))
    asks = []
    def around(n, top):
        xs = [0, 1, n - 2, n - 1, n, n + 1, n + 2, n + 256, 127, 128, 253, 254, 255, top, rng.randrange(top + 1), rng.randrange(max(1, n))]
        if top > 255:
            xs += [256, n + 255, n ^ 256, 32767, 32768, 56788, 56789, 57000]
        return [x for x in xs if 0 <= x <= top]
    for kind, n in list(num.items()) + list(wide.items()):
        for i in around(n, 65535 if kind in wide else 255):
            if kind == "opt":
                m = len(st[i][1]) if i < ns else 1
                asks += [[kind, i, j] for j in {0, m - 1, m, m + 1, 255, rng.randrange(256)} if 0 <= j <= 255]
            elif kind == "set":
                asks.append([kind, i, rng.randrange(len(st[i][1])) if i < ns else rng.randrange(256)])
                asks.append(["get", i, 0])
            else:
                asks.append([kind, i, 0])
    for cp in rng.sample(cps, min(len(cps), 6)) + [cp + 1 for cp in cps[:2]] + [-1, 0, 0x10FFFF]:
        asks += [["choice", cp, j] for j in ASK_JS]
    asks += [["choice", cp, rng.choice(ASK_JS)] for cp in cps]
    rng.shuffle(asks)
    keep = asks if len(asks) <= k else asks[:k]
    return keep + [["get", i, 0] for i in range(min(ns, 20))]

def probe_edges(rng):
    """fonts that define as much of everything as there can be, or next to nothing"""
    name = lambda i: "n%c%c" % (97 + i // 26, 97 + i % 26)
    out = [dict(glyphs=1), dict(glyphs=2, settings=[["a", [0]]])]
    # what follows the conditions reads like one more condition
    out.append(dict(glyphs=3, settings=[[name(i), [0, 1]] for i in range(7)], conds=[[0x50, 0, i % 2] for i in range(26)], rsets=[dict(list=[i]) for i in range(96)], gsets=[dict(list=[i]) for i in range(96)]))
    # so much data after the glyphs that every glyph index still points into it
    out.append(dict(glyphs=3, urules=[bytes([255, 0, 1, 0, 255]) + bytes(4 * 255 + 4) for _ in range(200)]))
    for n in (254, 255):
        out.append(dict(glyphs=n + 1, dyes=[[name(i), [i]] for i in range(n)], settings=[[name(i), [0] * (255 if i % 50 == 0 else i % 5 + 1)] for i in range(n)],
                        switches=[[i % n] for i in range(254 if n == 255 else 127)], conds=[list(fg.rand_formula(rng, 2, [2, 2], 1)) for i in range(n)],
                        rsets=[dict(list=[i]) for i in range(n)], gsets=[dict(list=[i]) for i in range(n)]))
        out.append(dict(glyphs=256 + n, dyes=[], palettes=[[name(i), [[i, 0, 0, i]]] for i in range(n)],
                        urules=[raw_rule(rng, True) for _ in range(n + 1)], grules=[raw_rule(rng, False) for _ in range(n + 2)]))
    return out

def C23(ctx):
    ctx.model_check("MC_Bounds", ctx.n("MC_Bounds.cfg", "MC_Bounds_T.cfg"))
    rng = ctx.rng
    runs = []
    for d in probe_edges(rng):
        d["urules"] = [r for r in d.get("urules", []) if 5 + r[4] * 4 <= len(r)]
        d["grules"] = [r for r in d.get("grules", []) if 5 + r[4] * 2 <= len(r)]
        runs.append(dict(ops=[base_op(gg.raw(d)), parse()] + [dict(op="probe", asks=probe_asks(rng, d, 700))], tag="edges"))
    for i in range(ctx.n(150, 1500)):
        d = rand_font(rng, rng.random() < 0.4)
        ops = [base_op(gg.raw(d)), parse()] + [dict(op="probe", asks=probe_asks(rng, d, 250)) for _ in range(2)]
        runs.append(dict(ops=ops, tag="probes"))
    ctx.cov["questions"] = sum(len(o.get("asks", [])) for r in runs for o in r["ops"])
    ctx.validate("Trace_Format", ctx.drive("world", runs), kind="probes", mem="4g")
