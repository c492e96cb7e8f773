"""C21: fonts can be shared, and nothing else is."""
import copy, random
import chk_pipe, chk_values, chk_font, chk_raster, chk_builder, chk_calendar, chk_bulk

class Collect:
    """stands for the context of another property's check and only collects its runs"""
    def __init__(self, ctx, salt):
        self.quick, self.rng, self.runs, self.cov, self.assumptions = True, random.Random(ctx.seed * 1000 + salt), {}, {}, []
    def n(self, q, t):
        return q
    def model_check(self, *a, **k):
        pass
    def generate(self, *a, **k):
        return []
    def drive(self, kind, runs, cmd="pub", **k):
        return [copy.deepcopy(r) for r in runs] if kind == "world" and cmd == "pub" else []
    def validate(self, module, runs, **k):
        self.runs.setdefault(module, []).extend(runs)

HEAVY = 60000
def weight(r):
    return len(str(r["ops"]))

def collect(ctx):
    """runs of every module that judges one user's history"""
    out = {}
    bulk = {k: getattr(chk_bulk, k) for k in ("codes", "lookups", "rules", "fonts", "cuts", "caches", "built") if hasattr(chk_bulk, k)}
    for k in bulk:               # the huge tables take too long under the race detector
        setattr(chk_bulk, k, lambda c: None)
    try:
        for i, fn in enumerate((chk_values.C05, chk_values.C06, chk_values.C07, chk_values.C08, chk_font.C02, chk_font.C03, chk_font.C16, chk_font.C18,
                                chk_raster.C14, chk_raster.C15, chk_calendar.C19, chk_pipe.C22)):
            c = Collect(ctx, i)
            fn(c)
            for m, rs in c.runs.items():
                out.setdefault((m, fn.__name__), []).extend(r for r in rs if weight(r) < HEAVY and r.get("tag") not in ("size", "all-years", "now"))
    finally:
        for k, f in bulk.items():
            setattr(chk_bulk, k, f)
    return out

def opening(r):
    """the operations at the start of a run that open its fonts"""
    k = 0
    while k < len(r["ops"]) and r["ops"][k]["op"] in ("open", "base", "parse", "p.built"):
        k += 1
    rest = r["ops"][k:]
    return k if k and rest and not any(o["op"] in ("open", "base", "parse", "p.built") for o in rest) else 0

def split(runs, mods):
    """one run per user, for the module that judges it"""
    out = {}
    for r in runs:
        mod, cfgs = mods[r["id"]]
        head = [e for e in r["evs"] if "w" not in e]
        users = sorted({e["w"] for e in r["evs"] if "w" in e})
        if not users:            # a race, a crash or a hang
            out.setdefault(mod[0], []).append(dict(r, cfg=cfgs[0]))
        for u in users:
            evs = head + [{k: v for k, v in e.items() if k != "w"} for e in r["evs"] if e.get("w") == u]
            out.setdefault(mod[u - 1], []).append(dict(id=r["id"], tag=r["tag"], cfg=cfgs[u - 1], evs=evs))
    return out

def groups(ctx, pool, n, turns=None):
    rng, runs, mods = ctx.rng, [], []
    kinds = sorted(pool)
    for i in range(n):
        users = len(set(turns[i % len(turns)])) if turns else rng.choice([2, 3, 4, 8])
        style = rng.random()
        kind = rng.choice(kinds)
        shared = [r for r in pool[kind] if opening(r)]
        if style < 0.45 and shared:      # all of them ask the same font, all about the same
            r = rng.choice(shared)
            k = opening(r)
            scripts = [copy.deepcopy(r["ops"][k:]) for _ in range(users)]
            head, ms, cfgs = copy.deepcopy(r["ops"][:k]), [kind[0]] * users, [r.get("cfg", {})] * users
        else:                            # each its own objects, of one kind or of any
            ks = [kind] * users if style < 0.75 else [rng.choice(kinds) for _ in range(users)]
            rs = [rng.choice(pool[k]) for k in ks]
            scripts, head, ms, cfgs = [copy.deepcopy(r["ops"]) for r in rs], [], [k[0] for k in ks], [r.get("cfg", {}) for r in rs]
        op = dict(op="par", scripts=scripts)
        if turns:
            op["turns"] = turns[i % len(turns)]
        runs.append(dict(ops=head + [op], tag="turns" if turns else "parallel"))
        mods.append((ms, cfgs))
    return runs, mods

def C21(ctx):
    ctx.model_check("Share", ctx.n("MC_Share.cfg", "MC_Share_T.cfg"))
    turns = ctx.generate("Gen_Share", cfg=ctx.n("Gen_Share.cfg", "Gen_Share_T.cfg"))
    pool = collect(ctx)
    pool[("Trace_Builder", "sessions")] = chk_builder.sessions(ctx, ctx.n(60, 400), [0, 0.2], checks=False, steps=25)
    pool[("Trace_Builder", "editions")] = [r for r in chk_builder.editions(ctx, ctx.n(15, 60)) if weight(r) < HEAVY]
    per = {}
    for race, t, n in ((True, None, ctx.n(60, 600)), (False, None, ctx.n(150, 1500)), (False, turns, ctx.n(220, 2500))):
        runs, mods = groups(ctx, pool, n, t)
        for m, rs in split(ctx.drive("conc", runs, race=race, shards=4), mods).items():
            per.setdefault(m, []).extend(rs)
    for m in sorted(per):
        ctx.validate(m, per[m], kind=m[6:].lower() + "-shared", mem="4g")
    ctx.cov["users"] = sum(len(v) for v in per.values())
    ctx.assumptions.append("goroutine schedules of the real code are those the Go scheduler produced in this run, watched by the race detector; "
                           "turns within one goroutine follow every order of the generator")
