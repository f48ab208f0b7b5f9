"""Lockset analysis (path-sensitive, over the flattened thread entry points) of every access to the film's pixel
storage that a rendering thread can perform.  An access is accepted when the film mutex is held on every path to
it, or when dominating comparisons keep the pixel out of reach of every sample of any other tile: the reach of a
sample is derived from the code's own pixel loop bounds, the tile geometry from the code that fills the job queue,
and the two are compared as linear forms.  Read-modify-write sequences must stay inside one critical section."""
import re
import flow, ir, front
from front import AnalysisError
from common import *
from film import *

LEVEL = "other"
ASSUMES = ["samples handed to a tile lie inside the tile (sampler arithmetic is not bounded here)",
           "float rounding of the two linear comparisons is below half a pixel"]


def run(ctx):
    cfgs = [front.RGB] if ctx.tier == "quick" else [front.RGB, front.RGB_DBG, front.FULL]
    for cfg in cfgs:
        one(ctx, cfg)


def one(ctx, cfg):
    prog = program(cfg)
    ent, workers, touching = film_roots(prog)
    ctx.need(workers, "no thread entry reaches the film")
    roles, _ = tile_plan(prog, ctx)
    ctx.need(any(r[0] == "x" for r in roles.values()) and any(r[0] == "y" for r in roles.values()), "tile geometry")
    p, fl = flat(entry_regex(workers), keep=DEEP, cfg=cfg)
    ctx.need(fl, "flattened worker")
    # everything that touches the film and is thread-reachable must be visible in the flattened entries
    inl = set()
    seen_kept = reach(prog, {t for f in fl for i in f.calls() for t in callees(p, i)})
    for g in touching:
        if g.link in seen_kept:
            ctx.ob("film-access-visible", g.name, False, "%s:%d" % (ir.short(g.file), g.line),
                   "film pixels are accessed outside the analysed rendering loop")
    for f in fl:
        worker(ctx, f, p, prog, roles)
    ctx.at_least("film-access", 6)
    ctx.count("thread_entries", len(ent))
    # main thread must not touch the film between spawning and joining the workers
    for sp in {s.link: s for _, s, _ in ent if any(e in workers for e, s2, _ in ent if s2 is s)}.values():
        spawn = [c for e, s, c in ent if s is sp and e in workers]
        joins = [i for i in sp.calls() if re.match(r"std::thread::join\(", i.callee or "")]
        for i in sp.calls():
            tg = callees(prog, i)
            if any(o[0] == "fn" for o in i.ops):
                continue
            r = reach(prog, set(tg))
            hits = [prog.all[l] for l in r if l in prog.all and any(film_access(prog.all[l], x) for x in prog.all[l].all())]
            if not hits:
                continue
            after_spawn = any(sp.reachable_from(c, i) for c in spawn)
            joined = any(sp.reachable_from(j, i) for j in joins) and not any(sp.reachable_from(i, j) for j in joins)
            ctx.ob("film-use-after-join", "%s in %s" % (i.scoped, sp.name), (not after_spawn) or joined, i.where(),
                   "the starting thread uses film pixels while workers may run")


def worker(ctx, f, p, prog, roles):
    lk = Locks(f)
    acc = {}
    held_at = {}
    cs_bad = {}
    loads_of = {}

    def deps(i):
        """film loads whose value flows into store i"""
        if i.i in loads_of:
            return loads_of[i.i]
        out, q, seen = set(), [i.ops[0]], set()
        while q:
            o = q.pop()
            if o[0] != "v" or o[1] in seen:
                continue
            seen.add(o[1])
            x = f.ins[o[1]]
            if x.op == "load":
                if film_access(f, x):
                    out.add(x.i)
                continue
            if x.op in ("call", "phi") and x.op == "call" and not (x.callee or "").startswith("llvm."):
                continue
            q += ir.operands(x)
        loads_of[i.i] = out
        return out

    def transfer(i, st, facts):
        locks, cur = st
        if film_access(f, i) or film_copy(f, i):
            held_at.setdefault(i.i, []).append(locks[0])
            if i.op == "load":
                cur = cur | {i.i}
            else:
                for d in deps(i):
                    if d not in cur:
                        cs_bad[i.i] = d
        r = lk.step(i, locks)
        out = []
        for l2, learned in r:
            c2 = cur
            if l2[0] != locks[0]:
                c2 = frozenset()
            if learned is None:
                out.append((l2, c2))
            else:
                out.append(("learn", learned, (l2, c2)))
        return out
    flow.simulate(f, ((frozenset(), frozenset()), frozenset()), transfer)
    accesses = [f.ins[k] for k in held_at]
    ctx.count("film_accesses", len(accesses))
    ctx.count("flattened_blocks", len(f.bbs))
    film_mtx = None
    locked = [k for k in held_at if all(h for h in held_at[k])]
    common = None
    guarded = []
    for a in accesses:
        h = held_at[a.i]
        inter = frozenset.intersection(*h)
        fm = {m for m in inter if m[0] == "fld" and m[2] == "ImageFilm"}
        if inter and not fm:
            fm = inter
        if fm:
            common = fm if common is None else common & fm
            ctx.ob("film-access", key(f, a), True, a.where(), "holds %s" % ", ".join(nice(m) for m in fm))
        else:
            guarded.append(a)
    if common is not None:
        ctx.ob("one-lock", f.name, bool(common), "", "all locked pixel accesses use one mutex" if common else
               "locked pixel accesses do not share a mutex")
    for a in guarded:
        ok, why = private(f, a, p, prog, roles)
        if ok is None:
            raise AnalysisError("%s: %s" % (a.where(), why))
        ctx.ob("film-access", key(f, a), ok, a.where(), why)
    for a in accesses:
        if a.op == "store":
            ctx.ob("read-modify-write", key(f, a), a.i not in cs_bad, a.where(),
                   "the stored value was read in an earlier critical section" if a.i in cs_bad else "value read in the same critical section")


def key(f, a):
    # instance name that survives line shifts: source function chain + kind + ordinal
    fn = " < ".join(a.chain()[:3])
    same = [x for x in f.all() if x.op == a.op and (film_access(f, x) or film_copy(f, x)) and x.chain()[:3] == a.chain()[:3]]
    return "%s %s #%d" % (fn, a.op, [x.i for x in same].index(a.i))


def private(f, a, p, prog, roles):
    c = coords(f, a.ops[1] if a.op == "store" or a.op == "call" and film_ptr(f, a.ops[1]) else a.ops[0])
    if c is None:
        return None, "pixel coordinates of the access were not recognised"
    ge = flow.facts_ge(f, a.bb)
    notes = []
    for ax in "xy":
        o = c[ax]
        me = flow.linear(f, o)
        # --- reach of a sample: bounds of the coordinate relative to the sample position
        lows = flow.bounds(f, o, True)
        ups = []
        for e, strict, hi, lo, isf in ge:
            # E = hi - lo >= 0 ; coordinate on the low side: coord <= hi + (coord - lo)
            d = flow.ladd(flow.linear(f, lo), me, -1)
            k = flow.const_of(d)
            if k is not None:
                for u in flow.bounds(f, hi, False):
                    ups.append(flow.ladd(u, {None: (-k - (1 if strict and not isf else 0))}))

        def pos(fm):
            return [s for s in fm if isinstance(s, tuple) and s and s[0] == "load" and s[1][0] == "fld" and s[1][2] == "Sample"]
        tied = any(roles.get(resolve_tile_symbol(f, s, prog), (0,))[0] == ax for e in ge for s in e[0] if isinstance(s, tuple))
        lo = [x for x in lows if len(pos(x)) == 1 and x[pos(x)[0]] == 1]
        up = [x for x in ups if len(pos(x)) == 1 and x[pos(x)[0]] == 1]
        if not tied:
            return False, "accessed without the film lock and without any comparison with the tile borders along %s" % ax
        if not lo or not up:
            return None, "reach of a sample along %s could not be derived" % ax
        # --- own clearance from the tile borders
        start_c, end_c = [], []
        for e, strict, hi, low, isf in ge:
            for sgn, lst, role in ((1, start_c, "start"), (-1, end_c, "end")):
                # coordinate minus tile start (or tile end minus coordinate)
                rest = flow.ladd(e, {k: sgn * v for k, v in me.items()}, -1)
                syms = [(s, resolve_tile_symbol(f, s, prog)) for s in rest if isinstance(s, tuple)]
                t = [(s, r) for s, r in syms if r is not None]
                if len(t) == 1 and roles.get(t[0][1]) == (ax, role) and rest[t[0][0]] == -sgn:
                    r2 = {k: v for k, v in rest.items() if k != t[0][0]}
                    lst.append((r2, strict))   # sgn*(coord - tile) + r2 >= 0
        ok1 = ok2 = False
        for u in up:
            # a sample of the tile on the low side reaches at most  pos + U , pos < its end <= our start
            U = {k: v for k, v in u.items() if k != pos(u)[0]}
            for r2, strict in start_c:
                # coord >= start - r2 ; need start - r2 >= start + U  <=>  -r2 - U >= 0
                k = flow.const_of(flow.ladd({x: -v for x, v in r2.items()}, U, -1))
                if k is not None and k >= 0:
                    ok1 = True
        for l in lo:
            # a sample of the tile on the high side reaches down to pos + L, pos >= its start >= our end
            L = {k: v for k, v in l.items() if k != pos(l)[0]}
            for r2, strict in end_c:
                # coord <= end + r2 ; need end + r2 < end + L  <=>  L - r2 > 0 (or >= when strict)
                k = flow.const_of(flow.ladd(L, r2, -1))
                if k is not None and (k > 0 or (k == 0 and strict)):
                    ok2 = True
        if not ok1 or not ok2:
            return False, "written without the film lock although a sample of the neighbouring tile (%s %s) can reach the same pixel" % (
                ax, "low side" if not ok1 else "high side")
    return True, "kept out of reach of neighbouring tiles on all four sides"
