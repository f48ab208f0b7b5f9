"""Typestate analysis (path-sensitive dataflow over flattened thread entries and their spawner) of the job queue:
queue operations only under the queue lock, an element is taken only in the critical section that saw the queue
non-empty, every taken tile is rendered (sampler built from that tile's bounds, every sample passed to the film),
postponed pixel contributions are drained before a worker ends, locks are balanced, every spawned worker is joined
before the film is saved, and the queued tiles partition the image."""
import re
import flow, ir, front
from front import AnalysisError
from common import *
from film import *

LEVEL = "other"
ASSUMES = ["std::stack/std::mutex/std::thread behave as specified", "samplers emit every pixel of their tile"]
QOPS = r"^std::(stack|queue|deque|vector|list|priority_queue)<Renderer_task.*>::(\w+)\("


def qop(i):
    m = re.match(QOPS, i.callee or "")
    return m.group(2) if m else None


TAKE = {"top", "pop", "front", "back", "pop_back", "pop_front"}


# sampler construction is analysed, its sampling methods are not
KEEP = [x for x in DEEP if "Sampler" not in x] + [r"^Sampler\w*::(~|[a-z_])"]


def run(ctx):
    cfgs = [front.RGB] if ctx.tier == "quick" else [front.RGB, front.RGB_DBG, front.FULL]
    for cfg in cfgs:
        prog = program(cfg)
        tile_plan(prog, ctx)
        ent, workers, touching = film_roots(prog)
        ctx.need(workers, "no thread entry reaches the film")
        entries = list({e.link: e for e, _, _ in ent}.values())
        p, fl = flat(entry_regex(entries), keep=KEEP, cfg=cfg)
        for f in fl:
            queue(ctx, f, p, prog, any(f.link == w.link for w in workers))
        # queue operations in code reachable from threads but not visible above
        vis = {c for f in fl for c in [i.callee for i in f.calls()]}
        keptreach = reach(prog, {t for f in fl for i in f.calls() for t in callees(p, i)})
        for l in keptreach:
            g = prog.all.get(l)
            for i in (g.calls() if g else ()):
                if qop(i):
                    ctx.ob("queue-visible", g.name, False, i.where(), "queue operation outside the analysed worker loop")
        p2, fl2 = flat(entry_regex(workers), keep=KEEP + [r"^ImageFilm::"], cfg=cfg)
        for f in fl2:
            samples(ctx, f, p2, prog)
        for sp in {s.link: s for _, s, _ in ent}.values():
            spawner(ctx, sp, prog, workers, ent)
        allfuncs_locks(ctx, prog)
    ctx.at_least("queue-op-locked", 3)
    ctx.at_least("samples-reach-film", 1)
    ctx.at_least("tile-bounds-kept", 8)
    ctx.at_least("sample-loop-bound", 1)
    ctx.at_least("joined-before-save", 1)


def queue(ctx, f, p, prog, worker):
    lk = Locks(f)
    res = {}
    pend_bad, drain_bad, leak = [], [], []
    taken_calls = [i for i in f.calls() if qop(i) in ("pop", "pop_front", "pop_back")]
    # how a taken tile gets rendered: the sampler hierarchy's sampling call
    renders = [i for i in f.calls() if "virt" in i.d and any("get_samples" in t[0] for t in i.d["virt"]["targets"])]

    def transfer(i, st, facts):
        locks, queries, pending, dirty, fresh = st
        op = qop(i)
        if op and op not in ("stack", "queue", "vector", "deque") and not is_local(f, i.ops[0]):
            held = locks[0]
            res.setdefault(i.i, []).append(held)
            if op in ("empty", "size"):
                queries = queries | {i.i}
            elif op in TAKE:
                ok = any(f.ins[q].scoped.find("empty") >= 0 and flow.value(f, ["v", q], facts) == 0 or nonempty(f, q, i.bb) for q in queries)
                if not ok:
                    res.setdefault(("ne", i.i), []).append(False)
                else:
                    res.setdefault(("ne", i.i), []).append(True)
                if op.startswith("pop"):
                    queries = frozenset()
                    if pending:
                        pend_bad.append((i, pending))
                    pending = i.i
        if i in renders:
            pending = 0
        c = i.callee or ""
        m = re.match(r"^std::(stack|queue|vector|deque|list)<TodoPixel.*>::(~?\w+)(<.*>)?\(", c)
        if m and is_local(f, i.ops[0]):
            o = m.group(2)
            if o in ("push", "emplace", "push_back", "emplace_back"):
                dirty = True
            elif o == "empty" and dirty:
                return [("learn", -1, (locks, queries, pending, False, fresh)), ("learn", 0, st[:1] + (queries, pending, True, fresh))]
            elif o.startswith("~") or o in ("clear", "operator", "swap"):
                if dirty:
                    drain_bad.append(i)
                dirty = False
        if i.op == "ret":
            if pending:
                pend_bad.append((i, pending))
            if dirty:
                drain_bad.append(i)
            if locks[0]:
                leak.append((i, locks[0]))
            return None
        out = []
        for l2, learned in lk.step(i, locks):
            q2 = queries
            if l2[0] != locks[0]:
                q2 = frozenset()
            s2 = (l2, q2, pending, dirty, fresh)
            out.append(s2 if learned is None else ("learn", learned, s2))
        return out
    flow.simulate(f, ((frozenset(), frozenset()), frozenset(), 0, False, 0), transfer)
    common = None
    n = 0
    for k, v in res.items():
        if isinstance(k, tuple):
            continue
        n += 1
        h = frozenset.intersection(*v)
        ctx.ob("queue-op-locked", "%s %s" % (f.scoped, f.ins[k].scoped.split("::")[-1].split("(")[0]), bool(h), f.ins[k].where(),
               "holds %s" % ", ".join(map(nice, h)) if h else "shared job queue used without the lock on some path")
        if h:
            common = h if common is None else common & h
    if common is not None:
        ctx.ob("queue-one-lock", f.scoped, bool(common), "", "a single mutex protects the queue")
    for k, v in res.items():
        if isinstance(k, tuple):
            i = f.ins[k[1]]
            ctx.ob("take-after-nonempty", "%s %s" % (f.scoped, qop(i)), all(v), i.where(),
                   "taken in the critical section that saw the queue non-empty" if all(v) else
                   "an element is taken although emptiness was not tested in the same critical section")
    ctx.count("queue_operations", n)
    for i, kind, m in lk.bad:
        ctx.ob("lock-balance", "%s %s" % (f.scoped, nice(m)), False, i.where(), kind)
    for i, h in leak:
        ctx.ob("lock-balance", f.scoped + " exit", False, i.where(), "thread ends holding %s" % ", ".join(map(nice, h)))
    ctx.ob("lock-balance", f.scoped + " exits", not leak and not lk.bad, "", "every path releases what it took")
    if worker:
        if not renders:
            raise AnalysisError("no sampling call in the worker loop")
        if not taken_calls:
            raise AnalysisError("the worker takes no tile")
        ctx.ob("taken-is-rendered", f.scoped, not pend_bad, pend_bad[0][0].where() if pend_bad else "",
               "a taken tile can be dropped without being sampled" if pend_bad else "every taken tile is sampled before the next one is taken or the worker ends")
        ctx.ob("deferred-drained", f.scoped, not drain_bad, drain_bad[0].where() if drain_bad else "",
               "postponed contributions can be lost" if drain_bad else "postponed contributions are empty whenever the worker ends")
        tile_to_sampler(ctx, f, prog)


def nonempty(f, q, bb):
    me = f.ex(["v", q])
    for e, strict, a, b, _ in flow.facts_ge(f, bb):
        if e.get(me) == 1 and set(e) <= {me, None}:
            if -e.get(None, 0) >= 1 or (strict and e.get(None, 0) == 0):
                return True
    for p_, a, b, i in flow.comparisons(f, flow.edge_facts(f, bb)):
        if p_ == "ne" and f.ex(a) == me and b[0] == "c" and b[1] == 0:
            return True
    return False


def tile_to_sampler(ctx, f, prog):
    """each of the tile's four bounds reaches the sampler member of the same meaning"""
    flds = [n[0] for n in prog.types["Renderer_task"]["fields"]]
    for cls in ["Sampler", "ExecutorData"]:
        for n in [x[0] for x in prog.types[cls]["fields"]]:
            if n not in flds:
                continue
            st = [i for i in f.all() if i.op == "store" and f.addr(i)[0] == "fld" and f.addr(i)[2:4] == (cls, n)]
            for i in st:
                e = f.ex(i.ops[0])
                src = resolve_tile_symbol(f, e, prog)
                ctx.ob("tile-bounds-kept", "%s.%s" % (cls, n), src == n, i.where(), "receives the tile's %s" % src)


def samples(ctx, f, p, prog):
    """every sample of every batch reaches the film"""
    adds = [i for i in f.calls() if (i.callee or "").startswith("ImageFilm::") and any(
        film_access(prog.all[l], x) or "TodoPixel" in (x.callee or "") for l in reach(prog, {i.d.get("link")}) if l in prog.all
        for x in prog.all[l].all()) and len(i.ops) > 2]
    rays = [i for i in f.calls() if "virt" in i.d and any("create_ray" in t[0] for t in i.d["virt"]["targets"])]
    ctx.need(rays, "camera ray generation in the worker loop")
    for r in rays:
        hdr = loop_header(f, r.bb)
        ctx.need(hdr is not None, "sample loop")
        lat = [b for b in f.pred[hdr] if hdr in f.dom().get(b, ())]
        ok = any(all(a.bb in f.dom().get(l, ()) for l in lat) for a in adds)
        ctx.ob("samples-reach-film", f.scoped, ok, r.where(), "every iteration of the sample loop hands its sample to the film")
        # the loop covers all samples: counter 0.. < spp where spp is also given to the sampler
        cnt = [flow.induction(f, x) for x in f.bbs[hdr] if x.op == "phi"]
        cnt = [c for c in cnt if c]
        t = f.term(hdr)
        ok2 = any(flow.const_of(flow.linear(f, c[0])) == 0 and c[1] == 1 for c in cnt)
        ctx.ob("sample-loop-dense", f.scoped, ok2, r.where(), "sample index starts at 0 and advances by one")
        bound = None
        for x in f.bbs[hdr]:
            if x.op == "icmp":
                bound = x.ops[1]
        spp = [i for i in f.all() if i.op == "store" and f.addr(i)[0] == "fld" and f.addr(i)[2:4] == ("Sampler", "spp")]
        if bound is not None and spp:
            same = all(f.ex(i.ops[0]) == f.ex(bound) for i in spp)
            ctx.ob("sample-loop-bound", f.scoped, same, r.where(), "the loop bound is the batch size given to the sampler")
        # sample passed to the camera and to the film is the same element
        for a in adds:
            ctx.ob("same-sample", f.scoped, f.ex(a.ops[1]) == f.ex(r.ops[1]), a.where(), "film position comes from the sample that made the ray")
    # exits of the batch loop: only through get_samples returning false
    gs = [i for i in f.calls() if "virt" in i.d and any("get_samples" in t[0] for t in i.d["virt"]["targets"])]
    for g in gs:
        hdr = loop_header(f, g.bb)
        if hdr is None:
            ctx.ob("batch-loop", f.scoped, False, g.where(), "sample batches are not requested in a loop")
            continue
        body = loop_body(f, hdr)
        inner_exits = [(b, s) for b in body for s in f.succ[b] if s not in body]
        facts_ok = []
        for b, s in inner_exits:
            t = f.term(b)
            c = flow.expand(f, tuple(t.ops[0]), t.d["succ"][0] == s) if t.op == "br" and t.ops else set()
            facts_ok.append((("v", g.i), False) in c or f.succ[s] == [] and not any(x.op == "ret" for x in f.bbs[s]))
        ctx.ob("batch-loop", f.scoped, bool(facts_ok) and all(facts_ok), g.where(), "a tile is left only when its sampler is exhausted")


def loop_header(f, b):
    """innermost loop header containing block b"""
    best = None
    for h in range(len(f.bbs)):
        if h not in f.dom():
            continue
        if any(h in f.dom().get(p, ()) for p in f.pred[h]) and b in loop_body(f, h):
            if best is None or best in f.dom()[h]:
                best = h
    return best


def loop_body(f, h):
    key = ("_lb", h)
    c = f.__dict__.setdefault("_lbc", {})
    if h in c:
        return c[h]
    body, q = {h}, [p for p in f.pred[h] if h in f.dom().get(p, ())]
    while q:
        x = q.pop()
        if x not in body:
            body.add(x)
            q += [p for p in f.pred[x] if p in f.dom()]
    c[h] = body
    return body


def spawner(ctx, sp, prog, workers, ent):
    sp_w = [c for e, s, c in ent if s.link == sp.link and any(e.link == w.link for w in workers)]
    if not sp_w:
        return
    p, fl = flat(entry_regex([sp]), keep=[r"^KdTree::", r"^ImageFilm::", r"^Console", r"^RendererProgressBar", r"^format_seconds"])
    for f in fl:
        sc = [i for i in f.calls() if re.match(r"std::thread::thread<", i.callee or "")]
        moves = [i for i in f.calls() if re.match(r"std::thread::operator=\(std::thread&&", i.callee or "")]
        joins = [i for i in f.calls() if re.match(r"std::thread::join\(", i.callee or "")]
        saves = [i for i in f.calls() if any(wr(prog, l) for l in callees(p, i))]
        ctx.need(saves, "image saving call in the spawner")
        for s in saves:
            ok = bool(joins) and not any(f.reachable_from(s, j) for j in joins) and all(f.reachable_from(j, s) for j in joins)
            # no way from a spawn to the save that avoids the join loop's exit
            hs = [loop_header(f, j.bb) for j in joins]
            ok = ok and all(any((h if h is not None else j.bb) in f.dom().get(s.bb, ()) for h, j in zip(hs, joins)) for _ in [0])
            ctx.ob("joined-before-save", f.scoped, ok, s.where(), "the join loop dominates saving the image")
        rng = lambda i: loop_range(f, i.bb)
        for s in sc:
            if not any(e in str(s.ops) for e in [w.link for w in workers]):
                continue
            js = [rng(j) for j in joins]
            r = rng(s)
            ok = r is not None and any(covers(r, x) for x in js if x is not None)
            ctx.ob("all-joined", f.scoped, ok, s.where(), "workers started for %s, joined for %s" % (fmt(r), [fmt(x) for x in js]))
        # tiles are queued before any worker starts
        for i in f.calls():
            if qop(i) in ("push", "emplace", "push_back", "emplace_back"):
                ctx.ob("queued-before-start", f.scoped, not any(f.reachable_from(s, i) for s in sc), i.where(), "no tile is queued once workers run")
        # once the workers are joined, the image is saved on every way out
        for r in f.rets():
            if any(f.reachable_from(s, r) for s in sc):
                ok = any(f.dominates(s, r) for s in saves)
                ctx.ob("saved-before-return", f.scoped, ok, r.where(), "the image is saved on every path that started workers")
        for r in f.rets():
            for s in sc:
                ok = all(not f.reachable_from(s, r) or any((loop_header(f, j.bb) or j.bb) in f.dom()[r.bb] for j in joins) for _ in [0])
                ctx.ob("joined-before-return", f.scoped, ok, r.where(), "no return while workers run")


def fmt(r):
    return None if r is None else "[%s..%s)" % (r[0], " and ".join(sorted("another condition" if x is None else nice(x) for x in r[1])))


def wr(prog, l):
    return any("img_write" in prog.all[x].name for x in reach(prog, {l}) if x in prog.all)


def loop_range(f, b):
    """(first value, upper bounds, step) of the counted loop around block b; a bound of None stands for an exit that is
    not a comparison of the counter"""
    h = loop_header(f, b)
    if h is None:
        return None
    body = loop_body(f, h)
    for x in f.bbs[h]:
        ind = flow.induction(f, x) if x.op == "phi" else None
        if not ind:
            continue
        me = f.ex(["v", x.i])
        ups, known = set(), set()
        for e, strict, hi, lo, _ in flow.facts_ge(f, b):
            if f.ex(lo) == me and strict:
                ups.add(f.ex(hi))
        if not ups:
            continue
        for p in body:
            t = f.term(p)
            for n in f.succ[p]:
                if n in body or (f.succ[n] == [] and not any(q.op == "ret" for q in f.bbs[n])):
                    continue
                ok = False
                for c, pol in flow.expand(f, tuple(t.ops[0]), t.d["succ"][0] == n) if t.op == "br" and t.ops else ():
                    q = f.ins[c[1]] if c[0] == "v" else None
                    if q is not None and q.op == "icmp" and (f.ex(q.ops[0]) == me and f.ex(q.ops[1]) in ups or f.ex(q.ops[1]) == me and f.ex(q.ops[0]) in ups):
                        ok = True
                if not ok:
                    ups.add(None)
        return (flow.const_of(flow.linear(f, ind[0])), frozenset(ups), ind[1])
    return None


def covers(r, x):
    return r[0] is not None and x[0] is not None and x[0] <= r[0] and x[1] <= r[1] and None not in x[1] and x[2] == 1 and r[2] == 1


def allfuncs_locks(ctx, prog):
    """every project function that touches a lock releases it on every path"""
    for f in prog.funcs:
        if f.id or not any(lock_op(i) for i in f.calls()):
            continue
        lk = Locks(f)
        leak = []

        def transfer(i, st, facts):
            if i.op == "ret":
                if st[0]:
                    leak.append((i, st[0]))
                return None
            return [s if l is None else ("learn", l, s) for s, l in lk.step(i, st)]
        flow.simulate(f, (frozenset(), frozenset()), transfer)
        ok = not leak and not lk.bad
        w = leak[0][0].where() if leak else lk.bad[0][0].where() if lk.bad else "%s:%d" % (ir.short(f.file), f.line)
        ctx.ob("function-lock-balance", f.name, ok, w, "lock left held" if leak else lk.bad[0][1] if lk.bad else "balanced on every path")
