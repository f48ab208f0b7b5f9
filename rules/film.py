"""Film access facts shared by C01 (exclusion) and C04 (accumulation)."""
import re
import ir, flow
from front import AnalysisError
from common import *

DEEP = [r"^KdTree::", r"^Bvh::", r"^CameraPerspective::", r"^CameraOrthographic::", r"^Camera::", r"^PathTracer::",
        r"^calculate_differentials", r"^Spectrum", r"^OcclusionTester", r"^Console", r"^(\w+::)*~?Sampler\w*::", r"^WELLrng"]


def film_access(f, i):
    """True when load/store i touches the film's pixel storage (not its header)"""
    if i.op not in ("load", "store"):
        return False
    o = i.ops[0] if i.op == "load" else i.ops[1]
    return film_ptr(f, o)


def film_copy(f, i):
    """block copies out of or into pixel storage"""
    return i.op == "call" and re.match(r"(llvm\.)?mem(cpy|move|set)", i.callee or "") is not None and any(
        o[0] == "v" and film_ptr(f, o) for o in i.ops[:2])


def film_ptr(f, o):
    r, path, loads = f.root(o)
    names = [p[0] + "::" + p[1] if p[0] else p[1] for p in path]
    k = next((n for n, x in enumerate(path) if x == ("ImageFilm", "buffer")), None)
    if k is not None:
        return "->" in names[k + 1:]
    return any(x[0] == "Pixel" for x in path) and r[0] != "v"


def is_local(f, o):
    r, path, loads = f.root(o)
    return r[0] == "v" and f.ins[r[1]].op == "alloca" and loads == 0


def film_roots(prog):
    ent = thread_entries(prog)
    links = {e.link for e, _, _ in ent}
    r = reach(prog, links)
    touching = []
    for l in r:
        g = prog.all.get(l)
        if g and any(film_access(g, i) for i in g.all()):
            touching.append(g)
    workers = []
    for e in {e.link: e for e, _, _ in ent}.values():
        if "ImageFilm::" in " ".join(prog.all[l].name for l in reach(prog, {e.link}) if l in prog.all):
            workers.append(e)
    return ent, workers, touching


def coords(f, ptr):
    """SSA operands used as x and y of an Array2D access: {'x': op, 'y': op}"""
    shifts, masks = {}, set()
    seen = set()
    order = []

    def walk(o, inmul):
        if o[0] != "v" or (o[1], inmul) in seen:
            return
        seen.add((o[1], inmul))
        i = f.ins[o[1]]
        if i.op in ("ashr", "lshr", "sdiv", "udiv"):
            s = strip(f, i.ops[0])
            shifts.setdefault(tuple(s), set()).add(inmul)
            return
        if i.op in ("and", "srem", "urem"):
            masks.add(tuple(strip(f, i.ops[0])))
            return
        if i.op in ("mul", "shl"):
            lds = [x for x in i.ops if x[0] == "v" and f.ins[x[1]].op == "load"]
            for x in i.ops:
                walk(x, inmul or bool(lds))
            return
        if i.op in ("add", "or", "sext", "zext", "trunc", "getelementptr", "sub"):
            for x in ir.operands(i):
                walk(x, inmul)
    o = ptr
    while o[0] == "v" and f.ins[o[1]].op == "getelementptr":
        for x in f.ins[o[1]].d["path"]:
            if x[0] == "*":
                walk(x[1], False)
        o = f.ins[o[1]].ops[0]
    ys = [k for k, v in shifts.items() if True in v]
    xs = [k for k, v in shifts.items() if v == {False}]
    if len(shifts) == 1 and ys:
        xs = ys     # same coordinate used for both
    if len(xs) != 1 or len(ys) != 1:
        return None
    return {"x": list(xs[0]), "y": list(ys[0])}


def strip(f, o):
    while o[0] == "v" and f.ins[o[1]].op in ("sext", "zext", "trunc", "freeze"):
        o = f.ins[o[1]].ops[0]
    return o


def is_dim(s, ax):
    s = s[1] if s and s[0] == "load" else s
    return bool(s) and s[0] == "fld" and s[3] == {"x": "width", "y": "height"}.get(ax)


def whole_steps(prog, ax, step):
    """the image size along ax is always a multiple of step: every value stored in it is 0 or tested divisible"""
    name = {"x": "width", "y": "height"}.get(ax)
    n = 0
    for f in prog.funcs:
        if f.id or not f.name.startswith("Renderer"):
            continue
        for i in f.all():
            if i.op != "store" or not (f.addr(i)[0] == "fld" and f.addr(i)[2:4] == ("Renderer", name)):
                continue
            n += 1
            v = strip(f, i.ops[0])
            if v[0] == "c" and v[1] == 0:
                continue
            ok = False
            for p, a, b, _ in flow.comparisons(f, flow.edge_facts(f, i.bb)):
                if p == "eq" and b[0] == "c" and b[1] == 0 and a[0] == "v":
                    r = f.ins[a[1]]
                    if r.op in ("srem", "urem") and r.ops[1][0] == "c" and r.ops[1][1] % step == 0 and f.ex(r.ops[0]) == f.ex(v):
                        ok = True
                    if r.op == "and" and r.ops[1][0] == "c" and (r.ops[1][1] + 1) % step == 0 and f.ex(r.ops[0]) == f.ex(v):
                        ok = True
            if not ok:
                return False
    return n > 0


def tile_plan(prog, ctx=None):
    """How the spawning code cuts the image into tiles.  Returns {field of the task type: (axis, 'start'|'end')}
    and reports obligations on ctx: starts step by S from 0, ends lie in (start, start+S], all tiles pushed."""
    spawners = {s.link: s for _, s, _ in thread_entries(prog)}
    cand = []
    for s in prog.funcs:
        if s.id == "" and any(re.search(r"::(push|emplace|push_back|emplace_back|push_front)\b", c.callee or "") and
                              "Renderer_task" in (c.callee or "") for c in s.calls()):
            cand.append(s)
    if not cand:
        raise AnalysisError("no function fills the tile queue")
    roles, obs = {}, []
    p, fl = flat(entry_regex(cand), keep=[r"^KdTree::", r"^ImageFilm::", r"^Console", r"^RendererProgressBar", r"^(?!Renderer).*::~"])
    for f in fl:
        for c in f.calls():
            if not (re.search(r"::(push|emplace|push_back|emplace_back|push_front)\b", c.callee or "") and "Renderer_task" in c.callee):
                continue
            arg = c.ops[1]
            vals = fields_at(f, arg, c, "Renderer_task", prog)
            for k, v in vals.items():
                if v is None:
                    obs.append(("tile-field", k, False, c.where(), "the value of %s is not determined where the tile is queued" % k))
            starts = {}
            for k, v in vals.items():
                if v is None:
                    continue
                v = strip(f, v)
                if v[0] == "v":
                    ind = flow.induction(f, f.ins[v[1]])
                    if ind:
                        starts[k] = (v, ind)
            for k, (v, (init, step)) in starts.items():
                # the loop bound names the axis
                ax, exact = None, False
                for e, strict, a, b, _ in flow.facts_ge(f, c.bb):
                    # b-ish >= phi : E = bound - phi
                    if flow.linear(f, v) == flow.linear(f, b) or f.ex(b) == f.ex(v):
                        rest = flow.ladd(e, flow.linear(f, v))
                        nm = [s[-1][3] for s in [(x,) if x and x[0] == "fld" else (x[1],) if x and x[0] == "load" else () for x in rest if isinstance(x, tuple)] if s and s[-1][0] == "fld"]
                        if len(nm) == 1 and nm[0] in ("width", "height") and strict and flow.const_of({q: w for q, w in rest.items() if q is None}) == 0:
                            ax, exact = ("x" if nm[0] == "width" else "y"), True
                i0 = flow.const_of(flow.linear(f, init))
                roles[k] = (ax, "start")
                obs.append(("tile-start", k, ax is not None and i0 == 0 and step > 0, c.where(),
                            "axis %s: starts at %s, advances by %s while below the image size" % (ax, i0, step)))
                for k2, v2 in vals.items():
                    if k2 in starts or v2 is None:
                        continue
                    # end in (start, start+S]
                    ups = flow.bounds(f, v2, False)
                    me = flow.linear(f, v)
                    spans = [flow.const_of(flow.ladd(u, me, -1)) for u in ups]
                    spans = [s for s in spans if s is not None]
                    if not spans:
                        continue
                    roles[k2] = (ax, "end")
                    lows = flow.linear(f, v2)
                    cover = cover_ok(f, v2, v, step)
                    obs.append(("tile-disjoint", k2, min(spans) <= step, c.where(),
                                "tile end is at most %s past its start while the next tile starts %s further" % (min(spans), step)))
                    border = any(len(u) == 1 and u.get(None, 0) == 0 or len([x for x in u if x is not None]) == 1 and is_dim(next(x for x in u if x is not None), ax)
                                 and u.get(None, 0) <= 0 for u in ups)
                    obs.append(("tile-inside", k2, border or whole_steps(prog, ax, step), c.where(),
                                "no tile extends past the image border"))
                    obs.append(("tile-cover", k2, cover, c.where(),
                                "tile end reaches the next tile's start or the image border"))
            # every iteration pushes: the push block dominates the latches of the loops it is in
            for k, (v, (init, step)) in starts.items():
                ph = f.ins[v[1]]
                lat = [pb for pb, _ in ph.d["in"] if ph.bb in f.dom().get(pb, ())]
                inner = all(c.bb in f.dom().get(l, ()) for l in lat)
                if not inner:
                    # outer loop: the inner loop's header must dominate the latch and be entered
                    inner = any(ph.bb in f.dom().get(f.ins[w[1]].bb, ()) and ph.bb != f.ins[w[1]].bb and
                                f.ins[w[1]].bb in f.dom().get(l, ()) for l in lat for _, (w, _) in starts.items() if w != v)
                obs.append(("tile-all-queued", k, bool(lat) and inner, c.where(), "every iteration queues its tile"))
    if ctx is not None:
        for o in obs:
            ctx.ob(*o)
    return roles, obs


def cover_ok(f, end, start, step):
    """end == start+S, or min(start+S, size) with size > start guaranteed"""
    lin = flow.linear(f, end)
    me = flow.linear(f, start)
    d = flow.const_of(flow.ladd(lin, me, -1))
    if d is not None:
        return d >= step
    o = strip(f, end)
    if o[0] != "v":
        return False
    i = f.ins[o[1]]
    arms = [v for _, v in i.d["in"]] if i.op == "phi" else i.ops[1:] if i.op == "select" else []
    if not arms:
        return False
    for a in arms:
        d = flow.const_of(flow.ladd(flow.linear(f, a), me, -1))
        if d is not None:
            if d < step:
                return False
        else:
            e = f.ex(strip(f, a))
            if not (e[0] == "load" and e[1][0] == "fld" and e[1][3] in ("width", "height")):
                return False
    return True


def fields_at(f, ptr, at, tname, prog):
    """value operand stored to every field of the struct behind ptr, as seen at instruction `at`
    (the last dominating store to the field with no other store in between)"""
    flds = prog.types[tname]["fields"]
    r, path, loads = f.root(ptr)
    out = {n[0]: None for n in flds}
    if loads:
        return out
    for n in flds:
        st = []
        for i in f.all():
            if i.op != "store":
                continue
            r2, p2, l2 = f.root(i.ops[1])
            if r2 != r or l2:
                continue
            a = f.addr(i)
            if a[0] == "fld" and a[3] == n[0] or (a[0] != "fld" and n[2] == 0 and f.ex(i.ops[1]) == f.ex(ptr)):
                st.append(i)
        dom = [i for i in st if f.dominates(i, at)]
        if len(dom) == 1 or dom:
            last = [i for i in dom if all(f.dominates(o, i) for o in dom)]
            if last:
                others = [i for i in st if i not in dom and f.reachable_from(last[0], i) and f.reachable_from(i, at)
                          and not f.dominates(last[0], i) is None and i.i != last[0].i]
                others = [i for i in others if not _killed(f, i, last[0], at)]
                if not others:
                    out[n[0]] = last[0].ops[0]
    return out


def _killed(f, i, last, at):
    """store i cannot reach `at` without passing `last`"""
    return at.bb not in f.reach(i.bb, skip={last.bb}) if i.bb != at.bb else False


def resolve_tile_symbol(f, e, prog):
    """field of Renderer_task that expression e (a load) carries, following one copy
    through a local structure"""
    if not (isinstance(e, tuple) and e and e[0] == "load"):
        return None
    return _field_of(f, e[1], prog, 0)


def _field_of(f, a, prog, d):
    if d > 3:
        return None
    off, base = 0, a
    fld = None
    if a[0] == "fld":
        if a[2] == "Renderer_task":
            return a[3]
        fld = a
    x = a
    if x[0] == "idx" and x[2][0] == "c":
        off, x = x[2][1], x[1]
    if x[0] == "call" and "Renderer_task" in x[1] and re.search(r"::(top|front|back)\(", x[1]):
        for n in prog.types["Renderer_task"]["fields"]:
            if n[2] == off:
                return n[0]
        return None
    if fld is not None and fld[1][0] == "alloca":
        got = set()
        for i in f.all():
            if i.op == "store" and f.addr(i) == fld:
                v = f.ex(i.ops[0])
                got.add(_field_of(f, v[1], prog, d + 1) if v[0] == "load" else None)
        if len(got) == 1:
            return got.pop()
    return None
