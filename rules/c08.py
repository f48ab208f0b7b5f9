"""Path-sensitive value numbering over the intersection routines.  Every path of Triangle / Sphere / Asset intersection is
walked: a path that reports a miss has written neither the distance nor the hit record; a path that reports a hit has
stored a distance that the path's own comparisons bound from below by a positive constant and from above by the incoming
distance, has seen the mask accept the very texture coordinates it stores, and has stored a point that equals
origin + distance*direction as a rational function, with every other member of the record.  The loops of Bvh and KdTree
are cut at their heads and every segment is checked: a node is dropped only for the reasons that make that sound,
otherwise both children are kept with the right interval, leaves hand every element on, and the walk ends only when
nothing is left that could be closer."""
import re
import front, ir, flow, vn, alg
from front import AnalysisError
from common import *

LEVEL = "other"
ASSUMES = ["comparisons are made on numbers (a NaN other than a literal one is not followed)",
           "the ray, distance, hit record and mask handed to a routine do not overlap",
           "rounding is not modelled: values are compared as real functions"]


def run(ctx):
    for cfg in ([front.RGB] if ctx.tier == "quick" else [front.RGB, front.FULL]):
        one(ctx, cfg)


def short(f):
    return f.scoped or f.name.split("(")[0]


def one(ctx, cfg):
    prog = program(cfg)
    main = prog.find(r"^main$")
    ctx.need(main, "main")
    live = reach(prog, {main[0].link})
    built = {m.group(1) for l in live if l in prog.all for m in [re.match(r"(\w+)::\1\(", prog.all[l].name)] if m}
    shapes = [c for c in prog.derived("Shape") if prog.find(r"^%s::intersect\(" % c)]
    ctx.need(len(shapes) >= 2, "classes derived from Shape with an intersect method")
    trees = sorted({prog.all[t].name.split("::")[0] for c in shapes for f in prog.find(r"^%s::intersect\(" % c)
                    for t in callgraph(prog)[f.link] if t in prog.all and re.search(r"::intersect\(", prog.all[t].name)} - set(shapes))
    n = 0
    for c in shapes:
        if c not in built and not any(re.match(r"%s::%s\(" % (c, c), prog.all[l].name) for l in live if l in prog.all):
            if not constructed(prog, live, c):
                ctx.notes.append("%s is never constructed below main: not analysed" % c)
                continue
        p, fl = flat(r"^%s::intersect\(" % c, keep=[r"::is_masked\(", r"^(%s)::intersect\(" % "|".join(trees or ["-"])], cfg=cfg)
        for f in fl:
            leaf(ctx, prog, f, [r"^%s::intersect\(" % t for t in trees])
            n += 1
    ctx.need(n >= 3, "intersection routines of the shapes in use")
    asset(ctx, prog, cfg)
    boxes(ctx, prog, cfg)
    for c in trees:
        bvh(ctx, prog, cfg, c, shapes)
    kd(ctx, prog, cfg)
    occluded(ctx, prog, cfg)
    ctx.at_least("miss-without-effect", 4)
    ctx.at_least("hit-distance", 2)
    ctx.at_least("hit-unmasked", 2)
    ctx.at_least("children-kept", 2)
    ctx.at_least("leaf-complete", 2)


def constructed(prog, live, c):
    v = "_ZTV%d%s" % (len(c), c)
    for l in live:
        if l in prog.all:
            for i in prog.all[l].all():
                for o in ir.operands(i):
                    if o[0] == "cegep" and o[1][0] == "g" and len(o[1]) > 2 and o[1][2] == v:
                        return True
    return False


def params(f, *kinds):
    """argument index of the parameter of each declared type"""
    t = f.d.get("ditypes", [])
    sret = 1 if any(a.get("sret") for a in f.d["args"]) else 0
    out = []
    for k in kinds:
        ix = [j for j, x in enumerate(t[1:]) if re.match(k, x)]
        if len(ix) < 1:
            raise AnalysisError("%s has no parameter %s" % (f.name, k))
        out.append(ix[0] + sret)
    return out


def const_effects(prog, extra=()):
    """may a kept callee write through its k-th argument: read off the declared parameter types"""
    def eff(i, k):
        links = callees(prog, i) or []
        for l in links:
            g = prog.all.get(l)
            if g is None:
                return True
            t = g.d.get("ditypes", [])
            sret = 1 if any(a.get("sret") for a in g.d["args"]) else 0
            if k < sret:
                return True
            if k - sret + 1 >= len(t) or not t[k - sret + 1].startswith("const "):
                return True
        return not links
    return eff


class Ray:
    def __init__(self, prog, f, T, arg):
        o = {x[0]: x for x in prog.types["Ray"]["fields"]}
        self.o = [T.mk("mem", ("arg", arg), o["origin"][2] + 4 * k, (), 4, 0) for k in range(3)]
        self.d = [T.mk("mem", ("arg", arg), o["direction"][2] + 4 * k, (), 4, 0) for k in range(3)]


def fields(prog, cls, name):
    for x in prog.types[cls]["fields"]:
        if x[0] == name:
            return range(x[2], x[2] + x[3], 4) if x[3] >= 4 else range(x[2], x[2] + 1)
    raise AnalysisError("member not found: %s::%s" % (cls, name))


MASKED = re.compile(r"^(\w+)::is_masked\(")


def leaf(ctx, prog, f, delegates):
    whole = prog
    pd, ph, pr, pm = params(f, r"float\*$", r"HitPoint\*$", r"const Ray\*$", r"const MaskBoolean\*$")
    D, H = ("arg", pd), ("arg", ph)
    uvoff = list(fields(prog, "HitPoint", "uv"))
    v = vn.VN(f, effects=const_effects(whole))
    call0 = v.call

    def call(st, i):
        if i.callee and MASKED.match(i.callee):
            hp = v.op(st, i.ops[1])
            r, o, vs = v.ptr(hp)
            snap = tuple(v.load(st, r, o + k, vs, 4) for k in uvoff), tuple(bool(st.mem.get(r, {}).get((o + k, vs), (0, 0, False))[2]) for k in uvoff), v.op(st, i.ops[0])
            t = call0(st, i)
            st.events.append(("snap", t, snap))
            return t
        return call0(st, i)
    v.call = call
    ps = v.segments()
    ctx.count("paths", len(ps))
    ctx.count("functions")
    T = v.T
    nm = short(f)
    for p in ps:
        if p.kind == "cut":
            raise AnalysisError("%s has a loop: not one of the routines this rule reads" % nm)
    good = [p for p in ps if p.kind == "ret"]
    # ---- pure delegation
    dele = [e for p in good for e in p.events if e[0] == "call" and any(re.match(d, e[2]) for d in delegates)]
    if dele:
        for p in good:
            ev = [e for e in p.events if e[0] == "call" and any(re.match(d, e[2]) for d in delegates)]
            ok = len(ev) == 1 and p.ret == ev[0][4] and handed(v, ev[0], [pd, ph, pr, pm]) and not touched(p, D, H, ev[0])
            ctx.ob("delegated", nm, ok, p.where(), "%s does not hand distance, record, ray and mask on unchanged, or alters the outcome" % nm)
        return
    R = Ray(prog, f, T, pr)
    A = alg.Alg(T)
    d0 = T.mk("mem", D, 0, (), 4, 0)
    hits = 0
    for p in good:
        r = v.decide(p.st, p.ret)
        if r is None:
            ctx.ob("outcome", nm, False, p.where(), "the outcome %s of a path is not a definite hit or miss" % T.show(p.ret))
            continue
        if not r:
            w = touched(p, D, H)
            ctx.ob("miss-without-effect", nm, not w, w.where() if w else p.where(), "a path that reports a miss writes %s" % (w and written(w, f)))
            continue
        hits += 1
        c = p.st.mem.get(D, {}).get((0, ()))
        ok = c is not None and c[2]
        ctx.ob("hit-distance", nm, ok, p.where(), "a path that reports a hit does not store the distance")
        if not ok:
            continue
        V = c[1]
        lo = [k for k in consts(v, p.st) if v.num(k) > 0 and v.reaches(p.st, V, k) is not None]
        ctx.ob("hit-beyond-threshold", nm, bool(lo), p.where(), "a path reports a hit at %s without having compared it with the self-intersection threshold" % T.show(V))
        ctx.ob("hit-closest", nm, p.ge(d0, V), p.where(), "a path reports a hit at %s that may be farther than the distance it was given" % T.show(V))
        # the mask saw what is reported
        masks = [e for e in p.events if e[0] == "call" and MASKED.match(e[2])]
        uv = tuple(p.cell(H, k) for k in uvoff)
        last = masks[-1] if masks else None
        snaps = [e[2] for e in p.events if e[0] == "snap"]
        ok = last is not None and p.holds(last[4]) is False and T.node[snaps[-1][2]][:2] == ("ptr", ("arg", pm))
        ctx.ob("hit-unmasked", nm, ok, p.where(), "a path reports a hit although the mask was not asked or rejected it")
        if ok:
            s = snaps[-1]
            ctx.ob("mask-coordinates", nm, s[0] == uv, last[1].where(), "the mask was asked about %s, the hit reports %s" % (
                ", ".join(T.show(x) for x in s[0]), ", ".join(T.show(x) for x in uv)))
        # complete record
        st = {o for o, vs in p.stored(H) if not vs}
        for m in ("point_h", "normal_h", "uv", "dpdu", "dpdv"):
            ctx.ob("record-complete", "%s:%s" % (nm, m), all(k in st for k in fields(prog, "HitPoint", m)), p.where(), "a path reports a hit without storing %s" % m)
        # point on the ray at the reported distance
        for k, o in enumerate(fields(prog, "HitPoint", "point_h")):
            want = A.add(A.of(R.o[k]), A.mul(A.of(V), A.of(R.d[k])))
            got = p.cell(H, o)
            ok = A.equal(A.of(got), want) or nudged(v, p, A, got, want)
            ctx.ob("hit-on-ray", nm, ok, p.where(), "component %d of the reported point is %s, not origin + distance*direction" % (k, T.show(got)))
    ctx.ob("can-hit", nm, hits > 0, nm, "no path reports a hit")


def nudged(v, p, A, got, want):
    """a coordinate that is exactly zero may be reported as a small constant"""
    c = v.num(got)
    if c is None or abs(c) > 0.011:
        return False
    for t, b in p.facts.items():
        n = v.T.node[t]
        if b and n[0] == "eq" and v.T.const(0) in n[1:]:
            x = n[2] if n[1] == v.T.const(0) else n[1]
            try:
                if A.equal(A.of(x), want):
                    return True
            except AnalysisError:
                pass
    return False


def consts(v, st):
    s = set()
    for k, m in st.ge.items():
        for x in [k] + list(m):
            n = v.num(x)
            if n is not None:
                s.add(x)
    return s


def handed(v, ev, idx):
    return all(any(v.T.node[a] == ("ptr", ("arg", k), 0, ()) for a in ev[3]) for k in idx)


def touched(p, D, H, own=None):
    """the first event that may write the distance or the record"""
    for e in p.events:
        if own is not None and e[1] is own[1]:
            continue
        if e[0] in ("store", "clobber"):
            if p.vn.ptr(e[2])[0] in (D, H):
                return e[1]
    return None


def written(i, f):
    return "through a parameter (%s)" % (i.callee or i.op)


# ---------------------------------------------------------------------------------------------- instances
def asset(ctx, prog, cfg):
    p, fl = flat(r"^Asset::intersect\(", cfg=cfg)
    ctx.need(len(fl) == 1, "Asset::intersect")
    f = fl[0]
    pd, ph, pr = params(f, r"float\*$", r"HitPoint\*$", r"const Ray\*$")
    D, H = ("arg", pd), ("arg", ph)
    whole = prog
    v = vn.VN(f, effects=const_effects(whole))
    call0 = v.call
    fr = {x[0]: x[2] for x in p.types["Ray"]["fields"]}

    def is_child(i):
        return "virt" in i.d and any(re.search(r"::intersect\(", t[0]) for t in i.d["virt"]["targets"])

    def call(st, i):
        if is_child(i):
            rp = [v.op(st, o) for o in i.ops]
            r, o, vs = v.ptr(rp[1])
            st.events.append(("ray", [[v.load(st, r, o + fr[m] + 4 * k, vs, 4) for k in range(3)] for m in ("origin", "direction")]))
        return call0(st, i)
    v.call = call
    ps = [q for q in v.segments() if q.kind == "ret"]
    ctx.count("paths", len(ps))
    ctx.count("functions")
    T = v.T
    off = {x[0]: x[2] for x in p.types["Asset"]["fields"]}
    ctx.need("objToWorld" in off and "worldToObj" in off, "the two matrices of Asset")
    A = alg.Alg(T)

    def M(name, r, c):
        return A.of(T.mk("mem", ("arg", 0), off[name] + 4 * (4 * r + c), (), 4, 0))

    def apply(name, vec, w, transposed=False):
        out = []
        for r in range(3):
            s = M(name, r, 3) if w and not transposed else A.num(0)
            for c in range(3):
                s = A.add(s, A.mul(M(name, c, r) if transposed else M(name, r, c), vec[c]))
            out.append(s)
        return out
    R = Ray(p, f, T, pr)
    for q in ps:
        ev = [e for e in q.events if e[0] == "call" and is_child(e[1])]
        ok = len(ev) == 1 and handed(v, ev[0], [pd, ph]) and T.node[ev[0][3][0]][0] == "mem"
        ctx.ob("delegated", "Asset::intersect", ok, q.where(), "the shape is not asked exactly once with the caller's distance and record")
        if not ok:
            continue
        e = ev[0]
        ro, rd = next(x[1] for x in q.events if x[0] == "ray")
        wo = apply("worldToObj", [A.of(x) for x in R.o], True)
        wd = apply("worldToObj", [A.of(x) for x in R.d], False)
        wr = wrow(A, M, "worldToObj", [A.of(x) for x in R.o])
        ok = all(proj(q, A, A.of(a), b, wr) for a, b in zip(ro, wo))
        ctx.ob("ray-to-object-space", "origin", ok, e[1].where(), "the origin handed to the shape is not worldToObj * origin")
        ok = all(A.equal(A.of(a), b) for a, b in zip(rd, wd))
        ctx.ob("ray-to-object-space", "direction", ok, e[1].where(), "the direction handed to the shape is not worldToObj * direction (unscaled, so that distances keep their meaning)")
        r = v.decide(q.st, q.ret)
        if q.ret == e[4]:
            r = q.holds(e[4])
        else:
            hit = q.holds(e[4])
            ctx.ob("outcome", "Asset::intersect", r is not None and r == hit, q.where(), "the instance reports something else than its shape")
        if r is None:
            ctx.ob("outcome", "Asset::intersect", False, q.where(), "a hit is reported without being transformed back")
            continue
        if not r:
            w = touched(q, D, H, e)
            ctx.ob("miss-without-effect", "Asset::intersect", not w, w.where() if w else q.where(), "a miss writes %s" % (w and written(w, f)))
            continue
        w = [x for x in q.events if x[0] in ("store", "clobber") and v.ptr(x[2])[0] == D and x[1] is not e[1]]
        ctx.ob("hit-distance", "Asset::intersect", not w, w[0][1].where() if w else "", "the distance reported by the shape is altered")
        # what the shape left in the record
        ver = 1
        def old(o):
            return T.mk("mem", H, o, (), 4, ver)
        for m, name, w1, tr in (("point_h", "objToWorld", True, False), ("dpdu", "objToWorld", False, False),
                                ("dpdv", "objToWorld", False, False), ("normal_h", "worldToObj", False, True)):
            o = list(fields(p, "HitPoint", m))
            want = apply(name, [A.of(old(k)) for k in o], w1, tr)
            got = [A.of(q.cell(H, k)) for k in o]
            if m == "point_h":
                wr = wrow(A, M, name, [A.of(old(k)) for k in o])
                ok = all(proj(q, A, a, b, wr) for a, b in zip(got, want))
            else:      # a unit vector along the transformed one
                ok = parallel(A, got, want)
            ctx.ob("hit-to-world-space", m, ok, q.where(), "%s of a reported hit is not transformed by %s%s" % (m, "the transpose of " if tr else "", name))
            if m == "normal_h":
                s = A.num(0)
                for a in got:
                    s = A.add(s, A.mul(a, a))
                ctx.ob("hit-to-world-space", "unit-normal", unit(q, A, s), q.where(), "the normal of a reported hit is not normalised")


def wrow(A, M, name, vec):
    s = M(name, 3, 3)
    for c in range(3):
        s = A.add(s, A.mul(M(name, 3, c), vec[c]))
    return s


def proj(q, A, got, want, w):
    """got = want / w, or got = want on a path that knows w to be 1"""
    if A.equal(A.mul(got, w), want):
        return True
    return A.equal(got, want) and any(b and q.vn.T.node[t][0] == "eq" and any(q.vn.num(x) == 1 and A.equal(A.of(y), w) for x, y in (q.vn.T.node[t][1:3], q.vn.T.node[t][2:0:-1]))
                                      for t, b in q.facts.items())


def unit(q, A, s):
    """a squared length is 1, or the path has bounded it close to 1"""
    if A.equal(s, A.num(1)):
        return True
    v = q.vn
    for t in [x for x in set(q.st.ge) | {y for m in q.st.ge.values() for y in m} if v.num(x) is None]:
        if A.equal(A.of(t), s):
            lo = [v.num(k) for k in consts(v, q.st) if v.reaches(q.st, t, k) is not None]
            hi = [v.num(k) for k in consts(v, q.st) if v.reaches(q.st, k, t) is not None]
            return bool(lo) and bool(hi) and max(lo) > 0.99 and min(hi) < 1.01
    return False


def parallel(A, got, want):
    """got = s*want with the same s > 0 : cross products vanish and the ratio is 1 or 1/sqrt(..)"""
    for i in range(3):
        j = (i + 1) % 3
        if not A.zero(A.sub(A.mul(got[i], want[j]), A.mul(got[j], want[i]))):
            return False
    # sign: got*norm == want for the norm that appears, i.e. got^2*|want|^2 == want^2 and the factor is a positive root
    dot = A.num(0)
    n2 = A.num(0)
    for a, b in zip(got, want):
        dot = A.add(dot, A.mul(a, b))
        n2 = A.add(n2, A.mul(b, b))
    if A.equal(dot, n2):
        return True
    return A.equal(A.mul(dot, A.sqrt(n2)), n2) or A.equal(dot, A.sqrt(n2))


# ---------------------------------------------------------------------------------------------- bounding boxes
def boxes(ctx, prog, cfg):
    """a box is reported missed only when two of its slabs do not overlap, and the reported interval is their intersection"""
    p, fl = flat(r"^AABB::intersect\(.*RayProperties", cfg=cfg)
    ctx.need(len(fl) == 1, "AABB::intersect with ray properties")
    f = fl[0]
    (pr, pp) = params(f, r"const Ray\*$", r"const RayProperties\*$")
    outs = [j for j, x in enumerate(f.d["ditypes"][1:]) if x == "float*"]
    ctx.need(len(outs) == 2, "entry and exit distance of AABB::intersect")
    v = vn.VN(f, effects=const_effects(prog))
    ps = [q for q in v.segments() if q.kind == "ret"]
    T = v.T
    ctx.count("paths", len(ps))
    ctx.count("functions")
    A = alg.Alg(T)
    R = Ray(p, f, T, pr)
    rpf = {x[0]: x[2] for x in p.types["RayProperties"]["fields"]}
    inv = [T.mk("mem", ("arg", pp), rpf[n], (), 4, 0) for n in ("inverseX", "inverseY", "inverseZ")]
    neg = [T.mk("mem", ("arg", pp), rpf[n], (), 1, 0) for n in ("isXInvNeg", "isYInvNeg", "isZInvNeg")]

    def slab(t, q):
        """(axis, 'in'|'out') of a term, by comparing it with the definition"""
        a = A.of(t)
        for k in range(3):
            h = q.holds(neg[k])
            for w in ("in", "out"):
                ways = [(4 * k, ((12, neg[k]),)) if w == "in" else (12 + 4 * k, ((-12, neg[k]),))]
                if h is not None:
                    ways.append((4 * k + (12 if h == (w == "in") else 0), ()))
                for off, vs in ways:
                    b = T.mk("mem", ("arg", 0), off, vs, 4, 0)
                    if A.equal(a, A.mul(A.sub(A.of(b), A.of(R.o[k])), A.of(inv[k]))):
                        return k, w
        return None
    cache = {}
    q = None

    def cls(t):
        key = t, tuple(q.holds(x) for x in neg)
        if key not in cache:
            try:
                cache[key] = slab(t, q)
            except AnalysisError:
                cache[key] = None
        return cache[key]
    for q in ps:
        r = v.decide(q.st, q.ret)
        if r is None:
            ctx.ob("box-outcome", "AABB::intersect", False, q.where(), "outcome not definite")
            continue
        if not r:
            why = [(x, y) for t, b in q.facts.items() if b for x, y in [v.T.node[t][1:3]] if v.T.node[t][0] == "lt"
                   and (cls(x) or (0, 0))[1] == "out" and (cls(y) or (0, 0))[1] == "in"]
            ctx.ob("box-missed-only-if-disjoint", "AABB::intersect", bool(why), q.where(),
                   "a path reports a miss although no slab is left before another one is entered")
            continue
        for a, w in zip(outs, ("in", "out")):
            c = q.st.mem.get(("arg", a), {}).get((0, ()))
            V = c[1] if c and c[2] else None
            k = cls(V) if V is not None else None
            ok = k is not None and k[1] == w
            ctx.ob("box-interval", w, ok, q.where(), "the reported %s distance is not one of the slabs'" % ("entry" if w == "in" else "exit"))
    ctx.at_least("box-missed-only-if-disjoint", 1)
    # every term compared is one of the six; the largest entry and the smallest exit are reported
    for q in ps:
        if not v.decide(q.st, q.ret):
            continue
        seen = {cls(x): x for x in range(len(T.node)) if T.node[x][0] in ("fmul", "fdiv") and cls(x)}
        for a, w in zip(outs, ("in", "out")):
            c = q.st.mem.get(("arg", a), {}).get((0, ()))
            if not c:
                continue
            for k in range(3):
                t = seen.get((k, w))
                ok = t is not None and (q.ge(c[1], t) if w == "in" else q.ge(t, c[1]))
                ctx.ob("box-interval", "%s-axis%d" % (w, k), ok, q.where(), "the reported %s distance may %s the one of axis %d" % (
                    "entry" if w == "in" else "exit", "precede" if w == "in" else "exceed", k))


# ---------------------------------------------------------------------------------------------- traversals
class Walk:
    """segments of a traversal loop: the outer head, its node / top / found variables and the stack"""

    def __init__(self, ctx, prog, f, isleafcall, boxcall):
        self.ctx, self.prog, self.f = ctx, prog, f
        self.leafcall, self.boxcall = isleafcall, boxcall
        self.v = v = vn.VN(f, effects=const_effects(prog))
        self.T = v.T
        heads = {i.i for h in v.cuts for i in f.bbs[h] if i.op == "phi" and i.ty == "ptr"}
        v.stable = lambda r: r == ("arg", 0) or r[0] == "val" and v.T.node[r[1]][0] == "phi" and v.T.node[r[1]][2] in heads
        self.ps = v.segments()
        wr = [e[1] for p in self.ps for e in p.events if e[0] in ("store", "clobber") and v.stable(v.ptr(e[2])[0])]
        ctx.ob("tree-unchanged", short(f), not wr, wr[0].where() if wr else f.name, "the walk writes to the tree it walks")
        ctx.count("segments", len(self.ps))
        ctx.count("functions")
        heads = sorted(v.cuts)
        ctx.need(len(heads) == 2, "a node loop with one leaf loop inside in " + f.name)
        a, b = heads
        self.outer, self.inner = (a, b) if b in f.reach(a) and v._inloop(b, a) and f.pos_of(a) <= f.pos_of(b) else (b, a) if False else (a, b)
        if v._dominates(b, a) and not v._dominates(a, b):
            self.outer, self.inner = b, a
        phis = {h: [i for i in f.bbs[h] if i.op == "phi"] for h in heads}
        self.node = [i for i in phis[self.outer] if i.ty == "ptr"]
        ctx.need(len(self.node) == 1, "the current node of " + f.name)
        self.node = self.node[0]
        self.N = self.T.mk("phi", self.outer, self.node.i)
        # found: what is returned
        fam = set()
        for p in self.ps:
            if p.kind == "ret":
                fam.add(p.ret)
        self.rets = fam
        self.found = {}
        for h in heads:
            for i in phis[h]:
                t = self.T.mk("phi", h, i.i)
                if t in fam and h not in self.found:
                    self.found[h] = i
        if not self.found:
            for i in phis[self.outer]:
                vals = [p.phis[i.i] for p in self.ps if p.kind == "cut" and p.dest == self.outer]
                if i.ty in ("i1", "i8") and vals and all(v.num(x) in (0, 1, -1) or self.T.node[x][0] == "phi" and f.ins[self.T.node[x][2]].ty == i.ty for x in vals):
                    self.found[self.outer] = i
        ctx.need(self.outer in self.found or self.inner in self.found, "the variable %s returns" % f.name)
        # the other head's copy of it
        for h in heads:
            if h not in self.found:
                o = next(x for x in heads if x in self.found)
                for p in self.ps:
                    if p.kind == "cut" and p.start == h and p.dest == o:
                        n = self.T.node[p.phis[self.found[o].i]]
                        if n[0] == "phi" and n[1] == h:
                            self.found[h] = f.ins[n[2]]
        # stack
        st = [i for i in f.all() if i.op == "alloca" and re.match(r"\[(\d+) x ", i.d["aty"])]
        ctx.need(len(st) == 1, "the stack of nodes of " + f.name)
        self.stack = ("alloca", st[0].i)
        self.depth = int(re.match(r"\[(\d+)", st[0].d["aty"]).group(1))
        self.elem = st[0].d["asz"] // self.depth
        self.top = None
        for p in self.ps:
            for e in p.events:
                if e[0] in ("store", "load"):
                    r, o, vs = v.ptr(e[2])
                    if r == self.stack and len(vs) == 1:
                        n = self.T.node[vs[0][1]]
                        if n[0] == "phi" and n[1] == self.outer:
                            self.top = f.ins[n[2]]
        ctx.need(self.top is not None, "the stack index of " + f.name)
        self.TOP = self.T.mk("phi", self.outer, self.top.i)

    def foundvar(self, p):
        h = p.start
        return self.T.mk("phi", h, self.found[h].i) if h in self.found else None

    def outfound(self, p):
        if p.kind == "ret":
            return p.ret
        i = self.found.get(p.dest)
        return p.phis.get(i.i) if i is not None else None

    def true(self, p, t):
        if t is None:
            return False
        n = self.v.num(t)
        return n is not None and n != 0 or p.holds(t) is True

    def empty(self, p):
        zero = self.T.const(0)
        return self.v.query_lt(p.st, zero, self.TOP) is False or p.holds(self.T.mk("ult", zero, self.TOP)) is False or p.holds(self.T.mk("eq", *sorted((zero, self.TOP))))

    def pushes(self, p):
        out = []
        for e in p.events:
            if e[0] == "store" and self.v.ptr(e[2])[0] == self.stack:
                out.append(e)
        return out

    def popped(self, p, t, off=0):
        """t is the element below the top of the stack"""
        n = self.T.node[t]
        return n[0] == "mem" and n[1] == self.stack and n[2] == off - self.elem and n[3] == ((self.elem, self.TOP),)


def common_walk(ctx, w, nm, exits):
    v, T = w.v, w.T
    zero = T.const(0)
    for p in w.ps:
        if p.kind == "ret" and p.start != 0:
            F = w.foundvar(p)
            ctx.ob("returns-found", nm, p.ret == F or w.true(p, p.ret) and w.true(p, F), p.where(), "%s returns %s" % (nm, T.show(p.ret)))
            empty = w.empty(p) or p.holds(T.mk("eq", *sorted((zero, w.N))))
            ctx.ob("ends-only-when-done", nm, bool(empty) or exits(p), p.where(), "the walk can end while nodes that could hold a closer hit are waiting")
        if p.kind == "cut" and p.dest == w.outer and p.start != 0:
            top = p.phis[w.top.i]
            k, r = v.split(top)
            nx = p.phis[w.node.i]
            if v.num(nx) == 0:
                ctx.ob("ends-only-when-done", nm, bool(w.empty(p)) or exits(p), p.where(), "the walk can end while nodes that could hold a closer hit are waiting")
            elif r == w.TOP and k == -1:
                ctx.ob("pop", nm, w.popped(p, nx), p.where(), "after a pop the next node is %s, not the one on top of the stack" % T.show(nx))
            elif r == w.TOP and k == 1:
                ev = w.pushes(p)
                ok = bool(ev) and all(v.ptr(e[2])[2] == ((w.elem, w.TOP),) for e in ev)
                ctx.ob("push", nm, ok, p.where(), "the stack grows without a node being stored on its top")
            else:
                ctx.ob("push", nm, r == w.TOP and k == 0 and not w.pushes(p), p.where(), "the stack index becomes %s" % T.show(top))
    for p in w.ps:
        if p.kind == "cut" and p.start == 0 and p.dest == w.outer:
            t = p.phis[w.top.i]
            ctx.ob("starts-empty", nm, v.num(t) == 0 and v.num(w.outfound(p)) == 0, p.where(), "the walk does not start with an empty stack and nothing found")
            n = T.node[p.phis[w.node.i]]
            ctx.ob("starts-at-root", nm, n[0] == "mem" and n[1] == ("arg", 0), p.where(), "the walk starts at %s" % T.show(p.phis[w.node.i]))


def phi_at(w, p, h):
    return {i.i: w.T.mk("phi", h, i.i) for i in w.f.bbs[h] if i.op == "phi"}


def leaf_loop(ctx, w, nm, position, elem, hit_ok, skip_ok):
    """segments of the loop over the elements of a leaf"""
    v, T, f = w.v, w.T, w.f
    inner = {T.mk("phi", w.inner, i.i): i for i in f.bbs[w.inner] if i.op == "phi" and i.ty.startswith("i") and i.ty != "i1"}
    into = [p for p in w.ps if p.kind == "cut" and p.dest == w.inner and p.start != w.inner]
    back = [p for p in w.ps if p.kind == "cut" and p.dest == w.inner and p.start == w.inner]
    # the position tested, as a linear form over what is read from the node and one counter
    C = I = None
    seen = set()
    for p in back:
        for e in p.events:
            if e[0] == "call":
                x = position(e)
                if x is not None:
                    seen.add((x[0], tuple(sorted(x[1].items()))))
    if len(seen) == 1:
        k, d = seen.pop()
        cs = [t for t, c in d if t in inner]
        if len(cs) == 1 and dict(d)[cs[0]] == 1:
            C, I = cs[0], (k, dict(d))
    step = {v.lin(p.phis[inner[C].i])[0] if v.lin(p.phis[inner[C].i])[1] == {C: 1} else None for p in back} if C is not None else {None}
    ok = C is not None and bool(into) and step in ({1}, {-1})
    ctx.ob("leaf-complete", nm + ":counter", ok, f.name, "the elements of a leaf are not taken one after the other from an array of the tree")
    if not ok:
        return
    step = step.pop()

    def at(l):
        """position tested when the counter is the linear form l -> (constant, atoms)"""
        d = dict(I[1])
        del d[C]
        for t, c in l[1].items():
            d[t] = d.get(t, 0) + c
        return I[0] + l[0], {t: c for t, c in d.items() if c}
    starts = [at(v.lin(p.phis[inner[C].i])) for p in into]
    # what the facts of an exit say about the counter: C >= bound (step 1) or C <= bound (step -1)
    ends = []
    for p in w.ps:
        if p.start != w.inner or p.kind == "cut" and p.dest == w.inner:
            continue
        b = []
        for t, x in p.facts.items():
            y = T.node[t]
            if y[0] in ("lt", "ult"):
                big, small, k = (y[2], y[1], 1) if x else (y[1], y[2], 0)          # big >= small + k
                l, m = v.lin(big), v.lin(small)
                if l[1].get(C) == 1 and C not in m[1] and step == 1:
                    b.append(minus((m[0] + k, m[1]), (l[0], {a: c for a, c in l[1].items() if a != C})))
                if m[1].get(C) == 1 and C not in l[1] and step == -1:
                    b.append(minus((l[0] - k, l[1]), (m[0], {a: c for a, c in m[1].items() if a != C})))
            elif y[0] == "eq" and x:
                l, m = v.lin(y[1]), v.lin(y[2])
                for l, m in ((l, m), (m, l)):
                    if l[1].get(C) == 1 and C not in m[1]:
                        b.append(minus(m, (l[0], {a: c for a, c in l[1].items() if a != C})))
        ends.append((p, [at(x) for x in b]))

    def nodeform(x, want):
        return x[0] == want[0] and len(x[1]) == want[1] and all(c == 1 and fromnode(w, t) for t, c in x[1].items())
    # one of the two ends is the leaf's offset, the other lies its length further
    for p in [q for q in w.ps if q.start == w.inner]:
        calls = [e for e in p.events if e[0] == "call" and w.leafcall(e[1])]
        if p.kind == "cut" and p.dest == w.inner:
            el = elem(p, C)
            if not calls:
                ctx.ob("leaf-complete", nm + ":skip", skip_ok(p, I, el), p.where(), "an element of a leaf is skipped without a sufficient reason")
                ctx.ob("found-set", nm, w.outfound(p) == w.foundvar(p), p.where(), "an element that was not hit changes the outcome")
                continue
            ok = len(calls) == 1
            ctx.ob("leaf-complete", nm + ":element", ok and hit_ok(p, I, calls[0], None), calls[0][1].where(), "the element tested is not the counter's, or distance, record or mask are not handed on")
            r = p.holds(calls[0][4])
            if r:
                ctx.ob("found-set", nm, w.true(p, w.outfound(p)), p.where(), "a hit on an element is not remembered")
                ctx.ob("hit-recorded", nm, hit_ok(p, I, calls[0], True), p.where(), "the element that was hit is not the one recorded")
            elif r is False:
                ctx.ob("found-set", nm, w.outfound(p) == w.foundvar(p), p.where(), "an element that was not hit changes the outcome")
                ctx.ob("hit-recorded", nm, hit_ok(p, I, calls[0], False), p.where(), "a missed element is recorded")
            else:
                ctx.ob("found-set", nm, False, p.where(), "the outcome of an element's test is ignored")
        else:
            ctx.ob("leaf-complete", nm + ":untested", not calls, p.where(), "the loop over a leaf is left by a path that tests an element")
    for x in starts:
        ok = nodeform(x, (0, 1)) if step == 1 else nodeform(x, (-1, 2))
        ctx.ob("leaf-complete", nm + ":start", ok, into[0].where(), "the first position tested in a leaf is %s" % showlin(T, x))
    for p, xs in ends:
        if step == 1:
            ok = any(nodeform(x, (0, 2)) and set(starts[0][1]) <= set(x[1]) for x in xs)
        else:
            ok = any(nodeform(x, (-1, 1)) and set(x[1]) <= set(starts[0][1]) for x in xs)
        ctx.ob("leaf-complete", nm + ":end", ok, p.where(), "the loop over a leaf can end before its last element")
    return


def minus(x, y):
    d = dict(x[1])
    for t, c in y[1].items():
        d[t] = d.get(t, 0) - c
    return x[0] - y[0], {t: c for t, c in d.items() if c}


def showlin(T, x):
    return " + ".join(["%s*%d" % (T.show(t), c) if c != 1 else T.show(t) for t, c in x[1].items()] + [str(x[0])])


def fromnode(w, t):
    """a field of the current node, or bits of one selected by a constant mask"""
    n = w.T.node[t]
    if n[0] == "and" and (w.v.num(n[1]) is not None or w.v.num(n[2]) is not None):
        a, b = (n[1], n[2]) if w.v.num(n[2]) is not None else (n[2], n[1])
        return fromnode(w, a)
    return n[0] == "mem" and n[1] == ("val", w.N) and not n[3]


def place(w, base):
    """(constant, atoms) of the element index of an address inside an array the object owns"""
    root, off, vs = base
    if not vs or root[0] != "val" or w.T.node[root[1]][:2] != ("mem", ("arg", 0)):
        return None
    s = min(abs(x) for x, t in vs)
    if off % s or any(x % s for x, t in vs):
        return None
    return off // s, {t: x // s for x, t in vs}


def bvh(ctx, prog, cfg, c, shapes):
    p0, fl = flat(r"^%s::intersect\(" % c, keep=[r"^AABB::intersect\(", r"^(%s)::intersect\(" % "|".join(shapes)], cfg=cfg)
    ctx.need(len(fl) == 1, c + "::intersect")
    f = fl[0]
    nm = short(f)
    f.pos_of = lambda b: b
    pd, ph, pr, pm = params(f, r"float\*$", r"HitPoint\*$", r"const Ray\*$", r"const MaskBoolean\*$")
    D, H = ("arg", pd), ("arg", ph)

    def is_leaf(i):
        n = [t[0] for t in i.d["virt"]["targets"]] if "virt" in i.d else [i.callee or ""]
        return any(re.search(r"::intersect\(", x) and not x.startswith("AABB") for x in n)

    def is_box(i):
        return (i.callee or "").startswith("AABB::intersect(")
    w = Walk(ctx, prog, f, is_leaf, is_box)
    v, T = w.v, w.T
    common_walk(ctx, w, nm, lambda p: False)
    size = prog.types["BvhNode"]["size"]
    first = T.mk("ptr", ("val", w.N), size, ())
    d_now = lambda p: p.cell(D, 0)
    for p in w.ps:
        if p.start != w.outer:
            continue
        if p.kind == "ret" and p.holds(T.mk("eq", *sorted((T.const(0), w.N)))):
            continue
        if p.kind == "cut" and p.dest == w.inner:
            continue
        box = [e for e in p.events if e[0] == "call" and is_box(e[1]) and v.ptr(e[3][0])[0] == ("val", w.N)]
        nx = p.phis[w.node.i] if p.kind == "cut" else None
        kept = [nx] if nx is not None and not w.popped(p, nx) and v.num(nx) != 0 else []
        kept += [e[3] for e in w.pushes(p)]
        if kept:
            other = [t for t in kept if t != first]
            ok = first in kept and len(other) == 1
            if ok:
                n = T.node[other[0]]
                ok = n[0] == "ptr" and n[2] == 0 and len(n[3]) == 1 and n[3][0][0] == size and n[1][0] == "val" and T.node[n[1][1]][:2] == ("mem", ("arg", 0)) \
                    and T.node[n[3][0][1]][0] == "mem" and T.node[n[3][0][1]][1] == ("val", w.N)
            ctx.ob("children-kept", nm, ok, p.where(), "of an interior node only %s is kept" % ", ".join(T.show(t) for t in kept))
        else:
            miss = any(p.holds(e[4]) is False for e in box)
            F = w.foundvar(p)
            late = False
            for e in box:
                if p.holds(e[4]) and w.true(p, F):
                    # the entry distance the box routine stored, compared with the distance found so far
                    for t, b in p.facts.items():
                        n = T.node[t]
                        if n[0] == "lt" and b and T.node[n[1]][:2] == ("mem", D) and T.node[n[2]][0] == "mem" and T.node[n[2]][1] == v.ptr(e[3][3])[0]:
                            late = True
                        if n[0] == "lt" and not b and T.node[n[2]][:2] == ("mem", D) and T.node[n[1]][0] == "mem" and T.node[n[1]][1] == v.ptr(e[3][3])[0]:
                            late = True
            # an empty leaf
            ctx.ob("node-dropped-only-if-useless", nm, miss or late, p.where(), "a node is dropped although its box was not missed and does not lie behind a hit already found")
    # leaves
    def elem(p, C):
        return None

    def hit_ok(p, C, e, hit):
        idx = place(w, v.ptr(e[3][0]))
        if idx is None:
            return False
        if hit is None:
            return handed(v, e, [pd, ph, pr, pm])
        o = fields(prog, "HitPoint", "index")[0]
        st = [x for x in p.events if x[0] == "store" and v.ptr(x[2])[0] == H]
        if not hit:
            return not st
        return v.lin(p.cell(H, o)) == idx and all(v.ptr(x[2])[1] == o for x in st)
    leaf_loop(ctx, w, nm, lambda e: place(w, v.ptr(e[3][0])) if is_leaf(e[1]) else None, elem, hit_ok, lambda p, C, el: False)


def kd(ctx, prog, cfg):
    p0, fl = flat(r"^KdTree::intersect\(", keep=[r"^AABB::intersect\(", r"^Asset::intersect"], cfg=cfg)
    ctx.need(len(fl) == 1, "KdTree::intersect")
    f = fl[0]
    nm = short(f)
    f.pos_of = lambda b: b
    ph, pr = params(f, r"HitPoint\*$", r"const Ray\*$")
    H, RY = ("arg", ph), ("arg", pr)

    def is_leaf(i):
        return (i.callee or "").startswith("Asset::intersect(")

    def is_box(i):
        return bool(re.match(r"(AABB::intersect|Asset::intersect_AABB)\(", i.callee or ""))
    w = Walk(ctx, prog, f, is_leaf, is_box)
    v, T = w.v, w.T
    # entry: the scene's box and the interval variables
    entry = [p for p in w.ps if p.start == 0]
    for p in entry:
        ev = [e for e in p.events if e[0] == "call" and is_box(e[1])]
        ctx.need(len(ev) == 1, "the test of the scene's box in " + nm)
        MINT, MAXT = v.ptr(ev[0][3][3])[0], v.ptr(ev[0][3][4])[0]
        if p.kind == "ret":
            ctx.ob("ends-only-when-done", nm + ":scene", p.holds(ev[0][4]) is False and v.num(p.ret) == 0, p.where(), "a ray is said to miss the scene although it enters its box")
    best = None
    for p in w.ps:
        for e in p.events:
            if e[0] == "call" and is_leaf(e[1]):
                best = v.ptr(e[3][2])[0]
    ctx.need(best is not None, "the call of Asset::intersect")
    start = [p for p in entry if p.kind == "cut"]
    for p in start:
        b = v.num(p.cell(best, 0))
        ctx.ob("starts-unbounded", nm, b is not None and b > 1e38, p.where(), "the best distance starts as %s" % T.show(p.cell(best, 0)))

    def cell0(root):
        return T.mk("mem", root, 0, (), 4, 0)
    mint, maxt, bd = cell0(MINT), cell0(MAXT), cell0(best)

    def exits(p):
        # the best distance lies before the current node's interval
        return v.query_lt(p.st, bd, mint) is True and p.start == w.outer
    common_walk(ctx, w, nm, exits)
    size = prog.types["KdTreeNode"]["size"]
    first = T.mk("ptr", ("val", w.N), size, ())
    for p in w.ps:
        if p.kind == "cut" and p.dest == w.outer and w.popped(p, p.phis[w.node.i]):
            a, b = p.cell(MINT, 0), p.cell(MAXT, 0)
            offs = []
            for t in (a, b):
                n = T.node[t]
                ok = n[0] == "mem" and n[1] == w.stack and n[3] == ((w.elem, w.TOP),)
                offs.append(n[2] + w.elem if ok else None)
            ctx.ob("interval-restored", nm, offs == [fo(w, "mint"), fo(w, "maxt")], p.where(), "after a pop the interval is [%s, %s]" % (T.show(a), T.show(b)))
            continue
        if p.start != w.outer or p.kind != "cut" or p.dest != w.outer:
            continue
        nx = p.phis[w.node.i]
        if v.num(nx) == 0:
            continue
        ev = w.pushes(p)
        kept = {nx}
        slots = {}
        for e in ev:
            slots[v.ptr(e[2])[1]] = e[3]
        far = slots.get(0)
        axis, planet = plane(w, p, pr)
        ctx.ob("plane-distance", nm, planet is not None, p.where(), "the distance to the splitting plane is not (split - origin)/direction of the node's axis")
        if planet is None:
            continue
        o = T.mk("mem", RY, origin(prog, "origin"), ((4, axis),), 4, 0)
        d = T.mk("mem", RY, origin(prog, "direction"), ((4, axis),), 4, 0)
        s = T.mk("mem", ("val", w.N), 0, (), 4, 0)
        lt, gt = v.query_lt(p.st, o, s), v.query_lt(p.st, s, o)
        eq = v.decide(p.st, T.mk("eq", *sorted((o, s))))
        below = True if lt else False if lt is False and eq is False else None
        if below is None and eq:
            zl = v.query_lt(p.st, T.const(0), d)
            below = None if zl is None else not zl
        def isfirst(t):
            return t == first
        def isother(t):
            n = T.node[t]
            return n[0] == "ptr" and n[1][0] == "val" and T.node[n[1][1]][:2] == ("mem", ("arg", 0)) and n[2] == 0 and len(n[3]) == 1 and n[3][0][0] == size
        ok = (isfirst(nx) or isother(nx)) and below is not None
        ctx.ob("children-kept", nm + ":known", ok, p.where(), "the next node %s is not one of the two children chosen by the side the ray starts on" % T.show(nx))
        if not ok:
            continue
        near = isfirst(nx) == below
        if far is None:
            beyond = v.query_lt(p.st, maxt, planet) is True
            behind = v.query_lt(p.st, T.const(0), planet) is False
            before = v.query_lt(p.st, planet, mint) is True
            if near:
                ctx.ob("children-kept", nm + ":far", beyond or behind, p.where(), "the far child is dropped although the ray crosses the splitting plane inside the node")
            else:
                ctx.ob("children-kept", nm + ":near", before and v.query_lt(p.st, T.const(0), planet) is not False, p.where(), "the near child is dropped although the ray is still on its side when it enters the node")
            ctx.ob("interval", nm + ":single", p.cell(MINT, 0) == mint and p.cell(MAXT, 0) == maxt, p.where(), "the interval of a node's only child changes")
        else:
            okc = near and (isother(far) if isfirst(nx) else isfirst(far))
            ctx.ob("children-kept", nm + ":order", okc, p.where(), "the near child is not visited first with the far one waiting")
            a, b = slots.get(fo(w, "mint")), slots.get(fo(w, "maxt"))
            okp = a is not None and b is not None and (a in (planet, mint) or v.query_lt(p.st, planet, a) is False) and (b == maxt or v.query_lt(p.st, b, maxt) is False)
            ctx.ob("interval", nm + ":far", okp, p.where(), "the far child's interval [%s, %s] does not cover the part behind the plane" % (a and T.show(a), b and T.show(b)))
            a, b = p.cell(MINT, 0), p.cell(MAXT, 0)
            ctx.ob("interval", nm + ":near", a == mint and b in (planet, maxt), p.where(), "the near child's interval is [%s, %s]" % (T.show(a), T.show(b)))

    def elemptr(C):
        return None

    def spot(t):
        """index in the array of pointers from which the pointer t (or the object around it) was read"""
        n = T.node[t]
        if n[0] == "ptr":
            t = n[1][1] if n[1][0] == "val" else t
            n = T.node[t]
        return place(w, n[1:4]) if n[0] == "mem" else None

    def the_elem(t, I):
        return spot(t) == I

    def hit_ok(p, C, e, hit):
        if hit is None:
            return the_elem(e[3][0], C) and handed(v, e, [ph, pr]) and v.ptr(e[3][2])[0] == best
        o = fields(prog, "HitPoint", "asset_h")[0]
        st = [x for x in p.events if x[0] == "store" and v.ptr(x[2])[0] == H]
        if not hit:
            return not st
        return p.cell(H, o, 8) == e[3][0] and all(v.ptr(x[2])[1] == o for x in st)

    def skip_ok(p, C, el):
        ev = [e for e in p.events if e[0] == "call" and is_box(e[1]) and the_elem(e[3][0], C)]
        if len(ev) != 1:
            return False
        if p.holds(ev[0][4]) is False:
            return True
        r = v.ptr(ev[0][3][3])[0]
        for t, b in p.facts.items():
            n = T.node[t]
            if n[0] == "lt" and not b and T.node[n[1]][:2] == ("mem", r) and n[2] == bd:
                return True
            if n[0] == "lt" and b and n[1] == bd and T.node[n[2]][:2] == ("mem", r):
                return True
        return False
    leaf_loop(ctx, w, nm, lambda e: spot(e[3][0]) if is_leaf(e[1]) or is_box(e[1]) else None, lambda p, C: None, hit_ok, skip_ok)


def origin(prog, m):
    return next(x[2] for x in prog.types["Ray"]["fields"] if x[0] == m)


def fo(w, name):
    for c, t in w.prog.types.items():
        fs = {x[0]: x[2] for x in t["fields"]}
        if t["size"] == w.elem and name in fs and "node" in fs:
            return fs[name]
    return {"mint": 8, "maxt": 12}[name]


def plane(w, p, pr):
    """(axis term, distance term) when some compared term is (split - origin[axis]) * inverse[axis]"""
    v, T = w.v, w.T
    A = alg.Alg(T)
    s = T.mk("mem", ("val", w.N), 0, (), 4, 0)
    oo = origin(w.prog, "origin")
    inv0 = next(x[2] for x in w.prog.types["RayProperties"]["fields"] if x[0] == "inverseX")
    for t in p.facts:
        n = T.node[t]
        if n[0] != "lt":
            continue
        for x in n[1:3]:
            m = T.node[x]
            if m[0] not in ("fmul", "fdiv"):
                continue
            org = [y for y in subterms(T, x) if T.node[y][0] == "mem" and T.node[y][1] == ("arg", pr) and T.node[y][2] == oo and len(T.node[y][3]) == 1]
            for o in org:
                ax = T.node[o][3][0][1]
                for y in subterms(T, x):
                    k = T.node[y]
                    if k[0] == "mem" and k[1][0] == "alloca" and (k[2] == inv0 and k[3] == ((4, ax),) or not k[3] and (k[2] - inv0) // 4 == axis_of(w, p, ax)):
                        if A.equal(A.of(x), A.mul(A.sub(A.of(s), A.of(o)), A.of(y))):
                            return ax, x
                    if k[0] == "mem" and k[1] == ("arg", pr) and k[2] == origin(w.prog, "direction") and k[3] == ((4, ax),):
                        if A.equal(A.of(x), A.div(A.sub(A.of(s), A.of(o)), A.of(y))):
                            return ax, x
    return None, None


def axis_of(w, p, ax):
    """the axis the path's comparisons leave for ax"""
    left = []
    for k in range(3):
        h = p.holds(w.T.mk("eq", *sorted((ax, w.T.const(k)))))
        if h:
            return k
        if h is None:
            left.append(k)
    return left[0] if len(left) == 1 else None


def subterms(T, t, d=0):
    yield t
    if d < 6:
        for x in T.node[t][1:]:
            if isinstance(x, int) and not isinstance(x, bool) and T.node[t][0] in ("fmul", "fdiv", "fsub", "fadd", "fneg"):
                yield from subterms(T, x, d + 1)


# ---------------------------------------------------------------------------------------------- shadow rays
def occluded(ctx, prog, cfg):
    p0, fl = flat(r"^OcclusionTester::is_occluded\(", keep=[r"^KdTree::intersect\(", r"^Asset::intersect\("], cfg=cfg)
    ctx.need(len(fl) == 1, "OcclusionTester::is_occluded")
    f = fl[0]
    v = vn.VN(f, effects=const_effects(prog))
    T = v.T
    ps = [p for p in v.segments() if p.kind == "ret"]
    ctx.count("paths", len(ps))
    pr, pdist = params(f, r"const Ray\*$", r"float$")
    limit = T.mk("in", pdist)
    A = alg.Alg(T)
    for p in ps:
        scene = [e for e in p.events if e[0] == "call" and e[2].startswith("KdTree::intersect(")]
        inst = [e for e in p.events if e[0] == "call" and e[2].startswith("Asset::intersect(")]
        ok = all(handed(v, e, [pr]) for e in scene + inst)
        ctx.ob("shadow-ray", "ray", ok, p.where(), "another ray than the one given is tested")
        r = v.decide(p.st, p.ret)
        n = T.node[p.ret]
        if r is False:
            ok = any(p.holds(e[4]) is False for e in scene)
            if not ok and any(p.holds(e[4]) for e in scene):
                ok = any(not b and T.node[t][0] == "lt" and T.node[t][2] == limit for t, b in p.facts.items())
            ctx.ob("shadow-ray", "unoccluded", ok, p.where(), "a point is reported lit without the whole scene having been asked")
        elif r:
            ok = any(b and T.node[t][0] == "lt" and T.node[t][2] == limit for t, b in p.facts.items()) and any(p.holds(e[4]) for e in scene + inst)
            ctx.ob("shadow-ray", "occluded", ok, p.where(), "a point is reported shadowed without a hit closer than the light")
        else:
            ok = n[0] == "lt" and n[2] == limit and any(p.holds(e[4]) for e in scene)
            ctx.ob("shadow-ray", "compared", ok, p.where(), "the outcome %s is not a comparison of a hit's distance with the light's" % T.show(p.ret))
