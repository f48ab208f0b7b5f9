"""Value-flow analysis of the film: every store into a pixel is decomposed, component by component, into the value
previously held by the same component of the same pixel plus a contribution; the contribution must be the sample's
colour channel times the filter weight (and the weight itself for the weight component), computed for that pixel's
offset from the sample, or the matching component of a postponed entry taken from the queue exactly once.  The pixel
loops must cover the filter footprint clamped to the image, each pixel of it being updated or postponed exactly once
on every path, and the saved image must hold, for every pixel, its components divided by its accumulated weight."""
import re
import flow, ir, front
from front import AnalysisError
from common import *
from film import *
from c02 import loop_header, loop_body, loop_range

LEVEL = "other"
ASSUMES = ["floating-point rounding is ignored", "filters only read their arguments"]
COMP = ["cie_x", "cie_y", "cie_z", "samples"]
PUSH = r"^std::(stack|queue|vector|deque|list)<TodoPixel.*>::(push|push_back|emplace|emplace_back)(<.*>)?\("
TOP = r"^std::(stack|queue|vector|deque|list)<TodoPixel.*>::(top|front|back)\("
POP = r"^std::(stack|queue|vector|deque|list)<TodoPixel.*>::(pop|pop_back|pop_front)\("
QRY = r"^std::(stack|queue|vector|deque|list)<TodoPixel.*>::(empty|size)\("


def run(ctx):
    cfgs = [front.RGB] if ctx.tier == "quick" else [front.RGB, front.RGB_DBG, front.FULL]
    for cfg in cfgs:
        one(ctx, cfg)


def one(ctx, cfg):
    prog = program(cfg)
    cg = callgraph(prog)
    inside = {f.link for f in prog.funcs if f.id == "" and f.name.startswith("ImageFilm::")}
    called = {t for l in prog.all if l not in inside for t in cg.get(l, ())}
    wr = reach(prog, {e.link for e, _, _ in thread_entries(prog)})
    # outermost functions through which threads reach film cells or the postponed queue
    prim = {f.link for f in prog.funcs if f.id == "" and f.link in wr and any(touches(f, i) for i in f.all())}
    ctx.need(prim, "functions that update film pixels")
    roots = {l for l in inside & wr & called if reach(prog, {l}) & prim}
    rest = prim - set().union(*[reach(prog, {l}) for l in roots]) if roots else prim
    for l in rest:
        # code outside the film class handling pixels directly
        if not re.match(r"Array2D<", prog.all[l].name) and l not in {e.link for e, _, _ in thread_entries(prog)}:
            roots.add(l)
    fs = [prog.all[l] for l in sorted(roots)]
    p, fl = flat(entry_regex(fs), keep=[r"^Console", r"^Filter\w*::"], cfg=cfg)
    sizes = {n[0]: n[2] for n in prog.types["Pixel"]["fields"]}
    ctx.need(set(COMP) <= set(sizes), "film pixel components")
    for f in fl:
        update(ctx, f, prog, {v: k for k, v in sizes.items()})
    ctx.at_least("component-accumulates", 8)
    ctx.at_least("postponed-entry", 5)
    ctx.at_least("once-per-pixel", 1)
    save(ctx, prog, cfg, {v: k for k, v in sizes.items()})


def touches(f, i):
    if film_access(f, i):
        return True
    return i.op == "call" and re.match(r"^std::(stack|queue|vector|deque|list)<TodoPixel.*>::(top|push|pop|front|back)", i.callee or "") is not None


# ---------------------------------------------------------------- addresses and components
def cell(e, offs):
    """(cell base expression, byte offset) of a film address expression"""
    off = 0
    inv = {v: k for k, v in offs.items()}
    while isinstance(e, tuple):
        if e[0] == "idx" and e[2][0] == "c":
            off += e[2][1]
            e = e[1]
        elif e[0] == "fld" and e[2] == "Pixel":
            off += inv[e[3]]
            e = e[1]
        else:
            break
    return e, off


def lanes(f, i):
    """[(byte offset within the store, operand or ('lane', operand, k))]"""
    o = i.ops[0]
    ty = operand_ty(f, o)
    m = re.match(r"<(\d+) x float>", ty)
    if not m:
        return [(0, o)]
    return [(4 * k, lane(f, o, k)) for k in range(int(m.group(1)))]


def lane(f, o, k):
    for _ in range(16):
        if o[0] != "v":
            break
        x = f.ins[o[1]]
        if x.op == "insertelement" and x.ops[2][0] == "c":
            if x.ops[2][1] == k:
                return x.ops[1]
            o = x.ops[0]
        else:
            break
    return ("lane", o, k)


def operand_ty(f, o):
    if o[0] == "v":
        return f.ins[o[1]].ty
    if o[0] == "a":
        return f.args[o[1]]["ty"]
    return ""


def lin(f, o):
    if o[0] == "v" and f.ins[o[1]].op == "extractelement" and f.ins[o[1]].ops[1][0] == "c":
        o = lane(f, f.ins[o[1]].ops[0], f.ins[o[1]].ops[1][1])
    if o[0] == "lane":
        return {("extractelement", f.ex(o[1]), ("c", o[2])): 1}
    return flow.linear(f, o)


def old_of(f, k, offs):
    """(cell, component name) when key k is a film component read"""
    n = 0
    if k and k[0] == "extractelement" and k[2][0] == "c":
        n, k = 4 * k[2][1], k[1]
    if k and k[0] == "load":
        b, o = cell(k[1], offs)
        if is_film_expr(b):
            return b, offs.get(o + n)
    return None


def is_film_expr(b):
    return ir.contains(b, lambda x: isinstance(x, tuple) and x and x[0] == "fld" and x[2] == "ImageFilm" and x[3] == "buffer") or \
        ir.contains(b, lambda x: isinstance(x, tuple) and x and x[0] == "fld" and str(x[2]).startswith("Array2D") and x[3] == "data")


def leaves(f, o, depth=0, seen=None):
    """values an operand can take through selections (loop counters excluded)"""
    seen = set() if seen is None else seen
    if o[0] == "lane":
        v, k = o[1], o[2]
        if v[0] == "v" and depth < 20:
            x = f.ins[v[1]]
            if x.op == "phi":
                if (v[1], k) in seen:
                    return []
                seen.add((v[1], k))
                return [y for _, z in x.d["in"] for y in leaves(f, lane(f, z, k), depth + 1, seen)]
            if x.op == "select":
                return [y for z in x.ops[1:] for y in leaves(f, lane(f, z, k), depth + 1, seen)]
        return [o]
    if o[0] == "v" and depth < 20:
        x = f.ins[o[1]]
        if x.op == "phi":
            if o[1] in seen:
                return []
            seen.add(o[1])
            return [y for _, z in x.d["in"] for y in leaves(f, z, depth + 1, seen)]
        if x.op == "select":
            return [y for z in x.ops[1:] for y in leaves(f, z, depth + 1, seen)]
        if x.op in ("fpext", "fptrunc", "freeze"):
            return leaves(f, x.ops[0], depth + 1, seen)
        if x.op == "extractelement" and x.ops[1][0] == "c":
            return leaves(f, lane(f, x.ops[0], x.ops[1][1]), depth + 1, seen)
        if x.op == "call" and re.match(r"llvm\.(maxnum|minnum)|f?(max|min)f?$", x.callee or ""):
            return [y for z in x.ops for y in leaves(f, z, depth + 1, seen)]
    return [o]


def channel(f, o, colour):
    """index 0..2 of the colour channel carried by operand o (clamping against constants allowed), or None"""
    got = set()
    for l in leaves(f, o):
        if l[0] in ("c", "d"):
            continue
        if l[0] == "lane" and l[1][0] == "a":
            got.add((l[1][1], l[2]))
        elif l[0] == "a":
            got.add((l[1], 0))
        elif l[0] == "v":
            e = f.ex(l)
            if e[0] == "load" and e[1][0] == "fld" and e[1][2].startswith("Color") and e[1][3] in "rgb":
                return "rgb".index(e[1][3])
            return None
        else:
            return None
    if len(got) != 1:
        return None
    return colour.index(got.pop()) if next(iter(got)) in colour else None


def colour_args(f):
    out = []
    for k, a in enumerate(f.args):
        m = re.match(r"<(\d) x float>", a["ty"])
        if m:
            out += [(k, j) for j in range(int(m.group(1)))]
        elif a["ty"] == "float" and "coerce" in a["name"]:
            out.append((k, 0))
    return out


def factors(f, o):
    if o[0] == "v" and f.ins[o[1]].op == "fmul":
        return [f.ins[o[1]].ops[0], f.ins[o[1]].ops[1]]
    return None


def delta_operand(f, o, offs):
    """stored operand = old component + delta: (old key, delta operand, sign ok)"""
    if o[0] == "v" and f.ins[o[1]].op in ("fadd",):
        a, b = f.ins[o[1]].ops
        for x, y in ((a, b), (b, a)):
            l = lin(f, x)
            if len(l) == 1 and list(l.values()) == [1]:
                k = next(iter(l))
                if k is not None and old_of(f, k, offs):
                    return old_of(f, k, offs), y
    return None, None


def elem_field(f, e):
    """(call id of the taken element, member) when e reads a postponed entry"""
    if not (e and e[0] == "load"):
        return None
    a, off, fld = e[1], 0, None
    while isinstance(a, tuple):
        if a[0] == "idx" and a[2][0] == "c":
            off += a[2][1]
            a = a[1]
        elif a[0] == "fld" and a[2] == "TodoPixel":
            fld = a[3]
            a = a[1]
        else:
            break
    if a[0] == "call" and re.match(TOP, a[1]):
        if fld is None:
            for n in elem_field.fields:
                if n[2] == off:
                    fld = n[0]
        return a[3], fld
    return None


def update(ctx, f, prog, offs):
    elem_field.fields = prog.types["TodoPixel"]["fields"]
    colour = colour_args(f)
    groups = {}
    for i in f.all():
        if i.op == "store" and film_access(f, i):
            b, o = cell(f.addr(i), offs)
            for d, v in lanes(f, i):
                groups.setdefault(b, []).append((i, offs.get(o + d), v))
    name = f.scoped
    sinks = []      # (instruction standing for the pixel update, x operand, y operand)
    for n, (b, comps) in enumerate(groups.items()):
        inst = "%s update %d" % (name, n)
        byc = {}
        for i, c, v in comps:
            byc.setdefault(c, []).append((i, v))
        first = comps[0][0]
        ctx.ob("all-components", inst, set(byc) == set(COMP), first.where(), "components written: %s" % ", ".join(sorted(str(x) for x in byc)))
        delta = {}
        for c, lst in byc.items():
            for i, v in lst:
                old, d = delta_operand(f, v if v[0] != "lane" else ["?"], offs)
                ok = old is not None and old == (b, c)
                ctx.ob("component-accumulates", "%s %s" % (inst, c), ok, i.where(),
                       "adds to what the pixel held" if ok else "the stored value is not the same component of the same pixel plus a contribution")
                if ok:
                    delta.setdefault(c, []).append(d)
            blocks = [i.bb for i, _ in lst]
            ctx.ob("component-once", "%s %s" % (inst, c), len(lst) == len(set(blocks)) and not any(
                f.reachable_from(x, y) and not separated(f, x, y) for x, _ in lst for y, _ in lst if x is not y), lst[0][0].where(),
                "added once per update")
        xy = coords(f, first.ops[1])
        if xy is None:
            raise AnalysisError("pixel coordinates not recognised at " + first.where())
        if set(delta) != set(COMP):
            continue
        d = {c: v[0] for c, v in delta.items()}
        ef = {c: elem_field(f, f.ex(v)) for c, v in d.items()}
        if any(ef.values()):
            src = {x[0] for x in ef.values() if x}
            for c in COMP:
                ctx.ob("postponed-entry", "%s %s" % (inst, c), ef[c] is not None and ef[c][1] == c and len(src) == 1, first.where(),
                       "component %s receives the entry's %s" % (c, ef[c] and ef[c][1]))
            for ax in "xy":
                e = elem_field(f, f.ex(xy[ax]))
                ctx.ob("postponed-entry", "%s coordinate %s" % (inst, ax), e is not None and e[1] == ax and e[0] in src, first.where(),
                       "pixel coordinate %s is the entry's %s" % (ax, e and e[1]))
            once(ctx, f, inst, [i for i, _, _ in comps])
        else:
            contribution(ctx, f, inst, first, d, xy, colour, prog)
            sinks.append((first, xy))
    for i in f.calls():
        if re.match(PUSH, i.callee or ""):
            vals = fields_at(f, i.ops[1], i, "TodoPixel", prog)
            inst = "%s postponed" % name
            for k, v in vals.items():
                ctx.ob("entry-complete", "%s %s" % (inst, k), v is not None, i.where(), "value of %s when the entry is queued" % k)
            if all(vals.get(c) is not None for c in COMP + ["x", "y"]):
                xy = {"x": strip(f, vals["x"]), "y": strip(f, vals["y"])}
                contribution(ctx, f, inst, i, {c: vals[c] for c in COMP}, xy, colour, prog)
                sinks.append((i, xy))
    if sinks:
        per_pixel(ctx, f, name, sinks)


def separated(f, a, b):
    """a and b belong to different iterations"""
    h = loop_header(f, a.bb)
    return h is not None and not (b.bb in f.reach(a.bb, skip={h}) or (a.bb == b.bb and b.pos > a.pos))


def contribution(ctx, f, inst, at, d, xy, colour, prog):
    w = d["samples"]
    wk = f.ex(w)
    call = f.ins[w[1]] if w[0] == "v" else None
    isw = call is not None and call.op == "call" and "virt" in call.d and any("::weight(" in t[0] for t in call.d["virt"]["targets"])
    ctx.ob("weight", inst, isw, at.where(), "the pixel's weight grows by the filter weight of this sample")
    for n, c in enumerate(COMP[:3]):
        fa = factors(f, d[c])
        ok, why = False, "not a product of the filter weight and a colour channel"
        if fa:
            other = [x for x in fa if f.ex(x) != wk]
            if len(other) == 1:
                ch = channel(f, other[0], colour)
                ok, why = ch == n, "channel %s times the filter weight" % ("?" if ch is None else "XYZ"[ch] if ch < 3 else ch)
        ctx.ob("contribution", "%s %s" % (inst, c), ok, at.where(), why)
    if not isw:
        return
    for n, ax in enumerate("xy"):
        l = flow.linear(f, call.ops[1 + n])
        me = flow.linear(f, xy[ax])
        r = flow.ladd(l, me, -1)
        pos = [k for k in r if isinstance(k, tuple) and k[0] == "load" and k[1][0] == "fld" and k[1][2:4] == ("Sample", "pos" + ax)]
        ok = len(pos) == 1 and r[pos[0]] == -1 and abs(r.get(None, 0) - 0.5) < 1e-9 and len(r) == 2
        ctx.ob("weight-offset", "%s %s" % (inst, ax), ok, call.where(), "weight evaluated at pixel centre minus sample position")


def per_pixel(ctx, f, name, sinks):
    """exactly one update or postponement per pixel of the footprint, on every path; footprint is complete"""
    hdrs = {loop_header(f, s.bb) for s, _ in sinks}
    ctx.need(len(hdrs) == 1 and None not in hdrs, "one pixel loop in %s" % name)
    h = hdrs.pop()
    ids = {s.i for s, _ in sinks}
    body = loop_body(f, h)
    latches = {b for b in body if h in f.succ[b]}
    bad = []

    def tr(i, st, facts):
        if i.i in ids:
            return [min(st + 1, 2)]
        return [st]

    def edge(st, b, n, facts):
        if n == h:
            if b in body and st != 1:
                bad.append((b, st))
            return 0
        if n not in body and b in body and b != h and not (b in latches and st == 1):
            bad.append((b, st))
        return st
    flow.simulate(f, 0, tr, on_edge=edge)
    at = sinks[0][0]
    ctx.ob("once-per-pixel", name, not bad, f.term(bad[0][0]).where() if bad else at.where(),
           "each pixel of the footprint is updated or postponed exactly once" if not bad else
           "a path through the pixel loop %s" % ("skips the pixel" if bad[0][1] == 0 else "adds the sample more than once" if bad[0][1] > 1 else "leaves the footprint early"))
    for ax in "xy":
        o = sinks[0][1][ax]
        for s, xy in sinks[1:]:
            ctx.ob("same-pixel", "%s %s" % (name, ax), f.ex(xy[ax]) == f.ex(o), s.where(), "all branches treat the same pixel")
        footprint(ctx, f, name, at, ax, o)


def footprint(ctx, f, name, at, ax, o):
    if o[0] != "v" or not flow.induction(f, f.ins[o[1]]):
        raise AnalysisError("pixel loop counter along %s not recognised at %s" % (ax, at.where()))
    init, step = flow.induction(f, f.ins[o[1]])
    uppers = {}
    for e, strict, hi, lo, isf in sorted(flow.facts_ge(f, at.bb), key=repr):
        if f.ex(lo) == f.ex(o) and not ir.contains(f.ex(hi), lambda x: isinstance(x, tuple) and x[:1] == ("load",) and isinstance(x[1], tuple) and x[1][0] == "fld" and x[1][2] == "ExecutorData"):
            uppers[f.ex(hi)] = (hi, 0 if strict else 1)
    if not uppers:
        raise AnalysisError("pixel loop bound along %s not recognised at %s" % (ax, at.where()))
    ctx.ob("footprint-dense", "%s %s" % (name, ax), step == 1, at.where(), "advances by %s" % step)

    def arms(op):
        return leaves(f, op)

    def rounded(op):
        """(kind, linear of the rounded argument, added constant)"""
        k = 0
        while op[0] == "v" and f.ins[op[1]].op in ("add", "sub") and f.ins[op[1]].ops[1][0] == "c":
            k += f.ins[op[1]].ops[1][1] * (1 if f.ins[op[1]].op == "add" else -1)
            op = f.ins[op[1]].ops[0]
        r = flow._round_src(f, op)
        return None if r is None else (r[0], flow.linear(f, r[1]), k)

    def ref(l, sgn):
        """constant c with l = pos - 0.5 + sgn*range + c"""
        pos = [k for k in l if isinstance(k, tuple) and k[0] == "load" and k[1][0] == "fld" and k[1][2:4] == ("Sample", "pos" + ax)]
        rng = [k for k in l if isinstance(k, tuple) and k[0] == "load" and k[1][0] == "fld" and k[1][2:4] == ("Filter", "range_" + ax)]
        if len(pos) != 1 or len(rng) != 1 or l[pos[0]] != 1 or l[rng[0]] * sgn != 1 or len([k for k in l if k is not None]) != 2:
            return None
        return l.get(None, 0) + 0.5
    dim = "width" if ax == "x" else "height"
    seen = {"low": [False, False], "high": [False, False]}
    for side, op, extra in [("low", init, 0)] + [("high", a, b) for a, b in uppers.values()]:
        clamp = edge = False
        for a in arms(op):
            r = rounded(a)
            if r is None:
                l = flow.linear(f, a)
                if side == "low":
                    good = flow.const_of(l) == 0
                    clamp |= good
                    ctx.ob("footprint-clamp", "%s %s %s" % (name, ax, side), good, at.where(), "clamped to the first pixel")
                else:
                    k = [x for x in l if isinstance(x, tuple)]
                    good = len(k) == 1 and k[0][0] == "load" and k[0][1][0] == "fld" and k[0][1][3] == dim and l.get(None, 0) + extra == 0
                    clamp |= good
                    ctx.ob("footprint-clamp", "%s %s %s" % (name, ax, side), good, at.where(), "clamped to the image %s" % dim)
                continue
            c = ref(r[1], -1 if side == "low" else 1)
            if c is None:
                ctx.ob("footprint", "%s %s %s" % (name, ax, side), False, at.where(), "the reach is not sample position -0.5 %s range_%s" % ("-" if side == "low" else "+", ax))
                edge = True
                continue
            if side == "low":
                # first pixel <= ceil(pos-0.5-range)
                ok = (r[0] in ("ceil", "floor")) and c + r[2] <= 0
            else:
                # last pixel = floor(..)+k+extra-1 >= floor(pos-0.5+range)
                ok = (r[0] in ("floor", "ceil")) and c + r[2] + extra - 1 >= 0
            edge = True
            ctx.ob("footprint", "%s %s %s" % (name, ax, side), ok, at.where(),
                   "reaches every pixel within the filter range" if ok else "the %s pixel within the filter range gets no contribution" % ("first" if side == "low" else "last"))
        seen[side][0] |= clamp
        seen[side][1] |= edge
    for side in ("low", "high"):
        ctx.ob("footprint-clamp", "%s %s %s present" % (name, ax, side), seen[side][0], at.where(), "pixels outside the image are never touched")
        if not seen[side][1]:
            raise AnalysisError("footprint along %s not recognised" % ax)


def once(ctx, f, inst, stores):
    """each entry taken from the queue is added once: pops and additions alternate"""
    bad = []
    ids = {s.i for s in stores}
    firsts = {min(ids)}
    stale = []

    def tr(i, st, facts):
        pops, adds, fresh = st
        c = i.callee or ""
        if re.match(TOP, c) and i.op == "call":
            fresh = True
        elif re.match(POP, c) and i.op == "call":
            pops += 1
            fresh = False
        elif i.i in firsts:
            adds += 1
        elif i.op == "load" and not fresh and elem_field(f, ("load", f.addr(i))):
            stale.append(i)
        if pops - adds not in (0, 1, -1) or ((re.match(QRY, c) or i.op == "ret") and pops != adds):
            bad.append(i)
            return None
        if pops == adds:
            pops = adds = 0
        return [(pops, adds, fresh)]
    flow.simulate(f, (0, 0, False), tr)
    ctx.ob("taken-once", inst, not bad, bad[0].where() if bad else stores[0].where(),
           "every entry removed from the queue is added exactly once" if not bad else "an entry is lost or added twice")
    ctx.ob("entry-alive", inst, not stale, stale[0].where() if stale else stores[0].where(), "entries are read before they are removed")


def save(ctx, prog, cfg, offs):
    cand = [f for f in prog.funcs if f.id == "" and any((i.callee or "") == "img_write" for i in f.calls())]
    ctx.need(cand, "function saving the image")
    p, fl = flat(entry_regex(cand), keep=[r"^img_", r"^Console", r"^ColorXYZ::to_", r"^File"], cfg=cfg)
    for f in fl:
        w = [i for i in f.calls() if i.callee == "img_write"][0]
        W, H, buf = w.ops[2], w.ops[3], w.ops[4]
        for k, o in (("width", W), ("height", H)):
            e = f.ex(o)
            ctx.ob("saved-size", "%s %s" % (f.scoped, k), e[0] == "load" and e[1][0] == "fld" and e[1][3] == k, w.where(), "image saved with the film's %s" % k)
        # pixel average
        div = [i for i in f.all() if i.op == "fdiv"]
        ctx.need(div, "normalisation by weight")
        for i in div:
            l = lin(f, i.ops[1])
            k = next(iter(l)) if len(l) == 1 else None
            o = old_of(f, k, offs) if k is not None else None
            ctx.ob("average", "%s divisor" % f.scoped, o is not None and o[1] == "samples", i.where(), "divides by the pixel's accumulated weight")
            guard = False
            for p_, a, b, x in flow.comparisons(f, flow.edge_facts(f, i.bb)):
                if x.op == "fcmp" and (f.ex(a) == k and b[0] in ("c", "d") and float(b[1]) == 0 and p_ in ("ogt", "one", "une", "ugt") or
                                       f.ex(b) == k and a[0] in ("c", "d") and float(a[1]) == 0 and p_ in ("olt", "one", "une", "ult")):
                    guard = True
            ctx.ob("average-guarded", f.scoped, guard, i.where(), "pixels without samples are not divided")
        ctor = [i for i in f.all() if i.op == "call" and re.match(r"^ColorXYZ::to_sRGB", i.callee or "")]
        ctx.need(ctor, "colour conversion of the pixel")
        for c in ctor:
            comps = conv_args(f, c, prog)
            for n in range(3):
                src = averaged(f, comps[n], offs) if comps and comps[n] is not None else None
                ctx.ob("average", "%s %s" % (f.scoped, COMP[n]), src == COMP[n], c.where(), "channel %s converted from component %s over weight" % ("XYZ"[n], src))
        # every pixel stored at its own place
        st = [i for i in f.all() if i.op == "store" and i.ops[1][0] == "v" and f.root(i.ops[1])[0] == buf and not film_access(f, i)]
        ctx.need(st, "stores into the saved image")
        for i in st[:1]:
            place(ctx, f, i, W, H, offs)


def conv_args(f, c, prog):
    """operands of the three components of the colour object converted by call c"""
    recv = c.ops[0]
    cs = [i for i in f.calls() if re.match(r"^ColorXYZ::ColorXYZ\(float, float, float\)", i.callee or "") and i.ops[0] == recv and f.dominates(i, c)]
    if cs:
        return cs[-1].ops[1:4]
    v = {}
    for i in f.all():
        if i.op == "store" and f.dominates(i, c) and f.root(i.ops[1])[0] == f.root(recv)[0]:
            a = f.addr(i)
            off = {"r": 0, "g": 4, "b": 8}.get(a[3]) if a[0] == "fld" else (a[2][1] if a[0] == "idx" and a[2][0] == "c" else 0)
            for d, x in lanes(f, i):
                v[(off or 0) + d] = x
    return [v.get(0), v.get(4), v.get(8)]


def averaged(f, o, offs):
    """component name when o is component * (1/weight) or component / weight"""
    if o[0] != "v":
        return None
    i = f.ins[o[1]]

    def old(x):
        l = lin(f, x)
        k = next(iter(l)) if len(l) == 1 else None
        return old_of(f, k, offs) if k is not None else None
    if i.op == "fdiv":
        a, b = old(i.ops[0]), old(i.ops[1])
        return a[1] if a and b and b[1] == "samples" and a[0] == b[0] else None
    if i.op == "fmul":
        for x, y in (i.ops, i.ops[::-1]):
            a = old(x)
            if a and y[0] == "v" and f.ins[y[1]].op == "fdiv":
                d = f.ins[y[1]]
                one = d.ops[0][0] in ("c", "d") and float(d.ops[0][1]) == 1
                b = old(d.ops[1])
                if one and b and b[1] == "samples" and b[0] == a[0]:
                    return a[1]
    return None


def place(ctx, f, st, W, H, offs):
    h = loop_header(f, st.bb)
    ctx.need(h is not None, "pixel loop of the saved image")
    lds = [i for i in f.all() if i.op == "load" and film_access(f, i) and i.bb in loop_body(f, h)]
    ctx.need(lds, "film reads in the saving loop")
    xy = coords(f, lds[0].ops[0])
    ctx.need(xy, "coordinates of the saved pixel")
    okx = oky = False
    for ax, dim in (("x", "width"), ("y", "height")):
        o = xy[ax]
        ind = flow.induction(f, f.ins[o[1]]) if o[0] == "v" else None
        ok = False
        if ind and ind[1] == 1 and flow.const_of(flow.linear(f, ind[0])) == 0:
            for e, strict, hi, lo, _ in flow.facts_ge(f, lds[0].bb):
                if f.ex(lo) == f.ex(o) and strict and f.ex(hi)[0] == "load" and f.ex(hi)[1][0] == "fld" and f.ex(hi)[1][3] == dim:
                    ok = True
        ctx.ob("saved-all", "%s %s" % (f.scoped, ax), ok, lds[0].where(), "every pixel along %s is saved" % ax)
    # destination index = y*width + x : either that expression, or a counter advancing with x, carried over y
    g = f.ins[st.ops[1][1]]
    idx = None
    while g.op == "getelementptr":
        v = [q[1] for q in g.d["path"] if q[0] == "*"]
        if v:
            idx = strip(f, v[-1])
            break
        g = f.ins[g.ops[0][1]]
    ctx.need(idx is not None, "index of the saved pixel")
    e = f.ex(idx)
    wl = ("load",)
    good = False
    lf = flow.linear(f, idx)
    prod = [k for k in lf if isinstance(k, tuple) and k[0] == "mul"]
    if prod and len(lf) == 2 and lf.get(f.ex(xy["x"])) == 1:
        a, b = prod[0][1], prod[0][2]
        good = {str(a), str(b)} == {str(f.ex(xy["y"])), str(f.ex(W))} or any(
            x == f.ex(xy["y"]) and y[0] == "load" and y[1][0] == "fld" and y[1][3] == "width" for x, y in ((a, b), (b, a)))
    elif idx[0] == "v" and f.ins[idx[1]].op == "phi":
        ph = f.ins[idx[1]]
        xb = f.ins[xy["x"][1]].bb
        yb = f.ins[xy["y"][1]].bb
        if ph.bb == xb:
            back = [v for pb, v in ph.d["in"] if ph.bb in f.dom().get(pb, ())]
            ini = [v for pb, v in ph.d["in"] if ph.bb not in f.dom().get(pb, ())]
            one = all(flow.const_of(flow.ladd(flow.linear(f, v), flow.linear(f, idx), -1)) == 1 for v in back) and back
            if one and len(ini) == 1 and ini[0][0] == "v" and f.ins[ini[0][1]].op == "phi" and f.ins[ini[0][1]].bb == yb:
                outer = f.ins[ini[0][1]]
                good = all((flow.const_of(flow.linear(f, v)) == 0) if outer.bb not in f.dom().get(pb, ()) else f.ex(v) == f.ex(idx)
                           for pb, v in outer.d["in"])
    ctx.ob("saved-in-place", f.scoped, good, st.where(), "pixel (x,y) is saved at y*width+x")
