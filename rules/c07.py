"""Failure-edge dataflow over the image readers and probes and the code that loads textures: every read, parse, open and
codec step is followed along its failure edge, and every path from there must return failure without branching on
memory the read was to fill; codec routines run behind a setjmp with an error handler that jumps back; a successful
dimension probe has stored both dimensions; a texture whose probe or decoding failed gets the default map."""
import re
import front, flow, ir
from front import AnalysisError
from common import *
from fallible import Failures, cname, base, strip

LEVEL = "other"
ASSUMES = ["the C library, libjpeg, libpng and libtiff report errors as documented"]
LIBR = re.compile(r"^(fread|fscanf|fgets|fgetc|getc|jpeg_read_\w+|png_read_\w+|png_sig_cmp|TIFFOpen|TIFFRead\w+|TIFFGetField)$")


class Reads(Failures):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.write = False


def run(ctx):
    for cfg in ([front.RGB] if ctx.tier == "quick" else [front.RGB, front.RGB_DBG, front.FULL]):
        one(ctx, cfg)


def one(ctx, cfg):
    prog = program(cfg)
    cg = callgraph(prog)
    api = {}
    for n in ("img_valid", "img_dimensions", "img_read8"):
        t = prog.find(r"^%s(\(|$)" % n)
        ctx.need(len(t) == 1, n)
        api[n] = t[0]
    fall = {}
    for n, t in api.items():
        readers = [prog.all[l] for l in sorted(cg[t.link]) if l in prog.all]
        readers = [r for r in readers if any(LIBR.match(cname(i)) for x in reach(prog, {r.link}) if x in prog.all for i in prog.all[x].calls())]
        ctx.need(len(readers) >= 3 + len(cfg.codecs), "one reader per image format below " + n)
        for r in readers:
            reader(ctx, prog, r, fall, cfg, n)
        dispatch(ctx, prog, t, fall, cfg)
    for n in ("img_dimensions", "img_read8"):
        callers = [f for f in prog.funcs if f.id == "" and api[n].link in cg.get(f.link, ())]
        ctx.need(callers, "callers of " + n)
        for c in callers:
            consumer(ctx, prog, c, api, cfg)
    ctx.at_least("failure-reported", 25)
    ctx.at_least("guarded-codec-call", 8)
    ctx.at_least("default-map", 2)
    ctx.at_least("dimensions-stored", 5)


def reader(ctx, prog, fn, fall, cfg, kind):
    p, fl = flat("^" + re.escape(fn.name) + "$", cfg=cfg)
    if len(fl) != 1:
        raise AnalysisError("cannot flatten " + fn.name)
    f = fl[0]
    a = Reads(prog, f, ctx)
    outs = []
    if kind == "img_dimensions":
        # the two output arguments
        outs = [("a", k) for k, x in enumerate(f.args) if k in (1, 2)]
        inner = a.transfer
        def tr(i, st, facts):
            r = inner(i, st, facts)
            hit = set()
            if i.op == "store":
                hit = {o for o in outs if base(f, i.ops[1]) == o}
            elif i.op == "call":
                hit = {o for o in outs if any(base(f, x) == o for x in a.fills(i))}
            if hit and r is not None:
                n = []
                for x in r:
                    lrn = isinstance(x, tuple) and len(x) == 3 and x[0] == "learn"
                    s = x[2] if lrn else x
                    if s[0] is None:
                        s = s[:4] + (s[4] | {("out",) + o for o in hit},)
                    n.append(("learn", x[1], s) if lrn else s)
                r = n
            if i.op == "ret" and st[0] is None:
                v = flow.value(f, i.ops[0], facts)
                if v != 0:
                    for o in outs:
                        ctx.ob("dimensions-stored", "%s:%s" % (f.scoped, f.args[o[1]]["name"] or o[1]), ("out",) + o in st[4], i.where(),
                               "success is returned without storing this dimension")
            return r
        a.transfer = tr
    a.run()
    ctx.count("functions")
    ctx.count("fallible_operations", len(a.ops))
    fails = {}
    for w, v, i in a.rets:
        if w is not None:
            fails.setdefault(w.split("#")[0], set()).add(v)
    good = {v for w, v, _ in a.rets if w is None}
    if not fails:
        raise AnalysisError("%s has no failing operation" % fn.name)
    for w, vs in sorted(fails.items()):
        ok = vs <= {0}
        ctx.ob("failure-reported", "%s:%s" % (f.scoped, re.sub(r" at \S+:\d+", "", w)), ok, w.split(" at ")[-1],
               "" if ok else "%s: after %s failed the function can return %s" % (f.scoped, w, sorted("an unknown value" if v is None else str(v) for v in vs)))
    ctx.ob("can-succeed", f.scoped, any(v != 0 for v in good), f.scoped, "no path without failure returns success")
    nd = 0
    for (rule, inst), (i, d) in sorted(a.events.items()):
        ctx.ob(rule, inst, d == "", i.where(), d)
    ctx.ob("decides-on-unread", f.scoped + ":none", True)
    fall[fn.link] = ([0], [1])


def dispatch(ctx, prog, fn, fall, cfg):
    keep = ["^(%s)$" % "|".join(re.escape(prog.all[l].name) for l in fall)]
    p, fl = flat("^" + re.escape(fn.name) + "$", keep=keep, cfg=cfg)
    f = fl[0]
    a = Failures(prog, f, ctx, fall, write=False)
    own = a.outcomes
    a.outcomes = lambda i, st: own(i, st) if i.d.get("link") in fall else None
    a.run()
    fails = {}
    for w, v, i in a.rets:
        if w is not None:
            fails.setdefault(w.split("#")[0], set()).add(v)
    for w, vs in sorted(fails.items()):
        ctx.ob("failure-reported", "%s:%s" % (f.scoped, re.sub(r" at \S+:\d+", "", w)), vs <= {0}, w.split(" at ")[-1],
               "%s can return %s after %s" % (f.scoped, vs, w))
    ctx.count("functions")


def consumer(ctx, prog, fn, api, cfg):
    """code that loads a texture: what it does once a probe or the decoding failed"""
    links = {api["img_dimensions"].link, api["img_read8"].link}
    root = fn
    rev = {}
    for x, ts in callgraph(prog).items():
        for t in ts:
            rev.setdefault(t, set()).add(x)
    # a private helper is judged inside the constructor that calls it
    while not re.match(r"^(\w+)::\1\(", root.name) and len([x for x in rev.get(root.link, ()) if x in prog.all]) == 1:
        nx = prog.all[[x for x in rev[root.link] if x in prog.all][0]]
        if nx.link == root.link:
            break
        root = nx
    p, fl = flat("^" + re.escape(root.name) + "$", keep=[r"^ImageMap", r"^TextureLibrary::", r"^img_", r"^Console", r"^File::"], cfg=cfg)
    for f in fl:
        extra = {l: ([0], [1]) for l in links}
        cls = root.name.split("::")[0]
        a = Failures(prog, f, ctx, extra, write=False)
        own = a.outcomes
        a.outcomes = lambda i, st: own(i, st) if i.d.get("link") in extra else None
        inner = a.transfer
        bufs = set()
        for i in f.calls():
            if i.d.get("link") == api["img_read8"].link:
                b = strip(f, i.ops[2])
                bufs.add(tuple(b[:2]))
        bad = {}

        def kindof(o):
            o = strip(f, o)
            if o[0] == "v":
                i = f.ins[o[1]]
                if i.op == "call":
                    c = i.callee or ""
                    if c.startswith("TextureLibrary::get_dflt_map"):
                        return "dflt"
                    if c.startswith("TextureLibrary::get_map"):
                        return "known"
                    if c.startswith("operator new"):
                        return "new"
                if i.op == "load":
                    return None
            return "other"

        def tr(i, st, facts):
            if st[0] is not None and i.op in ("call", "invoke"):
                c = i.callee or ""
                if c.startswith("TextureLibrary::inherit_map"):
                    bad.setdefault("registered", (i, "a map is registered although %s" % st[0].split("#")[0]))
                if re.match(r"^ImageMap\w*::ImageMap", c):
                    bad.setdefault("built", (i, "an image map is built although %s failed" % st[0].split("#")[0]))
            r = inner(i, st, facts)
            if i.op == "store":
                e = f.addr(i)
                if e[0] == "fld" and e[1] == ("arg", 0) and i.d.get("fld", "").endswith("imagemap") or \
                        (e[0] == "fld" and e[1] == ("arg", 0) and "ImageMap" in str(fieldtype(prog, e))):
                    v = i.ops[0]
                    for _ in range(4):      # value chosen on this path
                        v = strip(f, v)
                    k = kind_on_path(f, v, facts, kindof, st)
                    r = [x if not (isinstance(x, tuple) and len(x) == 5) else x[:4] + (frozenset(y for y in x[4] if y[0] != "map") | {("map", k)},) for x in (r or [])]
            if i.op == "ret" and st[0] is not None:
                k = next((x[1] for x in st[4] if x[0] == "map"), None)
                ctx.ob("default-map", "%s:%s" % (f.scoped, re.sub(r" at \S+", "", st[0].split("#")[0])), k == "dflt", i.where(),
                       "after %s failed the texture's map is %s" % (st[0].split("#")[0], {"new": "a newly built one", None: "not set", "other": "not the default one", "known": "another texture's"}.get(k, k)))
            return r
        a.transfer = tr
        oe = a.edge

        def edge(st, b, n, facts):
            st = oe(st, b, n, facts)
            if st is None:
                return None
            # merge of map choices through a phi
            ks = {x for x in st[4] if x[0] == "phi"}
            add = set()
            for ph in f.bbs[n]:
                if ph.op != "phi":
                    break
                if ph.ty != "ptr":
                    continue
                for pb, o in ph.d["in"]:
                    if pb == b:
                        k = kindof(o)
                        o2 = strip(f, o)
                        if o2[0] == "v" and f.ins[o2[1]].op == "phi":
                            k = next((x[2] for x in ks if x[1] == o2[1]), k)
                        ks = {x for x in ks if x[1] != ph.i}
                        add.add(("phi", ph.i, k))
            rest = frozenset(x for x in st[4] if x[0] != "phi")
            return st[:4] + (rest | frozenset(ks) | frozenset(add),)
        a.edge = edge
        a.run()
        for k, (i, d) in bad.items():
            ctx.ob("nothing-built-from-failure", "%s:%s" % (f.scoped, k), False, i.where(), d)
        ctx.ob("nothing-built-from-failure", f.scoped, True)
        ctx.count("functions")


def fieldtype(prog, e):
    t = prog.types.get(e[2])
    if t:
        for n in t["fields"]:
            if n[0] == e[3]:
                return n[1]
    return ""


def kind_on_path(f, v, facts, kindof, st):
    if v[0] == "v" and f.ins[v[1]].op == "phi":
        k = next((x[2] for x in st[4] if x[0] == "phi" and x[1] == v[1]), None)
        return k
    return kindof(v)
