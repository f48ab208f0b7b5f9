"""Failure-edge dataflow over the image writers and everything between them and the exit status: every operation that
can fail (opening, each write, each codec step, the flush and the close) is followed along its failure edge, and every
path from there must return a value that the success paths never return, up to main.  Codec routines must run behind a
setjmp of the same function with an error handler that jumps back instead of ending the program."""
import re
import front, flow, ir
from front import AnalysisError
from common import *
from fallible import Failures, cname

LEVEL = "other"
ASSUMES = ["the C library, libjpeg, libpng and libtiff report errors as documented"]
LIBW = re.compile(r"^(fwrite|fprintf|fputs|fputc|putc|jpeg_start_compress|png_write_\w+|TIFFWrite\w+)$")


def run(ctx):
    for cfg in ([front.RGB] if ctx.tier == "quick" else [front.RGB, front.RGB_DBG, front.FULL]):
        one(ctx, cfg)


def one(ctx, cfg):
    prog = program(cfg)
    cg = callgraph(prog)
    top = prog.find(r"^img_write(\(|$)")
    ctx.need(len(top) == 1, "img_write")
    top = top[0]
    # functions the dispatcher hands the image to
    writers = [prog.all[l] for l in sorted(cg[top.link]) if l in prog.all]
    def lib_calls(l):
        return {cname(i) for x in reach(prog, {l}) if x in prog.all for i in prog.all[x].calls()}
    writers = [w for w in writers if any(LIBW.match(c) for c in lib_calls(w.link))]
    ctx.need(len(writers) >= 3 + len(cfg.codecs), "one writer per image format below img_write")
    fall = {}
    for w in writers:
        level(ctx, prog, w, {}, fall, cfg)
    # climb to main through every caller
    todo = {top.link}
    done = set(fall)
    rev = {}
    for a, ts in cg.items():
        for t in ts:
            rev.setdefault(t, set()).add(a)
    main = prog.find(r"^main$")
    ctx.need(main, "main")
    up = {top.link}
    q = [top.link]
    while q:
        for p in rev.get(q.pop(), ()):
            if p in prog.all and p not in up:
                up.add(p)
                q.append(p)
    ctx.need(main[0].link in up, "a call path from main to img_write")
    order, pend = [], set(up)
    while pend:
        ready = [l for l in pend if not (set(cg.get(l, ())) & pend - {l})]
        if not ready:
            raise AnalysisError("recursive call path to img_write")
        for l in sorted(ready):
            level(ctx, prog, prog.all[l], {k: v for k, v in fall.items()}, fall, cfg)
            pend.discard(l)
    bad, good = fall[main[0].link]
    ctx.ob("exit-status", "main", 0 not in bad and bad, main[0].name,
           "" if 0 not in bad and bad else "the exit status is %s although the image was not saved" % sorted(map(str, bad)))
    ctx.at_least("failure-reported", 15)
    ctx.at_least("guarded-codec-call", 5)


def level(ctx, prog, fn, extra, fall, cfg):
    keep = ["^(%s)$" % "|".join(re.escape(prog.all[l].name) for l in fall)] if fall else []
    if extra:      # upper levels: only calls leading down matter
        keep += [r"^Console", r"^std::"]
        p = ir.Program(front.facts(cfg, [{"id": "r", "fn": "^" + re.escape(fn.name) + "$", "keep": keep, "inline": False}]))
        fl = p.by_id("r")
    else:
        p, fl = flat("^" + re.escape(fn.name) + "$", keep=keep, cfg=cfg)
    if len(fl) != 1:
        raise AnalysisError("cannot flatten " + fn.name)
    a = Failures(prog if extra else prog, fl[0], ctx, extra)
    if extra:
        own = a.outcomes
        a.outcomes = lambda i, st: own(i, st) if i.d.get("link") in extra else None
    a.run()
    fs = fl[0]
    ctx.count("functions")
    ctx.count("fallible_operations", len(a.ops))
    good = {v for w, v, _ in a.rets if w is None}
    bad = {v for w, v, _ in a.rets if w is not None}
    why = {}
    a.rets = {(w.split("#")[0] if w else w, v, i) for w, v, i in a.rets}
    for w, v, i in a.rets:
        if w is not None and (v in good or v is None):
            # which operations' failures can look like a success
            why.setdefault(w, v)
    if None in good and len(good) > 1:
        good = {None} | {v for v in good if v is not None}
    succ = good - bad if not (good & bad) else good
    fails = {}
    for w, v, i in a.rets:
        if w is not None:
            fails.setdefault(w, set()).add(v)
    zero = fn.name != "main" and fs.d.get("args") is not None
    # a path without failure may still refuse the image (0); success values are those no failure returns
    okvals = {v for v in good if v is not None}
    failvals = {v for vs in fails.values() for v in vs}
    conv = 0 if not extra or 0 in failvals and 1 in okvals else None
    for w, vs in sorted(fails.items()):
        if conv == 0:
            ok = vs <= {0}
        else:
            ok = None not in vs and not (vs & (okvals - failvals if okvals - failvals else okvals))
            ok = ok and bool(okvals - vs)
        short = re.sub(r" at \S+:\d+", "", w)
        ctx.ob("failure-reported", "%s:%s" % (fs.scoped, short), ok, w.split(" at ")[-1] if " at " in w else fs.scoped,
               "" if ok else "%s: after a failure of %s the function can return %s, as on success" % (
                   fs.scoped, w, sorted(str(v) if v is not None else "an unknown value" for v in vs)))
    if not fails:
        raise AnalysisError("%s has no failing operation" % fn.name)
    if not extra:
        ctx.ob("can-succeed", fs.scoped, any(v != 0 for v in good), fs.scoped, "no path without failure returns success")
    for (rule, inst), (i, d) in sorted(a.events.items()):
        if rule in ("guarded-codec-call", "null-handle", "terminates"):
            ctx.ob(rule, inst, d == "", i.where(), d)
    if not extra:
        fall[fn.link] = ([0], [1])
        return
    fall[fn.link] = (sorted(failvals, key=str) or [0], sorted((okvals - failvals) or okvals, key=str) or [1])
