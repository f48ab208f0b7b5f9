"""Ownership analysis and path-sensitive typestate.  Which fields, parameters and containers own what they point to is
derived from who releases it (program-wide summaries on the compiler's IR).  Every function that acquires, is given or
replaces something is then followed along all its paths, with the program's own helpers inlined where they only pass
things on: memory, files, directories, codec structures and objects obtained on a path are released, stored in an owner
or handed over before nothing refers to them any more; nothing is released twice, after it was handed over, with the wrong
function or before it has a value; nothing released is used again or left behind in a field.  A codec error resumes at the
installed setjmp with what was held at that moment.  Constructors initialise what destructors release, destructors
release every owned field, all elements of owned arrays and containers, and use virtual destructors where the object may
be of a derived class; copying or assigning an object, also to itself, does not share what is released."""
import os, re
from multiprocessing import get_context
import flow, front, ir
from front import AnalysisError
import common, own
from own import Facts, acquires, releases, cls_of, kind_of, slot, strip, is_std, cname
from typestate import Run, loops_of, every_iteration

LEVEL = "other"
ASSUMES = ["pointers kept in local containers are followed no further than their insertion",
           "a value a container already holds under the same key is not inserted again",
           "allocation failure is not modelled for operator new"]
RULES = {"leak": "released-in-the-end", "double": "released-once", "use": "not-used-after-release", "family": "released-as-obtained",
         "undef": "initialised-before-release", "null": "handle-valid-when-closed", "share": "copies-share-nothing",
         "dangling": "nothing-released-left-behind"}


def touching(F):
    """link -> class of the methods that store to or release an owning field of their own object"""
    out = {}
    for f in F.funcs:
        c = cls_of(f)
        if not c:
            continue
        rel = {tuple(strip(f, o)[:2]) for u in f.calls() for o, _, _ in releases(f, u)}
        for i in f.all():
            if i.op in ("load", "store"):
                k = slot(f, i)
                if not k or k[2] != 0 or k not in F.owned:
                    continue
                s = strip(f, i.ops[0 if i.op == "load" else 1])
                if s[0] == "a" and s[1] == 0 and (i.op == "store" or ("v", i.i) in rel):
                    out[f.link] = c
    return out


class Analysis:
    def __init__(self, cfg):
        self.cfg = cfg
        p = self.p = common.program(cfg)
        F = self.F = Facts(p)
        touch = touching(F)
        cg = self.cg = common.callgraph(p)
        callers = self.callers = {}
        for a, ts in cg.items():
            for t in ts:
                callers.setdefault(t, set()).add(a)
        inl = {l for l in F.inline_set() if callers.get(l, set()) - {l}}
        helpers = {l for l, c in touch.items() if kind_of(p.all[l]) == "method" and (callers.get(l, set()) - {l}) and
                   all(cls_of(p.all[x]) == c for x in callers[l] - {l} if x in p.all)}
        # what anybody may call is also judged by itself
        public = {l for l in helpers if p.all[l].d.get("public")}
        roots = {}
        for f in F.funcs:
            l = f.link
            if l in inl or l in helpers - public or "D0Ev" in l or re.search(r"D1Ev|C1E", l):
                continue
            c = cls_of(f)
            below = common.reach(p, {l})
            mine = {t for t in below if touch.get(t) == c and t != l and kind_of(p.all[t]) == "method"} if c else set()
            if kind_of(f) == "dtor":
                # what a destructor delegates to the object's own methods
                mine |= {t for t in below if t in p.all and cls_of(p.all[t]) == c and kind_of(p.all[t]) == "method" and
                         any(releases(p.all[t], i) for i in p.all[t].calls())}
            called = {t for t in below if t in inl and t != l}
            want = bool(F.takes.get(l)) or l in touch or (kind_of(f) == "ctor" and any(k[0] == c and F.dtor_releases(*k[:2]) for k in F.owned)) or mine or called or any(
                acquires(i) or releases(f, i) or re.match("^jpeg_(Create|create)", cname(i)) for i in f.calls())
            if want:
                roots.setdefault(frozenset(mine | called), []).append(f)
        req = []
        for n, (also, fs) in enumerate(sorted(roots.items(), key=lambda x: sorted(x[0]))):
            req.append({"id": "r%d" % n, "fn": common.entry_regex(fs), "keep": [".*"], "depth": 6,
                        "also": ["^(" + "|".join(sorted(re.escape(p.all[a].name) for a in also)) + ")$"] if also else []})
        q = ir.Program(front.facts(cfg, req))
        want = {f.link for fs in roots.values() for f in fs}
        self.roots = [f for f in q.funcs if f.id and f.link in want]
        for f in self.roots:
            own.restore_first(p, f)

    def typestate(self):
        global _A
        _A = self
        jobs = []
        for n, f in enumerate(self.roots):
            jobs.append((sum(1 for _ in f.all()), n, False))
            if kind_of(f) == "assign":
                jobs.append((0, n, True))
        jobs.sort(reverse=True)
        with get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
            return pool.map(_one, [(n, al) for _, n, al in jobs], chunksize=1)


_A = None


def _one(job):
    n, alias = job
    f = _A.roots[n]
    try:
        r = Run(_A.F, f, alias)
        r.run()
        return n, alias, r.viol, len(r.sites), len(r.takes), r.nstates, sum(1 for i in f.calls() if releases(f, i)), None
    except RecursionError as e:
        return n, alias, {}, 0, 0, 0, 0, "recursion in " + f.name


def run(ctx):
    for cfg in ([front.OWN] if ctx.tier == "quick" else [front.OWN, front.FULL]):
        one(ctx, cfg)


def label(f):
    return re.sub(r"\(.*", "", f.name.replace(" (.irclone)", "")) + ("(copy)" if kind_of(f) == "copy" else "")


def one(ctx, cfg):
    A = Analysis(cfg)
    F = A.F
    ctx.need(len(F.owned) >= 15, "owning fields")
    ctx.need(len(F.cowned) >= 4, "containers whose elements are released")
    bad = {}
    nsites = 0
    for n, alias, viol, sites, takes, states, rels, err in A.typestate():
        if err:
            raise AnalysisError(err)
        f = A.roots[n]
        nm = label(f) + (" to itself" if alias else "")
        ctx.count("functions followed")
        ctx.count("places that obtain something", sites)
        ctx.count("parameters taken over", takes)
        ctx.count("places that release something", rels)
        ctx.count("states explored", states)
        nsites += sites
        hit = {}
        for (rule, what), (where, detail) in viol.items():
            ctx.ob(RULES[rule], nm + ":" + what, False, where, "%s: %s" % (what, detail))
            hit[rule] = 1
        for rule in ("leak", "double", "use") + (("undef",) if kind_of(f) in ("ctor", "copy") else ()) + \
                (("share",) if kind_of(f) in ("copy", "assign") else ()) + (("family",) if rels else ()):
            if rule not in hit:
                ctx.ob(RULES[rule], nm, True, "%s:%s" % (front.os.path.relpath(f.d.get("file") or "", front.REPO), f.d.get("line")),
                       "%d states" % states)
    ctx.need(nsites >= 40, "places that obtain memory, files or objects")
    virtual_destructors(ctx, A)
    elements(ctx, A)
    A.created = created(A)
    siblings(ctx, A)
    inherited(ctx, A)
    implicit_copies(ctx, A)
    ctx.at_least("released-in-the-end", 80)
    ctx.at_least("elements-released", 5)
    ctx.at_least("virtual-destructor", 5)


# ---- objects of a derived class are destroyed as such
def pointee(t):
    m = re.match(r"^(?:const )?([\w:]+)(?: const)?\s*\*(?: ?const)?$", t or "")
    return m.group(1) if m else None


def virtual_destructors(ctx, A):
    p, F = A.p, A.F
    for f in F.funcs:
        for i in f.calls():
            if cname(i) != "delete" and not ("virt" in i.d and releases(f, i)):
                continue
            s = strip(f, releases(f, i)[0][0])
            if s[0] == "v" and "virt" not in i.d:
                # the static type shows in the virtual calls made on the object
                for t in static_types(f, s):
                    if t in p.types and p.derived(t) - {t}:
                        ctx.ob("virtual-destructor", "%s in %s" % (t, label(f)), False, i.where(),
                               "the object may be of a class derived from %s: its destructor has to be virtual" % t)
            if s[0] != "v" or f.ins[s[1]].op != "load":
                continue
            k = slot(f, f.ins[s[1]])
            cs = F.cont(f)[s[1]]
            ts = set()
            if k and not k[0].startswith(("std::", "__gnu")):
                t = F.ftype.get(k[:2], "")
                if k[2] == 1:
                    t = re.sub(r"\s*(\*|\[\d*\])$", "", t)
                ts.add((k[0] + "::" + k[1], pointee(t)))
            for c in cs:
                for m in re.findall(r"(?:const )?([\w:]+)(?: const)? ?\*", F.ftype.get(c, "")):
                    ts.add((c[0] + "::" + c[1], m))
            for owner, t in sorted(ts, key=str):
                if t and t in p.types and p.derived(t) - {t}:
                    ctx.ob("virtual-destructor", "%s in %s" % (owner, label(f)), "virt" in i.d, i.where(),
                           "%s may point to an object of a class derived from %s: its destructor has to be virtual" % (owner, t))


def static_types(f, s):
    """classes virtual calls on value s are made as"""
    out = set()
    tables = {i.i for i in f.all() if i.op == "load" and strip(f, i.ops[0])[:2] == s[:2]}
    for i in f.calls():
        if i.callee == "llvm.type.test" and i.ops[0][0] == "v" and i.ops[0][1] in tables and i.ops[1][0] == "md":
            m = re.match(r"^_ZTS(N?)((?:\d+\w+?)+)E?$", str(i.ops[1][1]))
            n, names, t = m.group(2) if m else "", [], ""
            while n:
                d = re.match(r"^(\d+)", n)
                if not d:
                    break
                k = int(d.group(1))
                names.append(n[len(d.group(1)):len(d.group(1)) + k])
                n = n[len(d.group(1)) + k:]
            out.add("::".join(names))
    return out


# ---- what goes with a released object
def siblings(ctx, A):
    """an object that is released passes on or releases every owned member of the same kind"""
    F, p = A.F, A.p
    seen = 0
    for f in F.funcs:
        for i in f.calls():
            if "virt" in i.d or cname(i) not in ("free", "delete"):
                continue
            s = strip(f, releases(f, i)[0][0])
            mem = [u for u in f.all() if u.op in ("load", "store") and strip(f, u.ops[0 if u.op == "load" else 1])[:2] == s[:2] and
                   slot(f, u) and slot(f, u)[2] == 0]
            cl = {slot(f, u)[0] for u in mem}
            if len(cl) != 1:
                continue
            c = next(iter(cl))
            made = A.created.get(c, set())
            if made:
                fam = releases(f, i)[0][1]
                ctx.ob("released-as-obtained", "%s in %s" % (c, label(f)), fam in made, i.where(),
                       "objects of %s are obtained with %s but released with %s" % (c, ", ".join(sorted(made)), cname(i)))
            own_here = set()
            for u in mem:
                if u.op != "load" or u.ty != "ptr":
                    continue
                for x in f.calls():
                    for k, o in enumerate(x.ops):
                        if strip(f, o)[:2] == ["v", u.i] and ("release" in F.call_takes(f, x, k) or any(strip(f, r)[:2] == ["v", u.i] for r, _, _ in releases(f, x))):
                            own_here.add(slot(f, u)[1])
            if not own_here or F.dtor_releases(c, next(iter(own_here))):
                continue
            ts = {F.ftype.get((c, n)) for n in own_here}
            for n, ty, off in [x[:3] for x in p.types[c]["fields"]]:
                if ty in ts and ty.endswith("*"):
                    seen += 1
                    ctx.ob("released-in-the-end", "%s::%s in %s" % (c, n, label(f)), n in own_here, i.where(),
                           "%s is released without its %s, unlike its %s" % (c, n, ", ".join(sorted(own_here))))
    ctx.count("members passed on with a released object", seen)


def created(A):
    """class -> how its objects are obtained (new, malloc)"""
    F, p = A.F, A.p
    out = {}
    for f in F.funcs:
        for i in f.calls():
            fam = acquires(i)
            if fam not in ("new", "free"):
                continue
            cs = set()
            for u in f.all():
                if u.op in ("load", "store") and strip(f, u.ops[0 if u.op == "load" else 1])[:2] == ["v", i.i]:
                    k = slot(f, u)
                    if k and k[2] == 0:
                        cs.add(k[0])
                elif u.op in ("call", "invoke") and u.ops and strip(f, u.ops[0])[:2] == ["v", i.i] and u.d.get("link") in p.all and \
                        kind_of(p.all[u.d["link"]]) in ("ctor", "copy"):
                    cs.add(cls_of(p.all[u.d["link"]]))
            for c in cs:
                out.setdefault(c, set()).add(fam)
    return out


def inherited(ctx, A):
    """what the interface says is inherited is taken over"""
    F = A.F
    for f in F.funcs:
        n = re.sub(r"\(.*", "", f.name.replace(" (.irclone)", "")).split("::")[-1]
        if cls_of(f) and re.search(r"(^|_)inherit(_|$)", n) and kind_of(f) == "method":
            ps = [k for k, a in enumerate(f.args) if k and a["ty"] == "ptr" and F.is_ptr(f, k)]
            if ps:
                ctx.ob("inherited-is-owned", re.sub(r"std::__cxx11.*?, ", "", f.name), bool(F.takes.get(f.link)),
                       "%s:%s" % (os.path.relpath(f.d.get("file") or "", front.REPO), f.d.get("line")),
                       "what %s is given is neither released nor kept where somebody releases it" % label(f))


# ---- elements of owned arrays and containers
def element_releases(A, f):
    """[(call, containers, array slot, operand)] releases of something read from a container or array"""
    out = []
    c = A.F.cont(f)
    for i in f.calls():
        rel = releases(f, i) or [(o, None, False) for k, o in enumerate(i.ops) if "release" in A.F.call_takes(f, i, k)]
        for o, fam, thru in rel:
            s = strip(f, o)
            if thru or s[0] != "v":
                continue
            x = f.ins[s[1]]
            ks = set(c[s[1]])
            k = slot(f, x) if x.op == "load" else None
            if k and k[2] == 1 and not k[0].startswith(("std::", "__gnu")) and not ks:
                out.append((i, set(), k, o))
            elif ks:
                out.append((i, ks & A.F.cowned, None, o))
    return out


def complete(f, i, o):
    """the loop releasing at i goes through all its iterations and is passed on every path; None or why not"""
    lps = [l for l in loops_of(f) if i.bb in l[1]]
    if not lps:
        return "it is not released in a loop"
    lp = min(lps, key=lambda l: len(l[1]))
    if not every_iteration(f, lp, i, o):
        return "an iteration may leave its element unreleased"
    exits = {b for b in lp[1] for s in set(f.succ.get(b, ())) if s not in lp[1]}
    if len(exits) != 1:
        return "the loop may be left early"
    pd = f.pdom()
    if 0 not in pd or not (lp[0] == 0 or lp[0] in pd[0]):
        return "a path does not run the loop"
    return None


def counts_all(A, f, i, k, o):
    """the index of the released element runs from 0 to the number of elements; None or why not"""
    x = f.ins[strip(f, o)[1]]
    g = strip_gep(f, x.ops[0])
    idx = None
    if g is not None:
        for q in g.d["path"]:
            if q[0] == "*":
                idx = q[1]
    if idx is None:
        return None            # a pointer walking over the array: not decided
    while idx[0] == "v" and f.ins[idx[1]].op in ir.CASTS:
        idx = f.ins[idx[1]].ops[0]
    if idx[0] != "v":
        return None
    ind = flow.induction(f, f.ins[idx[1]])
    if ind is None:
        return None
    lp = min([l for l in loops_of(f) if i.bb in l[1]], key=lambda l: len(l[1]))
    used = bounds_used(A, k)
    # the comparison that leaves the loop
    for b in lp[1]:
        t = f.term(b)
        if t.op != "br" or not t.ops or all(s in lp[1] for s in t.d["succ"]) or t.ops[0][0] != "v":
            continue
        c = f.ins[t.ops[0][1]]
        if c.op != "icmp":
            return None
        me = f.ex(["v", idx[1]])
        if ind[1] == 1:
            if flow.const_of(flow.linear(f, ind[0])) != 0:
                return "the loop does not start at the first element"
            for a, z in ((c.ops[0], c.ops[1]), (c.ops[1], c.ops[0])):
                la = flow.linear(f, a)
                if set(la) - {None, me} or la.get(me) != 1:
                    continue
                lz = dict(flow.linear(f, z))
                sh = lz.pop(None, 0) - la.get(None, 0)
                flds = {q for e in lz for q in ir.fields_in(e)}
                if used and flds and not (flds & used):
                    return "the loop is not bounded by the number of elements"
                if c.d["pred"][1:] in ("lt", "gt") or c.d["pred"] in ("ne", "eq"):
                    if flds and sh < 0:
                        return "the loop stops before the last element"
        elif ind[1] == -1:
            return None
        else:
            return "the loop skips elements"
    return None


def strip_gep(f, o):
    while o[0] == "v":
        i = f.ins[o[1]]
        if i.op == "getelementptr":
            return i
        if i.op in ir.CASTS or i.op == "freeze":
            o = i.ops[0]
        else:
            return None
    return None


def bounds_used(A, k):
    """fields that bound the index under which elements are stored in array field k"""
    out = set()
    for f in A.F.funcs:
        for i in f.all():
            if i.op != "store" or slot(f, i) != k:
                continue
            g = strip_gep(f, i.ops[1])
            if g is None:
                continue
            for q in g.d["path"]:
                if q[0] == "*":
                    e = f.ex(q[1])
                    out |= ir.fields_in(e)
                    for p, a, b, _ in flow.comparisons(f, flow.edge_facts(f, i.bb)):
                        for u, v in ((a, b), (b, a)):
                            if ir.contains(f.ex(u), lambda y: y == e) or f.ex(u) == e:
                                out |= ir.fields_in(f.ex(v))
    return out


CLEAR = re.compile(r"::(clear|erase|pop_back|pop_front|pop|swap|operator=|extract|resize)\(")


def elements(ctx, A):
    F, p = A.F, A.p
    done = {}
    arrays = {k for k in F.owned if k[2] == 1}
    for f in A.roots:
        if kind_of(f) != "dtor":
            continue
        for i, ks, k, o in element_releases(A, f):
            why = complete(f, i, o)
            if k and not why:
                why = counts_all(A, f, i, k, o)
            for key in ([(k[0], k[1])] if k else sorted(ks)):
                if key[0] != cls_of(f):
                    continue
                old = done.get(key)
                if old is None or old[0]:
                    done[key] = (why, i.where(), label(f))
    need = {(k[0], k[1]) for k in arrays} | set(F.cowned)
    inserts = {}
    for f in F.funcs:
        for i in f.calls():
            if own.INSERT.search(i.callee or ""):
                for k in F.container_args(f, i):
                    inserts.setdefault(k, set()).add(f.link)
    for key in sorted(need):
        name = "%s::%s" % key
        if key not in done:
            # released as a whole by the one function everything is put in on behalf of
            ok, where = False, ""
            for f in A.roots:
                if kind_of(f) == "dtor":
                    continue
                for i, ks, k, _ in element_releases(A, f):
                    if key in ks:
                        own_f = {l for l in releasers(A, key)}
                        if own_f and not reaches_without(A, inserts.get(key, set()), own_f):
                            ok, where = True, i.where()
            ctx.ob("elements-released", name, ok, where, "no destructor releases the elements of %s, and no single function that fills it" % name)
            continue
        why, where, fn = done[key]
        ctx.ob("elements-released", name, why is None, where, "in %s: %s" % (fn, why or "every element is released"))
    # what is released elsewhere is taken out as well
    for f in A.roots:
        if kind_of(f) == "dtor":
            continue
        for i, ks, k, _ in element_releases(A, f):
            for key in sorted(ks):
                takes_out = [u for u in f.calls() if is_std(u.callee) and CLEAR.search(u.callee or "") and key in F.container_args(f, u)]
                dom = f.dom()
                inside = lambda x: sorted(l[0] for l in loops_of(f) if x.bb in l[1])
                before = any(inside(u) == inside(i) and u.bb in dom.get(i.bb, ()) and (u.bb != i.bb or u.pos < i.pos) and "clear" not in u.callee for u in takes_out)
                blocks = {u.bb for u in takes_out if u.bb != i.bb or u.pos > i.pos}
                ok = before or i.bb in blocks
                if not ok:
                    seen, q, ok = {i.bb}, [i.bb], True
                    while q:
                        b = q.pop()
                        if f.term(b) is not None and f.term(b).op == "ret":
                            ok = False
                        for s in set(f.succ.get(b, ())):
                            if s not in seen and s not in blocks:
                                seen.add(s)
                                q.append(s)
                ctx.ob("elements-taken-out", "%s::%s in %s" % (key + (label(f),)), ok, i.where(),
                       "a released element stays in %s::%s" % key)


def releasers(A, key):
    return {f.link for f in A.F.funcs if any(key in ks for _, ks, _, _ in element_releases(A, f))}


def reaches_without(A, targets, cut):
    """main reaches one of the targets without going through the functions in cut"""
    mains = [f.link for f in A.F.funcs if f.name == "main" or f.name.startswith("main(")]
    seen, q = set(mains), list(mains)
    while q:
        x = q.pop()
        for t in A.cg.get(x, ()):
            if t not in seen and t not in cut:
                seen.add(t)
                q.append(t)
    return bool(seen & set(targets))


# ---- objects copied member by member
def implicit_copies(ctx, A):
    F, p = A.F, A.p
    owners = {}
    for (c, n, l) in F.owned:
        if F.dtor_releases(c, n):
            owners.setdefault(c, set()).add(n)
    for c in sorted(owners):
        fs = [f for f in F.funcs if cls_of(f) == c]
        copies = [f for f in fs if kind_of(f) in ("copy", "assign") and f.d.get("artificial")]
        bad = [f for f in copies]
        ctx.ob("no-implicit-copy", c, not bad, bad[0].d.get("file", "") if bad else "",
               "objects of %s are copied member by member although its destructor releases %s" % (c, ", ".join(sorted(owners[c]))))
