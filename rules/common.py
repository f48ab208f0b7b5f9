"""Shared resolution helpers: call graph, thread entry points, locks."""
import re
import front, ir, flow
from front import AnalysisError
from collections import defaultdict

_progs = {}


def program(cfg=None):
    cfg = cfg or front.RGB
    if cfg.name not in _progs:
        _progs[cfg.name] = ir.Program(front.facts(cfg, all_=True))
    return _progs[cfg.name]


def flat(fn, keep=(), also=(), cfg=None, depth=8):
    """the functions matching regex fn with the project's helpers inlined"""
    cfg = cfg or front.RGB
    p = ir.Program(front.facts(cfg, [{"id": "r", "fn": fn, "keep": list(keep), "also": list(also), "depth": depth}]))
    return p, p.by_id("r")


def callees(prog, i):
    """resolved targets (link names) of a call instruction"""
    if "virt" in i.d:
        return [t[1] for t in i.d["virt"]["targets"]]
    out = []
    if i.d.get("link"):
        out.append(i.d["link"])
    # functions handed over as values run on behalf of the callee
    for o in i.ops:
        if o[0] == "fn":
            out.append(o[2])
    return out


def callgraph(prog):
    if hasattr(prog, "_cg"):
        return prog._cg
    cg = defaultdict(set)
    for f in prog.funcs:
        if f.id:
            continue
        for i in f.calls():
            for t in callees(prog, i):
                cg[f.link].add(t)
        for i in f.all():
            if i.op == "store" and i.ops[0][0] == "fn":
                cg[f.link].add(i.ops[0][2])
    prog._cg = cg
    return cg


def reach(prog, links):
    cg = callgraph(prog)
    seen, q = set(links), list(links)
    while q:
        x = q.pop()
        for t in cg.get(x, ()):
            if t not in seen:
                seen.add(t)
                q.append(t)
    return seen


def thread_entries(prog):
    """[(Func entry, spawning Func, call)] for every std::thread / std::async construction"""
    out = []
    for f in prog.funcs:
        if f.id:
            continue
        for i in f.calls():
            c = i.callee or ""
            if not re.match(r"std::thread::thread<|.*std::async<", c):
                continue
            fns = [o[2] for o in i.ops if o[0] == "fn"]
            if not fns:
                m = re.match(r"std::thread::thread<(.*?)(?:&|\(|,|>)", c)
                base = m.group(1) if m else ""
                fns = [g.link for g in prog.funcs if g.id == "" and base and g.name.startswith(base + "::operator()")]
            for l in fns:
                if l in prog.all:
                    out.append((prog.all[l], f, i))
    if not out:
        raise AnalysisError("no thread entry point found")
    return out


def entry_regex(funcs):
    return "^(" + "|".join(re.escape(n) for n in sorted({f.name for f in funcs})) + ")$"


# ---- locks
def lock_op(i):
    """(kind, operand index of the mutex or guard) for lock primitives"""
    c = i.callee or ""
    m = re.match(r"std::(?:recursive_|timed_|shared_)?mutex::(lock|unlock|try_lock)\(", c)
    if m:
        return m.group(1), "mutex"
    m = re.match(r"std::(lock_guard|unique_lock|scoped_lock|shared_lock)<.*>::(~?)(lock_guard|unique_lock|scoped_lock|shared_lock)\((.*)\)$", c)
    if m:
        if m.group(2):
            return "unlock", "guard"
        if "defer_lock" in m.group(4):
            return "bind", "guard"
        if "try_to_lock" in m.group(4):
            return "bindtry", "guard"
        if "adopt_lock" in m.group(4):
            return "adopt", "guard"
        if m.group(4) == "":
            return None
        return "lock", "guard"
    m = re.match(r"std::unique_lock<.*>::(lock|unlock|try_lock|owns_lock|operator bool)\(", c)
    if m:
        return m.group(1), "guardop"
    return None


class Locks:
    """lockset transfer: state is (frozenset of held mutex expressions, frozenset of (guard, mutex, owned))"""

    def __init__(self, f):
        self.f = f
        self.bad = []

    def step(self, i, st):
        """-> list of (state, learned value or None)"""
        held, guards = st
        lo = lock_op(i)
        if not lo:
            return [(st, None)]
        kind, how = lo
        if how == "mutex":
            m = self.f.ex(i.ops[0])
            if kind == "lock":
                if m in held:
                    self.bad.append((i, "relock", m))
                return [((held | {m}, guards), None)]
            if kind == "unlock":
                if m not in held:
                    self.bad.append((i, "unlock-not-held", m))
                return [((held - {m}, guards), None)]
            return [((held | {m}, guards), -1), (st, 0)]
        g = self.f.ex(i.ops[0])
        cur = next((x for x in guards if x[0] == g), None)
        rest = frozenset(x for x in guards if x[0] != g)
        if how == "guard" and kind in ("lock", "bind", "bindtry", "adopt"):
            m = self.f.ex(i.ops[1])
            if kind == "lock":
                if m in held:
                    self.bad.append((i, "relock", m))
                return [((held | {m}, rest | {(g, m, True)}), None)]
            if kind == "bind":
                return [((held, rest | {(g, m, False)}), None)]
            if kind == "adopt":
                return [((held, rest | {(g, m, True)}), None)]
            return [((held | {m}, rest | {(g, m, True)}), None), ((held, rest | {(g, m, False)}), None)]
        if cur is None:
            return [(st, None)]
        m, owned = cur[1], cur[2]
        if how == "guard":          # destructor
            return [((held - {m} if owned else held, rest), None)]
        if kind == "lock":
            return [((held | {m}, rest | {(g, m, True)}), None)]
        if kind == "unlock":
            return [((held - {m}, rest | {(g, m, False)}), None)]
        if kind == "try_lock":
            return [((held | {m}, rest | {(g, m, True)}), -1), (st, 0)]
        return [(st, -1 if owned else 0)]


def nice(e):
    """short text of a canonical expression"""
    if not isinstance(e, tuple) or not e:
        return str(e)
    k = e[0]
    if k == "fld":
        return "%s.%s" % (nice(e[1]), e[3])
    if k == "load":
        return "*" + nice(e[1]) if e[1][0] not in ("fld",) else nice(e[1])
    if k == "arg":
        return "arg%d" % e[1]
    if k == "alloca":
        return str(e[1]) or "local"
    if k == "c":
        return str(e[1])
    if k == "g":
        return str(e[1])
    if k == "idx":
        return "%s[%s]" % (nice(e[1]), nice(e[2]))
    if k == "phi":
        return "phi%d" % e[1]
    if k == "call":
        return "%s(..)" % e[1].split("(")[0]
    return "%s(%s)" % (k, ", ".join(nice(x) for x in e[1:] if isinstance(x, tuple)))
