"""Interprocedural points-to and effect analysis of everything a rendering or progress thread can execute: each
store, block write and mutating library call reachable from a thread entry point is resolved to the objects it may
write, and must only write objects the thread itself created; film pixels and the job queue (locked, decided by
C01/C02), mutexes and atomics are the only shared objects a thread may change, and every library routine a thread
can reach must be re-entrant."""
import re
import front, ir, pts, flow
from front import AnalysisError
from common import *
from film import film_access

LEVEL = "other"
ASSUMES = ["const member functions of the standard library do not write", "distinct allocations do not alias"]
# C library routines with unsynchronised hidden state
NONREENTRANT = r"^(strtok|localtime|gmtime|asctime|ctime|strerror|getenv|setenv|putenv|setlocale|tmpnam|drand48|lrand48|srand48|random|srandom|srand|lgamma|lgammaf|gamma|chdir|getpwnam|getpwuid|readdir|system)$"
SYNC = r"^std::(mutex|recursive_mutex|timed_mutex|atomic|atomic_flag|lock_guard|unique_lock|scoped_lock|condition_variable|__atomic_base|shared_mutex|once_flag|this_thread|chrono|ctype|locale)"
QUEUE = r"^std::(stack|queue|deque|vector|list|priority_queue)<Renderer_task"
STREAM = r"std::(basic_)?o?stream|std::operator<<|^f?printf$|^puts$|^putchar$|^fflush$|^fputs$|^fputc$|^fwrite$|^putc$"


def run(ctx):
    cfgs = [front.RGB] if ctx.tier == "quick" else [front.RGB, front.RGB_DBG, front.FULL]
    for cfg in cfgs:
        prog = program(cfg)
        ent = {e.link: e for e, _, _ in thread_entries(prog)}
        ls = [l for l in reach(prog, set(ent)) if l in prog.all]
        funcs = [prog.all[l] for l in sorted(ls)]
        P = pts.PTS(prog, funcs, list(ent.values()), callees)
        ctx.count("functions", len(funcs))
        ctx.count("entry_points", len(ent))
        for f in funcs:
            effects(ctx, prog, P, f)
    ctx.at_least("write-stays-local", 150)
    ctx.at_least("reentrant-callee", 5)


def film_cell(f, i):
    """element of the film's pixel array (exclusion decided by C01)"""
    a = f.addr(i)
    return "Array2D<Pixel>" in f.name and ir.contains(a, lambda x: isinstance(x, tuple) and x and x[0] == "load"
                                                       and isinstance(x[1], tuple) and x[1][0] == "fld" and x[1][2].startswith("Array2D"))


def target_name(f, i):
    a = f.addr(i)
    while a and a[0] == "idx":
        a = a[1]
    if a[0] == "load":
        a = a[1]
    if a[0] == "fld":
        return "%s.%s" % (a[2], a[3])
    if a[0] == "alloca":
        return a[1] or "temporary"
    if a[0] == "arg":
        return f.args[a[1]]["name"] or "arg%d" % a[1]
    if a[0] == "g":
        return a[1]
    return "through pointer"


def shared(objs):
    return sorted("%s" % (o[1],) for o in objs if o[0] in ("S", "G"))


def effects(ctx, prog, P, f):
    lk = None
    for i in f.all():
        tgt = None
        what = None
        if i.op == "store":
            tgt, what = P.of(f, i.ops[1]), target_name(f, i)
            if film_access(f, i) or film_cell(f, i):
                continue
        elif i.op in ("atomicrmw", "cmpxchg"):
            continue
        elif i.op in ("call", "invoke"):
            c = i.callee or ""
            if "virt" in i.d:
                ctx.need(any(t in prog.all for t in callees(prog, i)), "virtual call targets at " + i.where())
                continue
            if i.d.get("link") in prog.all:
                continue
            if c == "" and not i.d.get("link"):
                raise AnalysisError("unresolved indirect call at " + i.where())
            if c.startswith("llvm.mem") or c in ("memcpy", "memset", "memmove", "strcpy", "strcat", "sprintf", "snprintf", "strncpy"):
                tgt, what = P.of(f, i.ops[0]), c
            elif c.startswith("llvm.") or c.startswith("__cxa"):
                continue
            elif re.search(STREAM, c):
                ctx.ob("reentrant-callee", "%s in %s" % (short_callee(c), f.scoped), True, i.where(), "console output, internally locked")
                continue
            elif re.match(SYNC, c) or re.match(QUEUE, c):
                continue
            elif c.startswith("std::") or " std::" in c.split("(")[0]:
                m = pts.method(c)
                if m is None or m[2] or m[1] in pts.ACCESSOR:
                    continue
                tgt, what = P.of(f, i.ops[0]) if i.ops else set(), short_callee(c)
            else:
                if re.match(NONREENTRANT, c):
                    ctx.ob("reentrant-callee", "%s in %s" % (c, f.scoped), False, i.where(), "%s keeps unsynchronised hidden state" % c)
                else:
                    ctx.ob("reentrant-callee", "%s in %s" % (short_callee(c), f.scoped), True, i.where(), "")
                if re.match(r"^operator delete|^free$", c):
                    tgt, what = P.of(f, i.ops[0]), "release"
                else:
                    # an out-parameter of a C routine is a write
                    continue
        if tgt is None:
            continue
        sh = shared(tgt)
        if sh and all(o[0] == "G" for o in tgt if o[0] in ("S", "G")) and guarded_static(f, i):
            sh = []
        if sh and i.op == "store" and under_lock(f, i):
            if all_locked(prog, P, f, i):
                sh = []
        if not tgt and i.op == "store" and i.ops[1][0] in ("v", "a"):
            # no object: the pointer is only ever null/undefined on analysed paths
            ctx.count("stores_without_target")
        ctx.ob("write-stays-local", "%s writes %s" % (f.scoped, what), not sh, i.where(),
               "a thread changes shared data (%s)" % ", ".join(sh[:3]) if sh else "only objects this thread created")


def short_callee(c):
    c = re.sub(r"<.*>", "", c)
    return c.split("(")[0]


def guarded_static(f, i):
    for g in f.calls():
        if (g.callee or "").startswith("__cxa_guard_acquire") and f.dominates(g, i):
            for p_, a, b, x in flow.comparisons(f, flow.edge_facts(f, i.bb)):
                if a == ["v", g.i] and p_ == "ne":
                    return True
    return False


def _held(f):
    if not hasattr(f, "_heldmap"):
        lk = Locks(f)
        m = {}

        def tr(i, st, facts):
            m.setdefault(i.i, []).append(st[0])
            return [x if l is None else ("learn", l, x) for x, l in lk.step(i, st)]
        if any(lock_op(i) for i in f.calls()):
            flow.simulate(f, (frozenset(), frozenset()), tr)
        f._heldmap = {k: frozenset.intersection(*v) for k, v in m.items()}
    return f._heldmap


def under_lock(f, i):
    return bool(_held(f).get(i.i))


def all_locked(prog, P, f, i):
    """every thread-side access of the same member holds a lock"""
    a = f.addr(i)
    if a[0] != "fld":
        return False
    for g in P.funcs:
        for x in g.all():
            if x.op in ("load", "store"):
                b = g.addr(x)
                if b[0] == "fld" and b[2:4] == a[2:4] and not under_lock(g, x):
                    tg = P.of(g, x.ops[0] if x.op == "load" else x.ops[1])
                    if shared(tg):
                        return False
    return True
